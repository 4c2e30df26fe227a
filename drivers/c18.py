from metriccommon import *


def run(ctx):
    names = ["RBP", "ERR", "Pf"]
    small(ctx, names)
    randoms(ctx, names, 60)
