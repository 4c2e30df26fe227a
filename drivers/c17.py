from metriccommon import *


def run(ctx):
    names = ["P", "R", "PMax", "MRR", "MAP"]
    small(ctx, names)
    randoms(ctx, names, 45)
