"""python3 tools/mc.py Module Module.cfg ...: model check and print statistics"""
import os, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import tlc
os.makedirs(os.path.join(tlc.VERIF, ".work"), exist_ok=True)
for k in range(1, len(sys.argv), 2):
    t = time.time()
    try:
        r = tlc.check_model(sys.argv[k], sys.argv[k + 1])
        print(sys.argv[k + 1], "distinct", r["distinct"], "generated", r["generated"], "depth", r["depth"], "%.1fs" % (time.time() - t))
    except tlc.TlcError as e:
        print(str(e)[-1800:])
