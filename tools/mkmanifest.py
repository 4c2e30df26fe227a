"""Regenerates MANIFEST.json from lib/vlib/props.py and properties.jsonl."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "lib"))
from vlib.props import PROPS
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    p = PROPS.get(i)
    if p is None:
        na.append(dict(property=i, reason="its specification and conformance check are not built yet"))
        continue
    checks.append(dict(property=i, quick_cmd="bin/check " + i, thorough_cmd="bin/check %s thorough" % i,
                       technique=p.get("technique", "TLA+ specification model checked with TLC; observations of the real code judged against it by TLC"),
                       level=p["level"], level_note=p.get("note", p["rule"])))
json.dump(dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=na), open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
