"""Rewrites the table of planted bugs at the end of DESIGN.md (a development tool, not a check)."""
import glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
head = s.split("SEEDTABLE")[0].split("| planted bug |")[0]
rows = ["| planted bug | where | what it breaks | needs |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(here, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    files = [l[6:].strip().replace("rankeval/", "") for l in open(os.path.join(d, "patch.diff")) if l.startswith("+++ b/")]
    esc = lambda t: t.replace("|", "\\|")
    name = os.path.basename(d) + (" (missed)" if m.get("missed") else "")
    rows.append("| %s | %s | %s | %s |" % (name, ", ".join(files), esc(m["what_it_breaks"]), esc(m["needs"])))
open(p, "w").write(head + "\n".join(rows) + "\n")
