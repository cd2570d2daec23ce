"""Rewrite the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
MARK = "## Planted bugs and the checks that catch them\n"
text = open("DESIGN.md").read().split(MARK)[0]
missed = set(x.strip() for x in open("tools/missed.txt")) if os.path.exists("tools/missed.txt") else set()
out = [text, MARK, "\nEach was written from a property's text and the code, confirmed valid (builds, passes the tests,\n"
       "demo 0 / nonzero) by `tools/plant.py`; `caught by` is the quick check at seed 1.\n\n| bug | caught by | what it breaks | needs |\n|---|---|---|---|\n"]
for d in sorted(glob.glob("seeded/*/")):
    i = os.path.basename(d[:-1])
    m = json.load(open(d + "meta.json"))
    out.append("| %s | %s | %s | %s |\n" % (i, "*missed*" if i in missed else m["property"], m["what_it_breaks"], m["needs"]))
open("DESIGN.md", "w").write("".join(out))
