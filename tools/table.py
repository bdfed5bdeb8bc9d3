"""Rewrites the table of planted bugs in DESIGN.md.
usage: table.py CATCHLOG...   (outputs of mkseed.py catch; later ones win)"""
import glob, json, os, sys

got = {}
for p in sys.argv[1:]:
    for line in open(p):
        a, _, b = line.partition(": ")
        if b.startswith("CAUGHT"):
            got[a] = "caught"
        elif b.startswith("missed"):
            got[a] = "missed"
rows = ["| planted bug | needs | quick, seed 1 |", "|---|---|---|"]
for d in sorted(glob.glob("seeded/*")):
    m = json.load(open(d + "/meta.json"))
    k = os.path.basename(d)
    rows.append("| %s | %s | %s |" % (k, m["needs"].replace("|", "/"), got.get(k, "not run")))
s = open("DESIGN.md").read()
A, B = "<!-- table -->\n", "<!-- end of table -->"
i, j = s.index(A) + len(A), s.index(B)
open("DESIGN.md", "w").write(s[:i] + "\n".join(rows) + "\n" + s[j:])
