"""rewrites the table of planted bugs in DESIGN.md (between the markers) from seeded/*/meta.json"""
import json, os, glob, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in sorted(glob.glob(H + "/seeded/*/meta.json")):
    j = json.load(open(m)); rows.append((j["property"], os.path.basename(os.path.dirname(m)), j["what_it_breaks"]))
rows.sort()
t = "Each is caught by the quick command of the property it is planted against (tools/seed.py replays all of them).\n\n| planted bug | property and check that reports it | what it breaks |\n|---|---|---|\n" + "".join("| %s | %s | %s |\n" % (i, p, w.replace("|", "/")) for p, i, w in rows)
p = H + "/DESIGN.md"; s = open(p).read()
s = re.sub(r"(## Planted bugs and what catches them\n\n).*?(?=\n## |\Z)", lambda m: m.group(1) + t, s, flags=re.S)
open(p, "w").write(s)
