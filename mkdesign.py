"""writes the generated tables of DESIGN.md (planted changes) from /verif/seeded; run by hand after planting"""
import json, os, re
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "DESIGN.md")
s = open(p).read()
rows = []
d = os.path.join(os.path.dirname(p), "seeded")
for i in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, i, "meta.json")))
    files = sorted(set(re.findall(r"^\+\+\+ b/(\S+)", open(os.path.join(d, i, "patch.diff")).read(), re.M)))
    rows.append("| %s | %s | %s | %s | %s |" % (i, m["property"], ", ".join(x.replace("rkstiff/", "") for x in files), m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/") if isinstance(m["needs"], str) else m["needs"]))
t = "| id | caught by | file | what it breaks | what it needs to show |\n|---|---|---|---|---|\n" + "\n".join(rows)
a, b = "<!-- planted:begin -->", "<!-- planted:end -->"
s = s[:s.index(a) + len(a)] + "\n" + t + "\n" + s[s.index(b):]
open(p, "w").write(s)
