"""Regenerates MANIFEST.json from the check modules that exist."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
TECH = json.load(open(os.path.join(here, "techniques.json")))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl")) if l.strip()]
NA = TECH.pop("_not_applicable")
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(here, "rkcheck", "checks", i.lower() + ".py")) and i in TECH:
        checks.append(dict(property=i, quick_cmd="python3 -m rkcheck %s --tier quick" % i, thorough_cmd="python3 -m rkcheck %s --tier thorough" % i,
                           technique=TECH[i], level="other",
                           level_note="static analysis: holds for every input within the modelled semantics; assumptions and undecided parts are listed in the evidence file"))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check yet")))
m = dict(version=1, setup_cmd="python3 -c 'import ast'", checks=checks, not_applicable=na, notes="See DESIGN.md. Commands run from /verif and analyse /repo's working tree; nothing of rkstiff is executed.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
