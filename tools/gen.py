"""Single source for properties.jsonl and MANIFEST.json.

    python3 tools/gen.py            rewrite both files
"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                               observe_at=observe, hook_needed=None)))

S = "src/qrisp/"
exec(open(os.path.join(ROOT, "tools", "props.py")).read())

ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids)
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")

TECH = "bounded explicit-state model checking: exhaustive enumeration on the real code against an independent reference model"
checks = []
have = {f[:-3] for f in os.listdir(os.path.join(ROOT, "mc", "checks")) if f.endswith(".py") and f != "__init__.py"}
na = []
for p in P:
    if p["id"] in have:
        src = open(os.path.join(ROOT, "mc", "checks", p["id"] + ".py")).read()
        ns = {}
        lev, note = "model_checking", ""
        for line in src.splitlines():
            if line.startswith("LEVEL = "): lev = eval(line[8:])
            if line.startswith("NOTE = "): note = eval(line[7:])
        checks.append(dict(property=p["id"],
                           quick_cmd=f"./check {p['id']} quick",
                           thorough_cmd=f"./check {p['id']} thorough",
                           evidence_file=f"evidence/{p['id']}.json",
                           technique=TECH if lev != "fault_enumeration" else "bounded explicit-state model checking: exhaustive enumeration of call histories and fault points on the real code against a reference model",
                           level=lev, level_note=note))
    else:
        na.append(dict(property=p["id"], reason=NOT_APPLICABLE.get(p["id"], "no check built yet")))
man = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
           notes="All checks enumerate a bounded space exhaustively on the code in /repo/src and compare with the reference models in mc/. See DESIGN.md for bounds.")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(P), "properties", len(checks), "checks")
