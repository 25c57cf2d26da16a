#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json; run it after editing."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
import checks as C

PROPS = []
def P(id, title, statement, over, qtext, why, files, mech, observe=None, note=""):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    PROPS.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a), note))

exec(open(os.path.join(V, "bin", "props_list.py")).read())

NA = []
if os.path.exists(os.path.join(V, "bin", "na_list.py")): exec(open(os.path.join(V, "bin", "na_list.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p, _ in PROPS: f.write(json.dumps(p) + "\n")
    for p, _ in NA: f.write(json.dumps(p) + "\n")
TECH = "symbolic execution of the LLVM IR compiled from /repo's current tree, branch and assertion queries decided by an SMT solver (Z3); counterexamples replayed natively"
m = {
 "version": 1, "setup_cmd": "true",
 "hooks": {"guard": "dune_verif", "enable": "bin/buildir.sh passes RUSTFLAGS --cfg dune_verif and DUNE_VERIF_BIN=<harness file>, which src/bin.rs then includes", "source_commits": ["db971c9"]},
 "checks": [dict(property=p["id"], quick_cmd="bin/check %s quick" % p["id"], thorough_cmd="bin/check %s thorough" % p["id"], technique=TECH, level="model_checking",
    level_note=(note + " " if note else "") + "Bounded: " + C.CHECKS[p["id"]]["bounds"]) for p, note in PROPS if p["id"] in C.CHECKS],
 "not_applicable": [dict(property=p["id"], reason=r) for p, r in NA],
}
missing = [p["id"] for p, _ in PROPS if p["id"] not in C.CHECKS]
if missing: print("no check yet:", missing)
for p in missing: m["not_applicable"].append(dict(property=p, reason="not built yet"))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p, _ in PROPS: jsonschema.validate(p, s)
    print("schemas ok", len(PROPS))
except ImportError: print("no jsonschema")
