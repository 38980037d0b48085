"""Writes MANIFEST.json from vf/props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vf.props import PROPS, NOT
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
for p in list(PROPS) + list(NOT):
    assert p in ids, p
checks = []
for p in ids:
    if p not in PROPS:
        assert p in NOT, "no check and no reason: " + p
        continue
    P = PROPS[p]
    bo = P.get("bounded_only")
    c = {"property": p,
         "quick_cmd": "python3 -m vf.check %s" % p,
         "thorough_cmd": "python3 -m vf.check %s --tier thorough" % p,
         "technique": P.get("technique", "contract-based deductive verification: contracts on /repo's functions, translated from clang's AST on every run to WhyML, every obligation generated by Why3 and discharged by z3/cvc5"),
         "level": P.get("level", "proof"),
         "level_note": P.get("note", "all inputs, no bound; float arithmetic as reals, allocation never fails")}
    checks.append(c)
m = {"version": 1, "setup_cmd": "python3 -m vf.setup", "checks": checks,
     "not_applicable": [{"property": p, "reason": NOT[p]} for p in ids if p not in PROPS]}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
