#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, glob, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, bounds="", technique="bounded exhaustive enumeration of inputs/operation sequences on the real code against a reference model", na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), _b=bounds, _t=technique, _na=na))

exec(open(os.path.join(H, "tools", "props.py")).read())

with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}, ensure_ascii=False) + "\n")
have = {os.path.basename(x)[:3] for x in glob.glob(os.path.join(H, "harness", "C*_*.cpp"))}
checks, na = [], []
for p in P:
    if p["_na"] or p["id"] not in have:
        na.append(dict(property=p["id"], reason=p["_na"] or "no check has been built for it yet"))
        continue
    checks.append(dict(property=p["id"], quick_cmd="python3 run.py %s --tier quick" % p["id"],
                       thorough_cmd="python3 run.py %s --tier thorough" % p["id"],
                       technique=p["_t"], level="model_checking", level_note=p["_b"] or p["quantifier"]["text"]))
m = dict(version=1, setup_cmd="python3 run.py --setup", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
b = {p["id"]: dict(rule=p["quantifier"]["text"], assumptions=["reference semantics of lib/oracle.hpp (exact arithmetic modulo 2^31-1, 2 orbitals per space unless stated)"]) for p in P}
json.dump(b, open(os.path.join(H, "bounds.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks,", len(na), "not claimed")
