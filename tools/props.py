#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run from /verif: python3 tools/props.py)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DENSE = "crates/linear/src/dense.rs"
LTR = "crates/linear/src/traits.rs"
NEWT = "crates/nonlinear/src/newton.rs"
NTR = "crates/nonlinear/src/traits.rs"
NORM = "crates/nonlinear/src/norm_wrms.rs"
REAL = "Symbolic execution of the compiled generic code over SMT terms (exact real arithmetic), z3/cvc5 decide; "
FPA = "Symbolic execution of the compiled generic code over SMT floating-point terms (IEEE-754 binary64), z3/cvc5 decide; "
CTL = "Symbolic execution of the compiled generic code, stub answers and data are solver variables; "
P = []

def prop(id, title, statement, over, text, why, files, mech, state=(), technique="", note="", observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  state=list(state), technique=technique, note=note, observe=list(observe)))

def m(*pairs):
    return [dict(name=a, where=b) for a, b in pairs]

exec(open(os.path.join(ROOT, "tools", "props_core.py")).read())
f = os.path.join(ROOT, "tools", "props_ida.py")
if os.path.exists(f):
    exec(open(f).read())
NA = globals().get("NOT_APPLICABLE", [])

with open(os.path.join(ROOT, "properties.jsonl"), "w") as o:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=p["mech"]))
        if p["state"]:
            d["anchors"]["state"] = p["state"]
        if p["observe"]:
            d["anchors"]["observe_at"] = p["observe"]
        o.write(json.dumps(d) + "\n")
na = {x["property"] for x in NA}
man = dict(
    version=1,
    setup_cmd="./setup.sh",
    checks=[dict(property=p["id"], quick_cmd=f"./check.sh {p['id']} quick", thorough_cmd=f"./check.sh {p['id']} thorough",
                 evidence_file=f"evidence/{p['id']}.json", technique=p["technique"], level="model_checking", level_note=p["note"])
            for p in P if p["id"] not in na],
    not_applicable=NA,
    notes="See DESIGN.md. C16 and up compile /repo/src (not part of the workspace) against API shims in shim/. No hooks in /repo: the crates are generic over the scalar type, so the checks compile the real sources at a symbolic scalar.",
)
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
try:
    import jsonschema
    jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(os.path.join(ROOT, "properties.jsonl")):
        jsonschema.validate(json.loads(l), sch)
    print("valid", len(P))
except ImportError:
    print("written, not validated (use python3-vt)")
