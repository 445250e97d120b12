#!/usr/bin/env python3
"""Lays out /repo/src (which the workspace does not build) as a crate under gen/: the sources as
they are, an interface for the modules that are gone (linear, nonlinear), the harnesses as a child
module, and a copy of the sample problems whose f64 is the symbolic scalar."""
import os, re, shutil, sys
here = os.path.dirname(os.path.abspath(__file__))
src, gen = "/repo/src", os.path.join(here, "gen")
want = {}
def rd(p):
    return open(p, encoding="utf-8").read()
for d, _, fs in os.walk(src):
    for f in fs:
        if f.endswith(".rs"):
            p = os.path.join(d, f)
            want[os.path.relpath(p, src)] = rd(p)
if "lib.rs" not in want:
    sys.exit("no /repo/src/lib.rs")
for m in ("linear", "nonlinear"):
    if not any(k.startswith(m + "/") or k == m + ".rs" for k in want):
        want[m + ".rs"] = rd(os.path.join(here, "stub", m + ".rs"))
root = want["lib.rs"]
# inner doc comments must come first: attributes go after them
head = re.match(r"(?:[ \t]*(?://[^\n]*)?\n|#!\[[^\n]*\n)*", root).end()
want["lib.rs"] = root[:head] + "#![allow(warnings)]\n" + root[head:] + '''
#[path = "../verif/mod.rs"]
pub mod verif;
#[cfg(feature = "sample")]
mod sample_sym;
'''
# constants of the symbolic scalar: the f64 ones
names = re.findall(r"^\s*fn (\w+)\(\)\s*->\s*Self;", want.get("constants.rs", ""), re.M)
want["verif_const.rs"] = "impl crate::constants::IdaConst for symx::Sym {\n    type Scalar = Self;\n" + "".join(
    f"    fn {n}() -> Self {{ symx::Sym::lit(<f64 as crate::constants::IdaConst>::{n}()) }}\n" for n in names) + "}\n"
# sample problems over the symbolic scalar
lit = re.compile(r"(?<![\w.])(\d+\.\d*(?:[eE][+-]?\d+)?|\d+[eE][+-]?\d+)(?:_?f64)?(?![\w.])")
for k in [k for k in want if k.startswith("sample_problems/")]:
    out = []
    for line in want[k].split("\n"):
        code = line.split("//")[0]
        if not re.match(r"\s*(pub(\([^)]*\))? )?(const|static)\b", code):
            code = lit.sub(r"crate::verif::lit(\1)", code)
            code = re.sub(r"\bf64\b", "crate::verif::SymF", code)
        out.append(code)
    t = "\n".join(out)
    want["sample_sym/" + k.split("/", 1)[1]] = "use num_traits::Float as _;\n" + t
for k in ("sample_problems/slider_crank.rs", "sample_sym/slider_crank.rs"):
    if k in want:
        sc = "f64" if "problems" in k else "symx::Sym"
        want[k] += f'''
impl SlCrank {{
    #[doc(hidden)]
    pub fn verif_with(v: [{sc}; 8]) -> Self {{
        SlCrank {{ a: v[0], J1: v[1], J2: v[2], m2: v[3], k: v[4], c: v[5], l0: v[6], F: v[7] }}
    }}
}}
'''
if not os.path.isdir(gen):
    os.makedirs(gen)
for d, _, fs in os.walk(gen):
    for f in fs:
        if os.path.relpath(os.path.join(d, f), gen) not in want:
            os.remove(os.path.join(d, f))
for k, t in want.items():
    p = os.path.join(gen, k)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if not os.path.exists(p) or rd(p) != t:
        with open(p, "w", encoding="utf-8") as f:
            f.write(t)
