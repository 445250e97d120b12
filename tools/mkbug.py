#!/usr/bin/env python3
"""mkbug.py <bugs.py>: makes /verif/seeded/<id>/ from edits, in a scratch copy of /repo, and confirms each."""
import json, os, shutil, subprocess, sys
SCR = "/tmp/mkbug/repo"
DEMO = """#!/bin/bash
# run in the repository's root: exit 0 when the property holds for the demonstrated case
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"; cp "$here/main.rs" "$t/src/main.rs"; cp "$here/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<E
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
linear = { path = "$repo/crates/linear" }
nonlinear = { path = "$repo/crates/nonlinear" }
nalgebra = "0.32"
E
cd "$t" || exit 1
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
cargo build --offline --quiet --target-dir "$t/target" 2>"$t/log" || { cat "$t/log"; exit 1; }
timeout 60 "$t/target/debug/demo"
"""
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def reset():
    shutil.rmtree("/tmp/mkbug", ignore_errors=True)
    os.makedirs("/tmp/mkbug")
    sh("cp -a /repo /tmp/mkbug/")
def ida_files(d, demo):
    """the crate a demonstration lays out around a copy of the repository's src"""
    t = "/verif/tools/ida_demo"
    c = d + "/crate"
    os.makedirs(c + "/shim")
    for m in ("ndarray", "failure", "failure_derive", "log"):
        shutil.copytree("/verif/shim/" + m, f"{c}/shim/{m}", ignore=shutil.ignore_patterns("target", "Cargo.lock"))
    sub(c + "/shim/ndarray/Cargo.toml", 'symx = { path = "../../symx" }\n', "")
    sub(c + "/shim/ndarray/src/lib.rs", " symx::Sym }\n", " }\n")
    sub(c + "/shim/ndarray/src/lib.rs", " scalar_lhs! { $tr $f }", "")
    for m in ("linear", "nonlinear"):
        shutil.copy(f"/verif/harness-ida/stub/{m}.rs", c)
    shutil.copy(t + "/util.rs", c)
    shutil.copy(t + "/Cargo.lock", c)
    open(d + "/demo.rs", "w").write("mod util;\nuse crate::*;\nuse ndarray::prelude::*;\nuse util::*;\n" + demo)
    return open(t + "/demo.sh").read()
def sub(p, a, b):
    s = open(p).read()
    assert a in s, (p, a)
    open(p, "w").write(s.replace(a, b))
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
reset()
for b in ns["BUGS"]:
    if only and b["id"] not in only:
        continue
    d = f"/verif/seeded/{b['id']}"
    sh("git checkout -- .", cwd=SCR)
    for f, old, new in b["edits"]:
        p = os.path.join(SCR, f)
        s = open(p).read()
        assert s.count(old) == 1, (b["id"], f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = sh("git diff", cwd=SCR).stdout
    t = sh("cargo test --offline 2>&1 | grep -E '^test |test result|error' ", cwd=SCR, env=dict(os.environ, RUSTUP_TOOLCHAIN="stable"))
    good = t.stdout.count("... ok")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + "/patch.diff", "w").write(diff)
    json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
    if "ida" in b:
        b["demo_sh"] = ida_files(d, b["ida"])
    elif "files" in b:
        for n, c in b["files"].items():
            open(f"{d}/{n}", "w").write(c)
    else:
        open(d + "/main.rs", "w").write(b["demo"])
        shutil.copy("/verif/tools/demo.lock", d + "/Cargo.lock")
    open(d + "/demo.sh", "w").write(b.get("demo_sh", DEMO))
    os.chmod(d + "/demo.sh", 0o755)
    with_bug = sh(f"bash {d}/demo.sh", cwd=SCR)
    sh("git checkout -- .", cwd=SCR)
    clean = sh(f"bash {d}/demo.sh", cwd=SCR)
    ok = good == 7 and with_bug.returncode not in (0, 3) and clean.returncode == 0
    print(b["id"], b["property"], "OK" if ok else "BAD", f"tests {good}/7 bug-exit {with_bug.returncode} clean-exit {clean.returncode}")
    if not ok:
        print(t.stdout[-1500:], with_bug.stdout[-1500:], clean.stdout[-1500:])
shutil.rmtree("/tmp/mkbug", ignore_errors=True)
