#!/usr/bin/env python3
"""Turns planted-bug definitions into /verif/seeded entries, and runs checks against them.

  plant.py make FILE.py...     confirm each definition (format, stable tests, demo both ways) and keep it
  plant.py check ID...         apply the patch in /repo, run the property's quick check, undo
Not used by any check."""
import json, os, re, shutil, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
R = "/repo"
DEMO = """#!/bin/bash
# Builds main.rs against the rowan in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<END
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
rowan = {{ path = "$repo"{features} }}
{deps}{profile}END
export CARGO_TARGET_DIR="$t/target" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable
unset RUSTFLAGS RUSTC_WRAPPER
cd "$t" || exit 2
cargo build --offline {rel}>"$t/log" 2>&1 || {{ tail -20 "$t/log"; exit 2; }}
timeout 120 "$t/target/{dir}/demo"
"""
MIRI = """for seed in 0 1 2 3 4 5 6 7; do
    MIRIFLAGS="-Zmiri-disable-stacked-borrows -Zmiri-ignore-leaks -Zmiri-seed=$seed" RUSTUP_TOOLCHAIN=nightly \
        timeout 200 cargo miri run --offline >"$t/log" 2>&1 || {{ grep -m3 error "$t/log"; exit 1; }}
done
"""


def sh(cmd, cwd=R, timeout=900, env=None):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e)
    return p.returncode, p.stdout.decode(errors="replace")


def clean():
    sh("git checkout -q -- .")


def stable():
    rc, out = sh("bash /opt/vp/build.sh")
    if rc:
        return False, out[-1500:]
    sh("bash /opt/vp/test.sh /tmp/plant.json")
    res = json.load(open("/tmp/plant.json"))
    want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    passed = set(res.get("passed", []))
    return want <= passed, str(sorted(want - passed))


def make(path):
    src = open(path).read()
    d = {}
    exec(src, d)
    name = d["ID"]
    dst = os.path.join(S, name)
    clean()
    for f, old, new in d["EDITS"]:
        p = os.path.join(R, f)
        s = open(p).read()
        n = s.count(old)
        if n != 1:
            clean()
            return f"{name}: edit matches {n} times: {old[:80]!r}"
        open(p, "w").write(s.replace(old, new))
    sh("cargo +stable fmt")
    rc, diff = sh("git diff")
    ok, why = stable()
    if not ok:
        clean()
        return f"{name}: stable tests: {why}"
    os.makedirs(dst, exist_ok=True)
    open(os.path.join(dst, "patch.diff"), "w").write(diff)
    open(os.path.join(dst, "main.rs"), "w").write(d["MAIN"].lstrip("\n"))
    rel = d.get("PROFILE", "debug") == "release"
    feats = d.get("FEATURES", [])
    how = DEMO.split("cargo build")[0] + MIRI if d.get("MIRI") else DEMO
    demo = how.format(
        features=", features = [%s]" % ", ".join('"%s"' % f for f in feats) if feats else "",
        deps=d.get("DEPS", ""),
        profile="", rel="--release " if rel else "", dir="release" if rel else "debug",
    )
    if "DEMO" in d:
        demo = d["DEMO"]
    p = os.path.join(dst, "demo.sh")
    open(p, "w").write(demo)
    os.chmod(p, 0o755)
    json.dump({"property": d["PROP"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]}, open(os.path.join(dst, "meta.json"), "w"), indent=1)
    rc1, o1 = sh(p, timeout=300)
    clean()
    rc0, o0 = sh(p, timeout=300)
    if rc0 != 0 or rc1 == 0:
        shutil.rmtree(dst)
        return f"{name}: demo unchanged={rc0} patched={rc1}\n{o0[-1200:]}\n--\n{o1[-600:]}"
    return f"{name}: kept ({o1.strip().splitlines()[-1][:100] if o1.strip() else rc1})"


def check(name, tier="quick"):
    dst = os.path.join(S, name)
    prop = json.load(open(os.path.join(dst, "meta.json")))["property"]
    clean()
    rc, out = sh(f"git apply {dst}/patch.diff")
    if rc:
        return f"{name}: does not apply: {out}"
    try:
        rc, out = sh(f"python3 check.py {prop} {tier}", cwd=V, timeout=1800, env={"VERIF_SEED": "1", "VERIF_TIER": "quick"})
    finally:
        clean()
    v = [l for l in out.splitlines() if l.startswith("VIOLATION")]
    tail = " | ".join(out.strip().splitlines()[-3:])[:300]
    return f"{name} [{prop}]: {'CAUGHT' if rc == 1 and v else 'MISSED rc=%d' % rc} {tail}"


if __name__ == "__main__":
    for a in sys.argv[2:]:
        try:
            print(make(a) if sys.argv[1] == "make" else check(a), flush=True)
        finally:
            clean()
