#!/usr/bin/env python3
"""Planted bugs. seed.py confirm ID.. : builds, stable tests pass, demo 0 without / nonzero with the change.
seed.py catch ID.. : the property's check must report it.   (Applies to /repo and undoes it.)"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# fails with the change, passes without; everything happens in a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
. /opt/vp/env.sh
mkdir -p "$w/p/tests"
python3 - "$w/p/Cargo.toml" <<'P'
import re,sys
t=open("/opt/vp/offline-pkg/Cargo.toml").read()
t=re.sub(r'(?ms)^\\[\\[test\\]\\].*?(?=^\\[|\\Z)','',t)
open(sys.argv[1],"w").write(t)
P
cp /opt/vp/offline-pkg/Cargo.lock "$w/p/"
for n in src builtin_certs README.md; do ln -s "/repo/$n" "$w/p/$n"; done
cp "$here"/*.rs "$w/p/tests/"
export DEMO_DIR="$here" DEMO_SCRATCH="$w"
cd "$w/p" && timeout 250 cargo test --offline --quiet --test demo -- --test-threads 1
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def apply(i):
    p = sh(f"git -C /repo apply {V}/seeded/{i}/patch.diff")
    assert p.returncode == 0, p.stdout


def undo():
    sh("git -C /repo checkout -- .")


def baseline():
    b = json.load(open("/opt/vp/BASELINE.json"))
    return set(b["stable"])


def make(i, prop, edits, needs, breaks, demo_rs=None, demo_sh=None, files=None):
    """edits: list of (file, old, new)"""
    assert sh("git -C /repo status --porcelain -uno").stdout == ""
    d = f"{V}/seeded/{i}"
    os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in edits:
            s = open("/repo/" + f).read()
            assert s.count(old) == 1, (i, f, s.count(old))
            open("/repo/" + f, "w").write(s.replace(old, new))
        open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
    finally:
        undo()
    if demo_rs:
        open(d + "/demo.rs", "w").write(demo_rs)
    open(d + "/demo.sh", "w").write(demo_sh or DEMO)
    for n, c in (files or {}).items():
        open(f"{d}/{n}", "wb").write(c)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)


def confirm(i):
    r = sh("bash /opt/vp/build.sh")
    d0 = sh(f"bash {V}/seeded/{i}/demo.sh", cwd="/repo")
    if d0.returncode:
        return f"demo fails on the unchanged tree:\n{d0.stdout[-1500:]}"
    apply(i)
    try:
        r = sh("bash /opt/vp/build.sh")
        if r.returncode:
            return "does not build:\n" + r.stdout[-1500:]
        sh("bash /opt/vp/test.sh /tmp/seed-out.json")
        o = json.load(open("/tmp/seed-out.json"))
        fails = sorted(baseline() - set(o["passed"]))
        if fails:
            return f"tests fail: {fails}"
        d1 = sh(f"bash {V}/seeded/{i}/demo.sh", cwd="/repo")
        if d1.returncode == 0:
            return "demo does not notice the change"
        if "error[E" in d1.stdout or "could not compile" in d1.stdout:
            return "demo does not compile"
    finally:
        undo()
        sh("bash /opt/vp/build.sh")
    return None


def catch(i, props=None):
    prop = json.load(open(f"{V}/seeded/{i}/meta.json"))["property"]
    apply(i)
    try:
        out = {}
        for p in props or [prop]:
            r = sh(f"python3 {V}/run/check.py {p}", cwd=V)
            out[p] = (r.returncode, f"VIOLATION property={p}" in r.stdout, [l for l in r.stdout.splitlines() if l.startswith("  ")][:1])
    finally:
        undo()
    return out


if __name__ == "__main__":
    cmd, ids = sys.argv[1], sys.argv[2:]
    if ids == ["all"]:
        ids = sorted(os.listdir(V + "/seeded"))
    for i in ids:
        if cmd == "confirm":
            print(i, confirm(i) or "confirmed", flush=True)
        else:
            print(i, catch(i), flush=True)
