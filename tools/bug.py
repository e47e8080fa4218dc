#!/usr/bin/env python3
"""bug.py mk SPEC.py: creates /verif/seeded/<id>/ from a spec (dict B); bug.py try ID: applies it to /repo, builds, tests, demo, check, reverts."""
import sys, os, subprocess, json, shutil, time
V = "/verif"; R = "/repo"
DEMO = """#!/bin/bash
# compiles the demonstration against the built library and runs it
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
/usr/bin/g++-14 -std=c++23 -O1 -w -fno-access-control -D_GLIBCXX_USE_TBB_PAR_BACKEND=0 -Isrc "$D/demo.cpp" -o "$T/demo" -L_build/src -lopenemsh -Wl,-rpath,"$PWD/_build/src" LIBS || exit 2
cd "$T" && timeout 60 ./demo
"""


def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def mk(spec):
    g = {}
    exec(open(spec).read(), g)
    for b in g["BUGS"]:
        d = f"{V}/seeded/{b['id']}"
        os.makedirs(d, exist_ok=True)
        assert not sh(f"git -C {R} status --porcelain").stdout.strip(), "repo dirty"
        try:
            for f, old, new in b["edits"]:
                p = f"{R}/src/{f}"; s = open(p).read()
                assert s.count(old) == 1, (b["id"], f, old, s.count(old))
                open(p, "w").write(s.replace(old, new))
            open(d + "/patch.diff", "w").write(sh(f"git -C {R} diff").stdout)
        finally:
            sh(f"git -C {R} checkout -- .")
        if "demo" in b:
            open(d + "/demo.cpp", "w").write(b["demo"])
        open(d + "/demo.sh", "w").write(b.get("sh") or DEMO.replace("LIBS", b.get("libs", ""))); os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        print("made", b["id"])


def tr(ids, check=True):
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    r = sh("bash /opt/vp/build.sh")
    assert r.returncode == 0, r.stdout[-2000:]
    pre = {i: sh(f"bash {V}/seeded/{i}/demo.sh", cwd=R) for i in ids}
    for i in ids:
        m = json.load(open(f"{V}/seeded/{i}/meta.json"))
        out = [i, m["property"], f"demo-clean={pre[i].returncode}"]
        if pre[i].returncode: out.append((pre[i].stdout + pre[i].stderr)[-800:])
        try:
            a = sh(f"git -C {R} apply {V}/seeded/{i}/patch.diff")
            if a.returncode: out.append("apply failed " + a.stderr); continue
            b = sh("bash /opt/vp/build.sh")
            if b.returncode: out.append("BUILD FAILED " + b.stdout[-600:]); continue
            sh("bash /opt/vp/test.sh /tmp/bugout.json")
            o = json.load(open("/tmp/bugout.json"))
            miss = base - set(o["passed"])
            out.append(f"tests-broken={len(miss)}" + (" " + str(sorted(miss)[:2]) if miss else ""))
            d = sh(f"bash {V}/seeded/{i}/demo.sh", cwd=R)
            out.append(f"demo-bug={d.returncode} {d.stdout.strip()[-150:]}")
            if check:
                t = time.time()
                c = sh(f"VERIF_SEED=1 python3-vt check.py {m['property']}", cwd=V)
                out.append(f"check={c.returncode} {time.time()-t:.0f}s " + " | ".join(l[:300] for l in c.stdout.splitlines()[-4:]))
        finally:
            sh(f"git -C {R} checkout -- .")
            print("  ".join(out)); sys.stdout.flush()
    sh("bash /opt/vp/build.sh")


if sys.argv[1] == "mk": mk(sys.argv[2])
else: tr(sys.argv[2:])
