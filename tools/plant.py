#!/usr/bin/env python3
"""Confirms planted changes and shows which checks catch them (not a check).

usage: plant.py [--tests-only] ID... ; works in the scratch copy /tmp/rw.
For each seeded/ID: the patch applies, the stable tests pass with it, demo.sh
passes without and fails with it; then the check of its property is run.
"""
import json, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RW = "/tmp/rw/repo"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def build():
    e = dict(os.environ, CC="/usr/bin/clang-18", CXX="/usr/bin/clang++-18", LC_ALL="C.UTF-8")
    r = sh('cmake -S /opt/vp/cmake -B %s/_build -G Ninja -DREPO=%s -DCMAKE_BUILD_TYPE=RelWithDebInfo "-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=-O1 -g" -DCMAKE_CXX_FLAGS=-Wno-error && ninja -C %s/_build' % (RW, RW, RW), env=e)
    return r


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    os.makedirs("/tmp/rw", exist_ok=True)
    if not os.path.isdir(RW):
        print(sh("git -C /repo worktree prune; git clone -q /repo " + RW).stdout)
    sh("git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD" % (RW, RW))
    base = set(json.load(open("/opt/vp/BASELINE.json")).get("passed") or json.load(open("/opt/vp/BASELINE.json")).get("stable") or [])
    b = build()
    if b.returncode:
        sys.exit("clean build failed\n" + b.stdout[-2000:])
    for bid in args:
        d = os.path.join(V, "seeded", bid)
        meta = json.load(open(d + "/meta.json"))
        sh("git -C %s checkout -q -- ." % RW)
        res = []
        build()
        r = sh(["bash", d + "/demo.sh"], cwd=RW)
        res.append("demo clean: %d" % r.returncode)
        if r.returncode:
            print(r.stdout[-1500:])
        a = sh("git -C %s apply %s/patch.diff" % (RW, d))
        if a.returncode:
            print(bid, "patch does not apply", a.stdout)
            continue
        b = build()
        if b.returncode:
            print(bid, "does not build", b.stdout[-1500:])
            continue
        t = sh("ctest --test-dir %s/_build -j8 --timeout 300" % RW)
        m = re.search(r"(\d+)% tests passed, (\d+) tests failed out of (\d+)", t.stdout)
        res.append("tests: " + (m.group(0) if m else "?"))
        if m and m.group(2) != "0":
            print(t.stdout[-800:])
        r = sh(["bash", d + "/demo.sh"], cwd=RW)
        res.append("demo patched: %d %s" % (r.returncode, r.stdout.strip()[-150:].replace("\n", " | ")))
        if "--tests-only" not in sys.argv:
            for pid in [meta["property"]] + ([p for p in os.environ.get("ALSO", "").split(",") if p]):
                c = sh(["python3", V + "/tools/run.py", pid], cwd=V, env=dict(os.environ, VP_REPO=RW))
                res.append("check %s: %d %s" % (pid, c.returncode, c.stdout.strip().split("\n")[0][:200]))
        print(bid, "|", " | ".join(res), flush=True)
    sh("git -C %s checkout -q -- ." % RW)


main()
