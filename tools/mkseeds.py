#!/usr/bin/env python3
"""Development aid: writes /verif/seeded/<id>/ from tools/seeds/*.py (each calls seed(...))."""
import glob, json, os, subprocess as sp, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SR = "/tmp/sr"
INC = "include/boost/astronomy/"
DEMO = """#!/bin/bash
# exit 0: the property holds on the sample below; nonzero: it is broken
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
g++ -std=c++14 -w -include cstdint -I "$PWD/include" "$D/demo.cpp" -o "$T/demo" %s || exit 3
cd "$T" && timeout 60 ./demo
"""


def git(*a):
    return sp.run(["git", "-C", SR] + list(a), capture_output=True, text=True, check=True).stdout


def seed(id, prop, edits, demo, needs, breaks, libs="", demo_sh=None, extra=None):
    if want and id not in want:
        return
    git("checkout", "-q", "--", ".")
    for f, old, new, *n in edits:
        p = os.path.join(SR, INC, f)
        s = open(p).read()
        k = n[0] if n else None
        c = s.count(old)
        if k is None:
            assert c == 1, (id, f, "occurrences", c)
            s = s.replace(old, new)
        else:
            assert c > k, (id, f, c)
            i = -1
            for _ in range(k + 1):
                i = s.index(old, i + 1)
            s = s[:i] + new + s[i + len(old):]
        open(p, "w").write(s)
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(git("diff"))
    open(d + "/demo.sh", "w").write(demo_sh or DEMO % libs)
    if demo:
        open(d + "/demo.cpp", "w").write(demo.lstrip())
    for n, t in (extra or {}).items():
        open(os.path.join(d, n), "w").write(t)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    git("checkout", "-q", "--", ".")
    print("wrote", id)


want = sys.argv[1:]
if not os.path.isdir(SR + "/.git"):
    sp.run("rm -rf /tmp/sr && git clone -q /repo /tmp/sr", shell=True, check=True)
git("fetch", "-q", "origin")
git("reset", "-q", "--hard", sp.run(["git", "-C", "/repo", "rev-parse", "HEAD"], capture_output=True, text=True).stdout.strip())
for f in sorted(glob.glob(os.path.join(V, "tools", "seeds", "*.py"))):
    exec(open(f).read())
