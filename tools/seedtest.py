#!/usr/bin/env python3
"""Development aid: confirms planted bugs in a scratch copy (/tmp/sr) and runs the property's check on it.
usage: seedtest.py [--nobuild] id..."""
import json, os, subprocess as sp, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SR = "/tmp/sr"


def sh(c, cwd=None, env=None, t=1800):
    return sp.run(c, shell=True, cwd=cwd, env=env, stdout=sp.PIPE, stderr=sp.STDOUT, text=True, timeout=t)


def prep():
    if not os.path.isdir(SR + "/.git"):
        sh("rm -rf /tmp/sr && git clone -q /repo /tmp/sr")
    sh("git fetch -q origin && git reset -q --hard $(git -C /repo rev-parse HEAD) && git checkout -q -- .", SR)
    for f in ("build.sh", "test.sh"):
        s = open("/opt/vp/" + f).read().replace("/repo", SR).replace("/opt/vp/build.sh", "/tmp/sr_build.sh")
        open("/tmp/sr_" + f, "w").write(s)


def main():
    a = sys.argv[1:]
    nobuild = "--nobuild" in a
    nocheck = "--nocheck" in a
    ids = [x for x in a if not x.startswith("--")] or sorted(os.listdir(V + "/seeded"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    names = None
    for k in ("stable", "passed", "tests", "pass"):
        if isinstance(base, dict) and k in base:
            names = base[k]
            break
    for i in ids:
        prep()
        d = os.path.join(V, "seeded", i)
        pid = json.load(open(d + "/meta.json"))["property"]
        msg = []
        sh("rm -rf /tmp/sd && cp -r %s /tmp/sd && rm -f /tmp/sd/*.diff /tmp/sd/meta.json" % d)
        r = sh("bash /tmp/sd/demo.sh", SR)
        if r.returncode:
            msg.append("DEMO FAILS ON CLEAN rc=%d %s" % (r.returncode, r.stdout[-600:]))
        r = sh("git apply %s/patch.diff" % d, SR)
        if r.returncode:
            print(i, "PATCH", r.stdout)
            continue
        r = sh("bash /tmp/sd/demo.sh", SR)
        if not r.returncode:
            msg.append("DEMO PASSES WITH BUG")
        if not nobuild:
            sh("bash /tmp/sr_test.sh /tmp/sr_out.json")
            try:
                o = json.load(open("/tmp/sr_out.json"))
                passed = set(o.get("passed", o.get("pass", [])))
                lost = [n for n in names if n not in passed]
                if lost:
                    msg.append("TESTS LOST %d %s" % (len(lost), lost[:3]))
            except Exception as e:
                msg.append("TESTS? %r" % e)
        if not nocheck:
            t = time.time()
            r = sh("python3 checks/%s.py" % pid, V, dict(os.environ, VERIF_REPO=SR))
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=%s" % pid)]
            msg.append("check rc=%d %s viol=%d %.0fs" % (r.returncode, "CAUGHT" if r.returncode == 1 and v else "MISSED", len(v), time.time() - t))
            if not (r.returncode == 1 and v):
                msg.append(r.stdout[-400:])
        print(i, pid, " | ".join(msg), flush=True)
    sh("git checkout -q -- .", SR)


main()
