#!/usr/bin/env python3
"""Development aid, not used by any check: tries a planted change in a scratch copy of /repo.

plant.py DIR...   for each /verif/seeded directory: applies, builds, runs the stable tests and the demonstration.
"""
import json
import os
import subprocess
import sys

S = "/tmp/plant"
ENV = dict(os.environ)


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


def main():
    if not os.path.isdir(S):
        os.makedirs(S)
        sh("cp -a /repo %s/repo" % S, "/")
    for n in ("env.sh", "test.sh", "build.sh"):
        t = open("/opt/vp/" + n).read().replace("/repo", S + "/repo").replace("/opt/vp/env.sh", S + "/env.sh")
        open(S + "/" + n, "w").write(t)
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for d in sys.argv[1:]:
        d = os.path.abspath(d)
        sh("git checkout -q -- . && git fetch -q /repo main && git reset -q --hard FETCH_HEAD", S + "/repo")
        demo = lambda: sh("bash %s/demo.sh" % d, S + "/repo", env=ENV, timeout=600)
        before = demo()
        a = sh("git apply %s/patch.diff" % d, S + "/repo")
        b = sh("bash %s/build.sh" % S, "/")
        sh("bash %s/test.sh %s/out.json" % (S, S), "/")
        out = json.load(open(S + "/out.json"))
        missing = sorted(stable - set(out["passed"]))
        after = demo()
        ok = before.returncode == 0 and a.returncode == 0 and b.returncode == 0 and not missing and after.returncode != 0
        print(os.path.basename(d), "KEEP" if ok else "NO", "apply=%d build=%d demo %d -> %d" % (a.returncode, b.returncode, before.returncode, after.returncode), "tests failing: %s" % missing[:6] if missing else "", flush=True)
        if not ok:
            for w, p in (("apply", a), ("build", b), ("demo before", before)):
                if p.returncode:
                    print(w, p.stdout[-1500:])
        print("   ", after.stdout.strip()[-300:].replace("\n", " | "))
        sh("git checkout -q -- .", S + "/repo")


main()
