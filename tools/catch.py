#!/usr/bin/env python3
"""Development aid, not used by any check: runs checks against planted changes applied to /repo.

catch.py [--all] ID...   runs the property's quick check (--all: every check) with the change applied, then undoes it.
"""
import json
import os
import subprocess
import sys
import time

V = "/verif"


def main():
    args = sys.argv[1:]
    everything = "--all" in args
    ids = [a for a in args if not a.startswith("-")] or sorted(os.listdir(V + "/seeded"))
    checks = {c["property"]: c for c in json.load(open(V + "/MANIFEST.json"))["checks"]}
    for i in ids:
        d = V + "/seeded/" + i
        prop = json.load(open(d + "/meta.json"))["property"]
        subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"], check=True)
        try:
            for p in sorted(checks) if everything else [prop]:
                t = time.time()
                r = subprocess.run(checks[p]["quick_cmd"], shell=True, cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
                hit = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=%s " % p)]
                if not everything or r.returncode:
                    print(i, p, "CAUGHT" if r.returncode == 1 and hit else "MISSED rc=%d" % r.returncode, "%.0fs" % (time.time() - t), flush=True)
                    if r.returncode not in (0, 1):
                        print(r.stdout[-1500:])
        finally:
            subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)


main()
