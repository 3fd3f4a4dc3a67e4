#!/usr/bin/env python3
"""Runs one property's check: check.py <ID> [--thorough]; check.py --replay FILE.

Exit 0: held. Exit 1 with a VIOLATION line: broken. Anything else: the check itself failed.
VERIF_SEED seeds every random choice; VERIF_TIER=thorough (or --thorough) selects the deep run.
"""
import concurrent.futures
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
from common import *  # noqa
from engine import confirm, confirm_case, merge, run_engine  # noqa
from guided import guided  # noqa
import configs  # noqa
import dictionary  # noqa
import literals  # noqa
import mixing  # noqa
import platforms  # noqa
import ub  # noqa

ENGINE = {}
for k in ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C24", "C25", "C27", "C28", "C29"]:
    ENGINE[k] = "fx"
for k in ["C17", "C19", "C26"]:
    ENGINE[k] = "codec"
ENGINE["C18"] = "withs"
ENGINE["C21"] = "wrap"
CUSTOM = {"C20": literals, "C22": configs, "C23": ub, "C30": mixing, "C31": platforms}


def engine_check(pid, thorough, seed):
    crate = ENGINE[pid]
    runs = []
    variants = [None, *VARIANTS] if crate == "fx" else [None]
    plan = [("checked", v, ["--scale", "0.4"] if v else []) for v in variants]
    if thorough:
        plan += [("release", v, ["--scale", "0.4"] if v else ["--sweep"]) for v in variants]
    else:
        # what only an ordinary build does, without assertions and overflow checks
        plan += [("release", None, ["--scale", "0.4"])]
    with concurrent.futures.ThreadPoolExecutor(4) as pool:
        builds = [pool.submit(build, crate, prof, variant) for prof, variant, _ in plan]
    for (prof, variant, extra), made in zip(plan, builds):
        binary = made.result()
        s, msg, line = run_engine(pid, binary, thorough, seed if prof == "checked" else seed ^ 0x5EED, extra)
        if s:
            runs.append((" ".join([prof, variant or "everything"]), s))
        if msg:
            evidence(pid, thorough, seed, merge(runs), violations=1)
            violation(pid, {"kind": "engine", "crate": crate, "profile": prof, "variant": variant, "case": line, "message": msg})
    cov = merge(runs)
    if thorough:
        cov["guided"], line = guided(pid, int(os.environ.get("GUIDED_SECONDS", "240")), seed)
        if line:
            # the failing case is decided again, outside the fuzzer
            binary = build(crate, "checked")
            broken, msg = confirm([binary, pid, "--replay", line])
            if not broken:
                raise CheckError("the fuzzer's failure is not confirmed: " + line)
            evidence(pid, thorough, seed, cov, violations=1)
            violation(pid, {"kind": "engine", "crate": crate, "profile": "checked", "variant": None, "case": line, "message": msg})
    evidence(pid, thorough, seed, cov)


def replay(path):
    r = json.load(open(path))
    pid = r["property"]
    os.environ["FX_DICT"] = r.get("dictionary", "")
    if r["kind"] == "engine":
        binary = build(r["crate"], r["profile"], r["variant"])
        broken, msg = confirm_case(binary, pid, r["case"])
    else:
        broken, msg = CUSTOM[pid].replay(r)
    print(msg)
    sys.exit(1 if broken else 0)


def main():
    a = sys.argv[1:]
    if a[:1] == ["--replay"]:
        replay(a[1])
    pid = a[0]
    os.environ["FX_DICT"] = dictionary.load(os.path.join(REPO, "src"))
    thorough = "--thorough" in a or os.environ.get("VERIF_TIER") == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    if pid in ENGINE:
        engine_check(pid, thorough, seed)
    else:
        CUSTOM[pid].run(thorough, seed)
    print("OK %s" % pid)


if __name__ == "__main__":
    try:
        main()
    except CheckError as e:
        print("CHECK ERROR: %s" % e)
        sys.exit(3)
