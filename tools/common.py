"""Shared by the checks: building against /repo, evidence, replay files."""
import hashlib
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
HARNESS = os.path.join(HERE, "harness")
TARGET = os.path.join(HERE, "target")
TOOLCHAIN = "+1.90.0"
START = time.time()


class CheckError(Exception):
    pass


def tail(s, n):
    return s[-n:].replace("\n", " | ")


def scratch():
    d = os.path.join(TARGET, "scratch")
    os.makedirs(d, exist_ok=True)
    return d


def cargo_env():
    e = dict(os.environ)
    e["CARGO_TARGET_DIR"] = TARGET
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTFLAGS", None)
    return e


# Builds of the `fx` crate beside the one with everything: name -> features.
VARIANTS = {
    "nostd": ["i16", "i32", "i64", "i128"],
    "small": ["i16", "i32", "i64"],
}


def build(crate, profile, variant=None, workdir=HARNESS, toolchain=TOOLCHAIN):
    cmd = ["cargo", toolchain, "build", "--offline", "--profile", profile, "-p", crate]
    env = cargo_env()
    if variant:
        cmd += ["--no-default-features", "--features", ",".join(VARIANTS[variant])]
        env["CARGO_TARGET_DIR"] = os.path.join(TARGET, variant)
    p = subprocess.run(cmd, cwd=workdir, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        raise CheckError("build failed: " + p.stdout[-3000:])
    return os.path.join(env["CARGO_TARGET_DIR"], profile, crate)


ASSUMPTIONS = [
    "the oracle's own 512-bit integer arithmetic (harness/core/src/wide.rs, self-tested) is right",
    "rustc 1.90.0 and the standard library are right",
]


def evidence(pid, thorough, seed, coverage, violations=0, assumptions=()):
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    e = {
        "property": pid,
        "tier": "thorough" if thorough else "quick",
        "seed": seed,
        "level": "exploration",
        "coverage": coverage,
        "assumptions": list(assumptions) or ASSUMPTIONS,
        "wall_s": round(time.time() - START, 2),
        "violations": violations,
    }
    with open(os.path.join(d, pid + ".json"), "w") as f:
        json.dump(e, f, indent=1, ensure_ascii=False)
        f.write("\n")


def violation(pid, record):
    """Writes the replay file, prints the VIOLATION line and ends the check."""
    d = os.path.join(HERE, "replay")
    os.makedirs(d, exist_ok=True)
    record = dict(record, property=pid)
    if os.environ.get("FX_DICT"):
        record["dictionary"] = os.environ["FX_DICT"]
    body = json.dumps(record, indent=1, ensure_ascii=False)
    path = os.path.join(d, "%s-%s.json" % (pid, hashlib.sha256(body.encode()).hexdigest()[:12]))
    record["reproduce"] = "cd %s && python3 check.py --replay %s" % (HERE, path)
    with open(path, "w") as f:
        json.dump(record, f, indent=1, ensure_ascii=False)
        f.write("\n")
    print(record["message"])
    print("VIOLATION property=%s replay=%s" % (pid, path))
    sys.stdout.flush()
    sys.exit(1)
