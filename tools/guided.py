"""Coverage-guided search (libFuzzer) over the same properties: the fuzzer's bytes make every choice of the generator."""
import os
import random
import shutil
import subprocess

from common import *

TARGET_DIR = os.path.join(TARGET, "fuzz")
WORKERS = 8
# What `cargo fuzz build -s none` passes, without its single codegen unit.
FLAGS = " ".join([
    "-Cpasses=sancov-module",
    "-Cllvm-args=-sanitizer-coverage-level=4",
    "-Cllvm-args=-sanitizer-coverage-inline-8bit-counters",
    "-Cllvm-args=-sanitizer-coverage-pc-table",
    "-Cllvm-args=-sanitizer-coverage-trace-compares",
    "-Cllvm-args=-simplifycfg-branch-fold-threshold=0",
    "-Cllvm-args=-sanitizer-coverage-stack-depth",
    "--cfg fuzzing",
])


def guided_build():
    env = cargo_env()
    env["CARGO_TARGET_DIR"] = TARGET_DIR
    env["RUSTFLAGS"] = FLAGS
    d = os.path.join(HERE, "fuzz")
    cmd = ["cargo", "+nightly", "build", "--offline", "--release", "--target", "x86_64-unknown-linux-gnu"]
    p = subprocess.run(cmd, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        raise CheckError("build failed: " + p.stdout[-3000:])
    return os.path.join(TARGET_DIR, "x86_64-unknown-linux-gnu", "release", "one")


def guided(pid, seconds, seed):
    """Returns (what was covered, the line of a failing case or None)."""
    binary = guided_build()
    work = os.path.join(scratch(), "guided-%s-%d" % (pid, os.getpid()))
    corpus = os.path.join(work, "corpus")
    os.makedirs(corpus)
    try:
        r = random.Random(seed)
        for k in range(256):
            with open(os.path.join(corpus, "seed%d" % k), "wb") as f:
                f.write(r.randbytes(r.choice([16, 64, 128, 256])))
        env = dict(os.environ, FUZZ_PROPERTY=pid)
        ps = []
        for k in range(WORKERS):
            cmd = [binary, corpus, "-seed=%d" % (seed * WORKERS + k + 1), "-max_total_time=%d" % seconds, "-max_len=512", "-len_control=0",
                   "-print_final_stats=1", "-timeout=1000", "-rss_limit_mb=3000", "-artifact_prefix=" + work + "/", "-use_value_profile=%d" % (k % 2)]
            log = open(os.path.join(work, "log%d" % k), "w+", errors="replace")
            ps.append((subprocess.Popen(cmd, env=env, stdout=log, stderr=subprocess.STDOUT), log))
        line, runs, odd = None, 0, None
        for p, log in ps:
            rc = p.wait()
            log.seek(0)
            text = log.read()
            log.close()
            for l in text.splitlines():
                if l.startswith("FAIL "):
                    line = line or l[5:]
                elif l.startswith("CRASHCASE "):
                    line = line or l.split(" ", 2)[2]
                elif l.startswith("HANGCASE "):
                    line = line or l[9:]
                elif l.startswith("stat::number_of_executed_units:"):
                    runs += int(l.split()[1])
            if rc not in (0, 1, 70, 71):
                odd = "a fuzzer ended with %d: %s" % (rc, tail(text, 1000))
        if odd and not line:
            raise CheckError(odd)
        kept = len(os.listdir(corpus))
    finally:
        shutil.rmtree(work)
    return {"executions": runs, "seconds": seconds, "processes": WORKERS, "inputs_kept_for_new_coverage": kept - 256}, line
