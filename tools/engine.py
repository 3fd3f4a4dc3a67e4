"""Runs a property in a harness binary (harness/core/src/engine.rs)."""
import json
import resource
import subprocess
import tempfile

from common import *


def confirm(cmd, env=None):
    """Runs a replay in a fresh process. Returns (broken, message)."""
    def limit():
        resource.setrlimit(resource.RLIMIT_CPU, (120, 125))
    with tempfile.NamedTemporaryFile("w", suffix=".case", dir=scratch()) as t:
        if len(cmd[-1]) > 50000:
            # too long for an argument
            t.write(cmd[-1])
            t.flush()
            cmd = [*cmd[:-1], "@" + t.name]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=env, preexec_fn=limit)
    out = p.stdout
    if p.returncode == 0:
        return False, "holds"
    if p.returncode == 1:
        for l in out.splitlines():
            if l.startswith("MESSAGE "):
                return True, l[8:]
        return True, out[-500:]
    if p.returncode == 70:
        return True, "the process is killed by a fatal signal inside the call: " + tail(p.stderr, 600)
    if p.returncode in (-24, -9):
        return True, "the call does not end within 120 s of CPU time"
    raise CheckError("replay ended with %d: %s %s" % (p.returncode, out[-1000:], p.stderr[-1000:]))


def run_engine(pid, binary, thorough, seed, extra=(), env=None, again=False):
    """Returns (summary, violation message or None, case line or None)."""
    with tempfile.NamedTemporaryFile(suffix=".json", dir=scratch()) as t:
        cmd = [binary, pid, "--out", t.name, *cmd_args(seed, thorough, extra)]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=env)
        summary = None
        try:
            summary = json.load(open(t.name))
        except ValueError:
            pass
    line, history, said = None, None, ""
    for l in p.stdout.splitlines():
        if l.startswith("FAIL "):
            line = l[5:]
        if l.startswith("HISTORY "):
            history = l[8:].split("|")
        if l.startswith("MESSAGE "):
            said = l[8:]
        if l.startswith("CRASHCASE "):
            line = l.split(" ", 2)[2]
        if l.startswith("HANGCASE "):
            line = l[9:]
    if p.returncode == 0 and summary:
        return summary, None, None
    if p.returncode in (1, 70, 71) and line:
        broken, msg = confirm([binary, pid, "--replay", line], env)
        if broken:
            return summary, msg, line
        if history:
            # what came before may matter
            line = needed(lambda h: confirm([binary, pid, "--replay", "|".join(h)], env)[0], history)
            if line:
                msg = confirm([binary, pid, "--replay", line], env)[1]
                return summary, "%s (after %d other cases in the same process)" % (msg, line.count("|")), line
        if not again:
            s, msg, line = run_engine(pid, binary, thorough, seed, extra, env, True)
            if msg:
                return s, msg, line
        elif said:
            # twice seen, but only after more calls than are kept
            return summary, said + " (only in a run of many calls)", RUN + " ".join(cmd_args(seed, thorough, extra))
    raise CheckError("%s ended with %d: %s %s" % (" ".join(cmd), p.returncode, p.stdout[-2000:], p.stderr[-2000:]))


# A "case" that is a whole run.
RUN = "run "


def cmd_args(seed, thorough, extra):
    return ["--seed", str(seed), *extra] + (["--thorough"] if thorough else [])


def confirm_case(binary, pid, line, env=None):
    if not line.startswith(RUN):
        return confirm([binary, pid, "--replay", line], env)
    p = subprocess.run([binary, pid, *line[len(RUN):].split()], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=env)
    said = [l[8:] for l in p.stdout.splitlines() if l.startswith("MESSAGE ")]
    return p.returncode in (1, 70, 71), said[-1] if said else "holds"


def needed(fails, history):
    """A short part of the history that still fails, or None."""
    if not fails(history):
        return None
    n = len(history) // 2
    while n:
        i = 0
        while i < len(history) - 1:
            k = history[:i] + history[min(i + n, len(history) - 1):]
            if len(k) < len(history) and fails(k):
                history = k
            else:
                i += n
        n //= 2
    return "|".join(history)


def merge(runs):
    if not runs:
        return {"evaluations": 0, "distinct_nontrivial": 0, "rule": "the run ended before its summary", "samples": []}
    cov = dict(runs[0][1])
    if len(runs) > 1:
        cov["evaluations"] = sum(s["evaluations"] for _, s in runs)
        cov["runs"] = {p: {k: s[k] for k in ("evaluations", "whole_domain_evaluations", "labels")} for p, s in runs}
    return cov
