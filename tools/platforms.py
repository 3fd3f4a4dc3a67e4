"""C31: the same generated calls on this machine, on 32-bit x86, and interpreted for big-endian machines."""
import concurrent.futures
import os
import subprocess

from common import *

CRATE = os.path.join(HARNESS, "plat")
RULE = ("a call (arithmetic, conversion, parsing, printing, JSON, SCALE or bincode) on the other platform returns the value, text, bytes, error kind or panic "
        "that it returns here; non-trivial = it returns more than an error")


class Native:
    name = "x86-64"

    def __init__(self):
        self.binary = build("plat", "checked")

    def tool(self, *args, input=None):
        """The output of a call that is allowed to be killed."""
        p = subprocess.run([self.binary, *map(str, args)], input=input, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode not in (0, 70) and p.returncode > 0:
            raise CheckError("%s %s ended with %d: %s" % (self.binary, args, p.returncode, p.stderr[-1000:]))
        return p.stdout.decode(errors="replace").splitlines()

    def stream(self, packed):
        """A result per case; one less than cases when a call ends the process."""
        return [l for l in self.tool("stream", input=packed) if l != "DONE"]


class X86(Native):
    """Linked with the run-time libraries alone, see i686/link."""
    name = "i686"
    target = "i686-unknown-linux-gnu"

    def __init__(self):
        env = cargo_env()
        env["CARGO_TARGET_DIR"] = os.path.join(TARGET, "i686")
        env["CARGO_TARGET_I686_UNKNOWN_LINUX_GNU_LINKER"] = os.path.join(HERE, "tools", "i686", "link")
        env["RUSTFLAGS"] = "-Crelocation-model=static"
        made(subprocess.run(["cargo", "+nightly", "build", "--offline", "--profile", "checked", "-Zbuild-std", "--target", self.target, "-p", "plat"],
                            cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace"), self.name)
        self.binary = os.path.join(env["CARGO_TARGET_DIR"], self.target, "checked", "plat")


class Interpreted:
    """In Miri, which ends at undefined behaviour as well."""

    def __init__(self, arch):
        self.name = arch
        self.env = cargo_env()
        self.env.pop("CARGO_BUILD_JOBS", None)
        self.env["XDG_CACHE_HOME"] = os.path.join(TARGET, "cache")
        self.env["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-deterministic-floats"
        self.env["CARGO_TARGET_DIR"] = os.path.join(TARGET, "miri-" + arch)
        target = ["--target", arch + "-unknown-linux-gnu"]
        subprocess.run(["cargo", "+nightly", "miri", "setup", *target], cwd=CRATE, env=self.env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        self.cmd = ["cargo", "+nightly", "miri", "run", "--release", "-q", "--offline", *target, "--", "stream"]
        made(self.run(b""), self.name)

    def run(self, packed):
        try:
            return subprocess.run(self.cmd, cwd=CRATE, env=self.env, input=packed, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=20000)
        except subprocess.TimeoutExpired:
            raise CheckError("Miri takes too long")

    def stream(self, packed):
        p = self.run(packed)
        out = p.stdout.decode(errors="replace").splitlines()
        if out[-1:] == ["DONE"]:
            return out[:-1]
        err = p.stderr.decode(errors="replace")
        at = err.find("error: Undefined Behavior")
        if at < 0:
            raise CheckError("Miri ended with %d: %s" % (p.returncode, err[-2000:]))
        return out


class DoesNotBuild(Exception):
    pass


def made(p, name):
    if p.returncode == 0:
        return
    out = (p.stdout or "") if isinstance(p.stdout, str) else (p.stdout + p.stderr).decode(errors="replace")
    if "could not compile `fixnum`" in out:
        # it builds here, or `Native` would have failed
        raise DoesNotBuild("the library does not build for %s: %s" % (name, tail(out, 1500)))
    raise CheckError("build failed: " + out[-3000:])


KILLED = "the call ends the process"


def pack(host, lines):
    p = subprocess.run([host.binary, "pack"], input=("\n".join(lines) + "\n").encode(), stdout=subprocess.PIPE, check=True)
    return p.stdout


def differ(host, other, lines):
    """The first case with different results, as (case, result here, result there)."""
    packed = pack(host, lines)
    a, b = host.stream(packed), other.stream(packed)
    for k, line in enumerate(lines):
        x, y = (r[k] if k < len(r) else KILLED for r in (a, b))
        if x != y:
            return line, x, y
        if x == KILLED:
            return None
    return None


def shrink(host, other, found):
    for _ in range(40):
        cand = host.tool("shrinks", found[0])[:64]
        better = cand and differ(host, other, cand)
        if not better:
            break
        found = better
    return found


def readable(r):
    return {KILLED: r, "[-77, -77, -77]": "panic"}.get(r, r)


def record(host, other, found):
    case, x, y = found
    return {"kind": "platform", "platform": other.name, "case": case,
            "message": "%s: %s on %s, but %s on %s (0 = Ok, 1.. = errors)" % (host.tool("show", case)[0], readable(x), host.name, readable(y), other.name)}


def make(name):
    return X86() if name == "i686" else Interpreted(name)


def compiled(host, other, thorough, seed, cov):
    """Digests of many calls; the dumps of a chunk that differs."""
    chunks, cases = (128, 2_000_000) if thorough else (64, 150_000)

    def digest(p):
        return {int(l.split()[0]): l.split()[1:] for l in p.tool("digest", seed, chunks, cases)}

    here, there = digest(host), digest(other)
    for k in range(chunks):
        if k not in here:
            raise CheckError("killed on " + host.name)
        cov["evaluations"] += cases
        cov["distinct_nontrivial"] += int(here[k][1])
        if here[k] != there.get(k):
            x, y = host.tool("dump", seed, k, cases), other.tool("dump", seed, k, cases)
            for i in range(0, len(x), 2):
                if i >= len(y) or x[i] != y[i]:
                    break
                r = y[i + 1] if i + 1 < len(y) else KILLED
                if r != x[i + 1]:
                    return shrink(host, other, (x[i], x[i + 1], r))
            if k in there:
                raise CheckError("the digests differ, the dumps do not: chunk %d on %s" % (k, other.name))
    cov["labels"][other.name] = chunks * cases
    return None


def interpreted(host, other, procs, n, seed, cov):
    jobs = [host.tool("emit", seed * 1000 + k, n) for k in range(procs)]
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for found in ex.map(lambda lines: differ(host, other, lines), jobs):
            if found:
                return shrink(host, other, found)
    cov["evaluations"] += n * procs
    cov["labels"][other.name + " in Miri"] = n * procs
    return None


def run(thorough, seed):
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": RULE, "labels": {}, "samples": []}
    host = Native()
    some = host.tool("dump", seed, 0, 24)
    cov["samples"] = [host.tool("show", c)[0] + " -> " + r for c, r in zip(some[::2], some[1::2])]
    fail = None
    for name, n in [("i686", 0), ("s390x", 12000 if thorough else 500), ("powerpc", 6000 if thorough else 0)]:
        if fail or name == "powerpc" and not n:
            continue
        try:
            other = make(name)
        except DoesNotBuild as e:
            fail = {"kind": "platform", "platform": name, "case": None, "message": str(e)}
            break
        found = interpreted(host, other, 8, n, seed, cov) if n else compiled(host, other, thorough, seed, cov)
        fail = found and record(host, other, found)
    evidence("C31", thorough, seed, cov, violations=1 if fail else 0,
             assumptions=["rustc's code for i686 and Miri's model of s390x (and powerpc, in a thorough run) stand for 32-bit and big-endian machines"])
    if fail:
        violation("C31", fail)


def replay(r):
    host = Native()
    try:
        other = make(r["platform"])
    except DoesNotBuild as e:
        return True, str(e)
    found = r["case"] and differ(host, other, [r["case"]])
    return bool(found), record(host, other, found)["message"] if found else "holds"
