"""C23: every check's calls under debug checks, AddressSanitizer and Miri."""
import concurrent.futures
import os
import subprocess

import configs
from common import *
from engine import confirm_case, merge, run_engine

# Without i128 some buffers are smaller.
SMALL = [("quickdev", ["i64"]), ("quickdev", ["i16"])]
ASAN = os.path.join(TARGET, "asan")
ASAN_ENV = {"ASAN_OPTIONS": "abort_on_error=1:handle_abort=0:handle_segv=0:allow_user_segv_handler=1:detect_leaks=0"}


def asan_build():
    env = cargo_env()
    env["CARGO_TARGET_DIR"] = ASAN
    env["RUSTFLAGS"] = "-Zsanitizer=address"
    p = subprocess.run(["cargo", "+nightly", "build", "--offline", "--profile", "checked", "-p", "ub", "--target", "x86_64-unknown-linux-gnu"],
                       cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        raise CheckError("build failed: " + p.stdout[-3000:])
    return os.path.join(ASAN, "x86_64-unknown-linux-gnu", "checked", "ub")


class Miri:
    """A crate in the interpreter, with a native build that makes its cases."""

    def __init__(self, native, crate, features):
        self.native, self.crate, self.features = native, crate, features
        self.env = cargo_env()
        self.env.pop("CARGO_BUILD_JOBS", None)
        self.env["XDG_CACHE_HOME"] = os.path.join(TARGET, "cache")
        self.env["MIRIFLAGS"] = "-Zmiri-disable-isolation"
        self.env["CARGO_TARGET_DIR"] = os.path.join(TARGET, "miri-" + crate + "-".join(features))
        self.cmd = ["cargo", "+nightly", "miri", "run", "--release", "-q", "--offline"]
        if features:
            self.cmd += ["--features", " ".join(features)]
        self.cwd = os.path.join(HARNESS, crate)

    def name(self):
        return "Miri, %s" % (" ".join(self.features) or "all features")

    def tool(self, *args, input=None):
        p = subprocess.run([self.native, *map(str, args)], input=input, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode != 0:
            raise CheckError("%s %s ended with %d: %s" % (self.native, args, p.returncode, p.stderr[-1000:]))
        return p.stdout

    def build(self):
        msg = self.run([])
        if msg is not None:
            raise CheckError("Miri: " + str(msg))

    def run(self, lines):
        """None, or (index of the case, what Miri says)."""
        packed = self.tool("pack", input=("\n".join(lines) + "\n").encode()) if lines else b""
        try:
            p = subprocess.run(self.cmd + ["--", "stream"], cwd=self.cwd, env=self.env, input=packed, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               timeout=10000)
        except subprocess.TimeoutExpired:
            raise CheckError("Miri takes too long")
        out, err = p.stdout.decode(errors="replace").splitlines(), p.stderr.decode(errors="replace")
        if p.returncode == 0 and out[-1:] == ["DONE"]:
            return None
        at = err.find("error: Undefined Behavior")
        if at < 0 or not out:
            raise CheckError("Miri ended with %d: %s" % (p.returncode, err[-3000:]))
        e = err[at:]
        site = [l.strip() for l in e.splitlines() if "-->" in l or " at /" in l][:6]
        return out.count(".") - 1, e.splitlines()[0] + " " + " ".join(site)

    def shrink(self, line, msg):
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for _ in range(12):
                cand = self.tool("shrinks", line).decode().splitlines()[:48]
                bad = [(c, r[1]) for c, r in zip(cand, ex.map(lambda c: self.run([c]), cand)) if r]
                if not bad:
                    break
                line, msg = bad[0]
        return line, msg


def miris():
    ub = Miri(build("ub", "checked"), "ub", [])
    res = [ub]
    for c in SMALL:
        native, err = configs.make(c)
        if native is None:
            raise CheckError("build failed: " + err)
        res.append(Miri(native, "cfg", c[1]))
    subprocess.run(["cargo", "+nightly", "miri", "setup"], cwd=HARNESS, env=ub.env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        list(ex.map(lambda m: m.build(), res))
    return res


def run(thorough, seed):
    runs = []
    cov = {}

    def done(v=0):
        c = merge(runs)
        c.update(cov)
        c["evaluations"] = c["evaluations"] + sum(cov.values()) if cov else c["evaluations"]
        evidence("C23", thorough, seed, c, violations=v, assumptions=["rustc 1.90.0, and the nightly's Miri and AddressSanitizer, are right",
                                                                        "Miri's aliasing model is stacked borrows"])

    for kind, binary, extra, env in [("checked", lambda: build("ub", "checked"), [], None),
                                     ("asan", asan_build, ["--scale", "0.25"], dict(os.environ, **ASAN_ENV))]:
        b = binary()
        s, msg, line = run_engine("C23", b, thorough, seed, extra, env)
        if s:
            runs.append((kind, s))
        if msg:
            done(1)
            violation("C23", {"kind": kind, "case": line, "message": msg})
    ms = miris()
    n = 20000 if thorough else 500
    jobs = []
    for m, procs in zip(ms, [6, 1, 1]):
        for k in range(procs):
            lines = m.tool("emit", seed * 1000 + k, n).decode().splitlines()
            jobs.append((m, lines))
            cov["cases under " + m.name()] = cov.get("cases under " + m.name(), 0) + n
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        results = list(ex.map(lambda j: j[0].run(j[1]), jobs))
    for (m, lines), r in zip(jobs, results):
        if r:
            line, msg = m.shrink(lines[r[0]], r[1])
            done(1)
            msg = "%s [%s]: %s" % (m.tool("show", line).decode(errors="replace").strip(), m.name(), msg)
            violation("C23", {"kind": "miri", "crate": m.crate, "features": m.features, "case": line, "message": msg})
    done()


def replay(r):
    if r["kind"] == "miri":
        for m in miris():
            if (m.crate, m.features) == (r["crate"], r["features"]):
                x = m.run([r["case"]])
                return x is not None, x[1] if x else "holds"
    b, env = (asan_build(), dict(os.environ, **ASAN_ENV)) if r["kind"] == "asan" else (build("ub", "checked"), None)
    return confirm_case(b, "C23", r["case"], env)
