"""C22: the same generated calls in builds of every kind of configuration."""
import concurrent.futures
import os
import random
import subprocess

import literals
from common import *

CRATE = os.path.join(HARNESS, "cfg")
# The first one is the reference: it has every type and codec.
REFERENCE = ("release", ["std", "i16", "i32", "i64", "i128", "serde", "schemars", "parity", "quick-xml"])
# Every combination of any three options, present or not, is in one of these (a Plackett-Burman design; its last row, with nothing
# enabled, is replaced by builds with one layout each).
CONFIGS = [REFERENCE] + [(p, f.split()) for p, f in [
    ("release", "std i16 i32 i64 i128 serde"),
    ("quickdev", "i16 i32 serde parity"),
    ("quickdev", "i64 i128 serde schemars"),
    ("release", "i16 i32 i128 schemars quick-xml"),
    ("quickdev", "std i32 serde schemars quick-xml"),
    ("release", "std i128 serde parity quick-xml"),
    ("release", "std i32 i64 schemars parity"),
    ("release", "i16 i64 serde schemars parity quick-xml"),
    ("quickdev", "std i16 i64 quick-xml"),
    ("quickdev", "std i16 i128 schemars parity"),
    ("quickdev", "i32 i64 i128 parity quick-xml"),
    ("release", "i16"),
    ("release", "i32"),
    ("release", "i64"),
    ("release", "i128"),
]]
OPTIONS = REFERENCE[1]
# The mirror images of the design, so that most combinations of four options are there too; and builds without optimization.
MORE = [("release" if p == "quickdev" else "quickdev", [o for o in OPTIONS if o not in f]) for p, f in CONFIGS[2:12]] + [("quickdev", OPTIONS)] + [
    ("dev", ["std", "i16", "i32", "i64", "i128"]),
    ("dev", ["i64"]),
    ("dev", ["i16", "i128", "serde", "parity"]),
    ("quickdev", ["i16"]),
    ("quickdev", ["i32"]),
    ("quickdev", ["i64"]),
    ("quickdev", ["i128"]),
]
RULE = ("every call of every type present in a configuration (layout feature sets, std or not, release or debug with overflow checks, other features) "
        "gives the same result, error kind or panic as in the release build with everything, and so do compile-time literals with and without std, i128 and the other layouts; non-trivial = the call returns a value")


def name(c):
    return "%s: %s" % (c[0], " ".join(c[1]))


def make(c):
    """Builds a configuration; returns (binary, None) or (None, error)."""
    target = os.path.join(TARGET, "cfg", c[0] + "-" + "-".join(c[1]))
    env = cargo_env()
    env["CARGO_TARGET_DIR"] = target
    env["CARGO_BUILD_JOBS"] = "3"
    p = subprocess.run(["cargo", TOOLCHAIN, "build", "--offline", "--profile", c[0], "--features", " ".join(c[1])], cwd=CRATE, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        return None, p.stdout[-3000:]
    return os.path.join(target, {"dev": "debug"}.get(c[0], c[0]), "cfg"), None


def make_all(configs):
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        return list(ex.map(make, configs))


def output(binary, *args):
    """The lines and whether the process was killed."""
    p = subprocess.run([binary, *map(str, args)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    if p.returncode not in (0, 70) and p.returncode > 0:
        raise CheckError("%s %s ended with %d: %s" % (binary, args, p.returncode, p.stderr[-2000:]))
    return p.stdout.splitlines(), p.returncode != 0


def cases_of(binary, *args):
    """[(case, shown, result)]; the last result may be that the process is killed."""
    lines, _ = output(binary, *args)
    res = []
    for i in range(0, len(lines), 2):
        case, shown, _ = lines[i].split("\t")
        r = lines[i + 1] if i + 1 < len(lines) else "the process is killed"
        res.append((case, shown, "panic" if r == "[-77, -77, -77]" else r))
    return res


def one(binary, ty, case):
    """(shown, result) of a case."""
    return cases_of(binary, "one", ty, case)[-1][1:]


def parse(case):
    w = case.split(" ")
    nv = int(w[2])
    return w[:2], [int(x) for x in w[4:4 + nv]], [bytes.fromhex(x[1:]) for x in w[4 + nv:]]


def unparse(h, v, s):
    return " ".join(h + [str(len(v)), str(len(s))] + [str(x) for x in v] + ["x" + x.hex() for x in s])


def shrink(a, b, ty, case):
    differs = lambda c: one(a, ty, c)[1] != one(b, ty, c)[1]
    for _ in range(200):
        h, v, s = parse(case)
        cand = []
        for i, x in enumerate(v):
            for y in sorted({0, 1, -1, x // 10, x // 2, -(-x // 2), x - 1, x + 1, -x}, key=abs):
                if (abs(y), y < 0) < (abs(x), x < 0) and -(1 << 127) <= y < 1 << 127:
                    cand.append(unparse(h, v[:i] + [y] + v[i + 1:], s))
        for i, t in enumerate(s):
            for k in range(len(t)):
                cand.append(unparse(h, v, s[:i] + [t[:k] + t[k + 1:]] + s[i + 1:]))
        for c in cand:
            if differs(c):
                case = c
                break
        else:
            return case
    return case


def types(config):
    p = {"i16": (0, 1, 2, 3, 4), "i32": (0, 1, 4, 8, 9), "i64": (0, 1, 4, 9, 17, 18), "i128": (0, 1, 9, 18, 19, 28, 37, 38)}
    return ["%s/%d" % (l, n) for l in p if l in config[1] for n in p[l]] + ["int8", "int16", "int32", "int64", "int128"]


def message(ra, rb, ca, cb):
    return "%s gives %s in [%s], but %s in [%s] (0 = Ok, 1.. = errors)" % (ra[0], ra[1], name(ca), rb[1], name(cb))


def literal_outcomes(items, features):
    # a literal may be rejected when it is compiled or when it is reached
    return ["rejected" if g in ("error", "panic") else g for g in literals.Program(features).results(items)]


def differing_literals(thorough, seed, cov):
    """A failure record when a literal has different values with different layouts enabled."""
    r = random.Random(seed)
    for _ in range(8 if thorough else 1):
        items = []
        while len(items) < 1500:
            t = r.choice([t for t in literals.TYPES if t[0] < 128])
            text = literals.good(r, t, 18) if len(items) < 1300 else literals.bad(r, t)
            items.append((r.choice(literals.CONTEXTS), t, text))
        ref = None
        for features in literals.FEATURES:
            some = [i for i, it in enumerate(items) if "i%d" % it[1][0] in features]
            got = dict(zip(some, literal_outcomes([items[i] for i in some], features)))
            ref = ref or got
            cov["evaluations"] += len(some)
            cov["labels"]["literals"] = cov["labels"].get("literals", 0) + len(some)
            for i in some:
                if got[i] != ref[i]:
                    return {"kind": "literal", "item": [items[i][0], list(items[i][1]), items[i][2]], "a": literals.FEATURES[0], "b": features,
                            "message": "%s: %s in one build, %s in the other [features %s]" % (literals.show(items[i], literals.FEATURES[0]), ref[i], got[i], ",".join(features))}
        cov["distinct_nontrivial"] += sum(x not in ("rejected", 0) for x in ref.values())
    return None


def run(thorough, seed):
    configs = CONFIGS + (MORE if thorough else [])
    built = make_all(configs)
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": RULE, "labels": {}, "samples": []}
    if built[0][0] is None:
        raise CheckError("build failed: " + built[0][1])
    fail = None
    for c, (b, err) in zip(configs, built):
        if b is None:
            fail = {"kind": "build", "config": c, "message": "does not build in [%s], but does in [%s]: %s" % (name(c), name(configs[0]), tail(err, 1500))}
    chunks, cases = (64, 100_000) if thorough else (16, 20_000)
    if not fail:
        digests = []
        for c, (b, _) in zip(configs, built):
            o, killed = output(b, "digest", seed, chunks, cases)
            d = {}
            if killed:
                # every chunk is looked at
                d = {(n, k): None for n in types(c) for k in range(chunks)}
            for l in o:
                ty, chunk, h, ok, panics = l.split()
                d[ty, int(chunk)] = h
                cov["evaluations"] += cases
                cov["distinct_nontrivial"] += int(ok) if c is configs[0] else 0
                cov["labels"]["panics in [%s]" % name(c)] = cov["labels"].get("panics in [%s]" % name(c), 0) + int(panics)
            digests.append(d)
        for c, (b, _), d in zip(configs, built, digests):
            if c is configs[0]:
                continue
            for k in sorted(d):
                if fail or d[k] is not None and d[k] == digests[0].get(k):
                    continue
                x = cases_of(built[0][0], "dump", seed, cases, k[0], k[1])
                y = cases_of(b, "dump", seed, cases, k[0], k[1])
                for l, m in zip(x, y):
                    if l != m:
                        if l[0] != m[0]:
                            raise CheckError("the configurations generate different cases: %s %s" % (l, m))
                        case = shrink(built[0][0], b, k[0], l[0])
                        fail = {"kind": "config", "a": configs[0], "b": c, "type": k[0], "case": case,
                                "message": message(one(built[0][0], k[0], case), one(b, k[0], case), configs[0], c)}
                        break
                else:
                    if d[k] is not None and digests[0].get(k) is not None:
                        raise CheckError("digests differ, dumps do not: %s in %s" % (k, name(c)))
        if not fail and None in [h for d in digests for h in d.values()]:
            raise CheckError("killed in every configuration")
        some = []
        for ty in sorted({k[0] for k in digests[0]}):
            some += cases_of(built[0][0], "dump", seed, 1, ty, 0)
        cov["samples"] = [" -> ".join(l[1:]) for l in some][:24]
        fail = fail or differing_literals(thorough, seed, cov)
    assumptions = ["rustc 1.90.0 is right", "debug builds are represented by opt-level 1 (thorough: also 0) with debug assertions and overflow checks"]
    evidence("C22", thorough, seed, cov, violations=1 if fail else 0, assumptions=assumptions)
    if fail:
        violation("C22", fail)


def replay(rec):
    if rec["kind"] == "literal":
        k, t, s = rec["item"]
        a, b = ([literal_outcomes([(k, tuple(t), s)], f)[0] for f in (rec["a"], rec["b"])])
        return a != b, "%s: %s in [%s], %s in [%s]" % (s, a, ",".join(rec["a"]), b, ",".join(rec["b"]))
    if rec["kind"] == "build":
        b, err = make(tuple(rec["config"]))
        return (b is None), err or "builds"
    a, b = tuple(rec["a"]), tuple(rec["b"])
    (x, e1), (y, e2) = make_all([a, b])
    if x is None or y is None:
        raise CheckError("build failed: %s %s" % (e1, e2))
    ra, rb = one(x, rec["type"], rec["case"]), one(y, rec["type"], rec["case"])
    return ra[1] != rb[1], message(ra, rb, a, b)
