"""C20: generated literals through fixnum_const! and fixnum!, compiled and run."""
import concurrent.futures
import json
import os
import random
import shutil
import subprocess

import dictionary
from common import *

TYPES = [(16, 0), (16, 1), (16, 2), (16, 4), (32, 0), (32, 1), (32, 4), (32, 9), (64, 0), (64, 1), (64, 9), (64, 17), (64, 18),
         (128, 0), (128, 9), (128, 18), (128, 19), (128, 28), (128, 38)]
FEATURES = [["std", "i16", "i32", "i64", "i128"], ["std", "i16", "i32", "i64"], ["i64"]]
CONTEXTS = ["const", "static", "nested", "value", "let", "wrapper"]
RULE = ("plain decimal literals (integers, decimals, 'N.', either sign, edges of 19 types, trailing and leading zeros) in six contexts compile "
        "to the value read by Python integers; literals with too many fraction digits, out of range (also by multiples of 2^bits) or not plain "
        "never give a constant; with and without the i128 layout; non-trivial = the literal is not zero")


def has(t, raw):
    return -(1 << (t[0] - 1)) <= raw < 1 << (t[0] - 1)


def value(text, t):
    """The raw value of a plain decimal, or None."""
    s = text[1:] if text[:1] == "-" else text
    a, dot, b = s.partition(".")
    if not a or not (a + b).isdigit() or not (a + b).isascii() or len(b) > t[1]:
        return None
    raw = int(a + b) * 10 ** (t[1] - len(b))
    raw = -raw if text[:1] == "-" else raw
    return raw if has(t, raw) else None


def spell(raw, t, frac):
    """The decimal with `frac` digits after the point (None: as short as possible)."""
    p = t[1]
    s = str(abs(raw)).rjust(p + 1, "0")
    a, b = s[:len(s) - p], s[len(s) - p:]
    short = b.rstrip("0")
    b = short if frac is None else b.ljust(frac, "0") if frac >= p else b[:max(frac, len(short))]
    return ("-" if raw < 0 else "") + a + ("." + b if b else "")


def raw_value(r, t):
    bits, p = t
    lim = 1 << (bits - 1)
    extra = dictionary.integers()
    if extra and r.random() < 0.15:
        x = r.choice(extra) * 10 ** r.choice([0, p]) * r.choice([1, -1])
        if -lim <= x < lim:
            return x
    k = r.randrange(8)
    if k == 0:
        x = r.choice([lim - 1, -lim, lim - 2, 1 - lim, 0, 1, -1])
    elif k == 1:
        x = r.choice([lim - 1, -lim]) // 10 ** p * 10 ** p + r.choice([0, 1, -1])
    elif k == 2:
        x = r.randrange(1, 1000) * 10 ** r.randrange(0, len(str(lim)))
    elif k == 3:
        x = 10 ** r.randrange(0, len(str(lim))) + r.choice([0, 0, 1, -1])
    elif k == 4:
        # many zeros inside
        x = r.randrange(1, 100) * 10 ** p + r.randrange(0, 100)
    else:
        x = r.getrandbits(r.randrange(1, bits))
    if r.random() < 0.45:
        x = -x
    return max(-lim, min(lim - 1, x))


def good(r, t, int_digits):
    x = raw_value(r, t)
    s = spell(x, t, r.choice([None, None, t[1], r.randrange(0, t[1] + 1)]))
    if s == "0" and r.random() < 0.3:
        s = "-0"
    if "." not in s and r.random() < 0.15:
        s += "."
    neg = s[:1] == "-"
    d = s.lstrip("-")
    if r.random() < 0.1 and len(d.split(".")[0]) + 2 <= int_digits:
        d = "0" * r.randrange(1, 3) + d
    return ("-" if neg else "") + d


def bad(r, t):
    bits, p = t
    lim = 1 << (bits - 1)
    # most literals that are not plain take the compiler long
    k = r.choice([0, 1, 3, 4, 5, 3, 4, 5, 6, 6, 6, 7])
    sign = r.choice(["", "-"])
    if k <= 2:
        # too many fraction digits
        n = p + r.choice([1, 1, 1, 2, 3, r.randrange(1, 25)])
        b = r.choice(["0" * n, "9" * n, "0" * (n - 1) + "1", "5" + "0" * (n - 1), "".join(r.choice("0123456789") for _ in range(n))])
        return sign + str(r.choice([0, 0, 1, 2, 9, 17])) + "." + b
    if k <= 5:
        # out of range
        x = r.choice([lim, -lim - 1, lim + r.getrandbits(bits - 2), -lim - 1 - r.getrandbits(bits - 2)])
        if p and r.random() < 0.3:
            # the next whole number
            x = (abs(x) // 10 ** p + 1) * 10 ** p * (1 if x > 0 else -1)
        return spell(x, t, r.choice([None, p]))
    if k == 6:
        # the low bits are those of a value in range
        x = raw_value(r, t) + (r.choice([1, -1, 2, 3, -2, 5]) << r.choice([bits, bits, 64, 128]))
        s = spell(x, t, None)
        return s if not has(t, x) else bad(r, t)
    n = str(r.randrange(0, 120))
    return r.choice([
        sign + n + "e" + str(r.randrange(0, 4)), sign + n + ".5e1", sign + n + "E1", n + "e-1", n + "i64", n + "i128", n + "u8", sign + n + "f64", n + ".0f32", n + "_f64",
        "0x" + n, "0b101", "0o17", sign + "1_" + n, n + ".0_1", sign + n + "_", '"' + n + '"', "'%s'" % n[0], "true", "false", 'b"%s"' % n, "b'%s'" % n[0], 'r"%s"' % n, '""',
        '"-%s.5"' % n, 'c"%s"' % n,
    ])


def line(i, kind, t, text):
    T = "FixedPoint<i%d, U%d>" % t
    p = t[1]
    f = {
        "const": "const X: {T} = fixnum_const!({s}, {p}); X",
        "static": "static X: {T} = fixnum_const!({s}, {p}); X",
        "nested": "const X: {T} = nested!({s}, {p}); X",
        "value": "fixnum_const!({s}, {p})",
        "let": "let x: {T} = fixnum!({s}, {p}); x",
        "wrapper": "let x: W<{T}> = fixnum!({s}, {p}); x.0",
    }[kind].format(T=T, s=text, p=p)
    return "fn f%d() -> %s { %s }" % (i, T, f)


HEAD = """#![allow(warnings)]
use fixnum::{FixedPoint, fixnum, fixnum_const, typenum::*};
struct W<T>(T);
impl<T> From<T> for W<T> { fn from(x: T) -> Self { W(x) } }
macro_rules! nested { ($x:literal, $p:literal) => { fixnum_const!($x, $p) }; }
fn show<T: std::fmt::Display>(i: u32, f: impl FnOnce() -> T + std::panic::UnwindSafe) {
    match std::panic::catch_unwind(f) { Ok(x) => println!("{} {}", i, x), Err(_) => println!("{} panic", i) }
}
""".strip("\n").split("\n")


class Program:
    """Compiles and runs sets of literals, each divided among the processors."""

    def __init__(self, features):
        self.features = features
        self.dir = os.path.join(scratch(), "literals-" + "-".join(features))
        os.makedirs(os.path.join(self.dir, "src"), exist_ok=True)
        with open(os.path.join(self.dir, "Cargo.toml"), "w") as f:
            f.write('[package]\nname = "literals"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[profile.dev]\ndebug = 0\nincremental = false\n'
                    '[dependencies]\nfixnum = { path = "%s", default-features = false, features = %s }\n' % (REPO, json.dumps(features)))
        with open(os.path.join(self.dir, "src", "lib.rs"), "w") as f:
            f.write("pub use fixnum::*;\n")
        shutil.copyfile(os.path.join(HARNESS, "Cargo.lock"), os.path.join(self.dir, "Cargo.lock"))
        env = cargo_env()
        target = env["CARGO_TARGET_DIR"] = os.path.join(TARGET, "literals")
        p = subprocess.run(["cargo", TOOLCHAIN, "build", "--offline", "--message-format=json"], cwd=self.dir, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
        if p.returncode != 0:
            raise CheckError("build failed: " + p.stderr[-3000:])
        self.rlib = None
        for l in p.stdout.splitlines():
            m = json.loads(l) if l.startswith("{") else {}
            if m.get("reason") == "compiler-artifact" and m["target"]["name"] == "fixnum":
                self.rlib = [f for f in m["filenames"] if f.endswith(".rlib")][0]
        self.deps = os.path.join(target, "debug", "deps")

    def compile(self, items, shard):
        """Returns the indices with errors; None when it compiled."""
        src = list(HEAD)
        at = {}
        for i, (kind, t, text) in items.items():
            src.append(line(i, kind, t, text))
            at[len(src)] = i
        src.append("fn main() {")
        src.append("std::panic::set_hook(Box::new(|_| ()));")
        for i in items:
            src.append("show(%d, || f%d().into_bits());" % (i, i))
        src.append("}")
        base = os.path.join(self.dir, "part%d" % shard)
        with open(base + ".rs", "w") as f:
            f.write("\n".join(src) + "\n")
        p = subprocess.run(["rustc", TOOLCHAIN, "--edition=2021", "--crate-name", "part%d" % shard, "--error-format=json", "--extern", "fixnum=" + self.rlib,
                            "-L", "dependency=" + self.deps, "-o", base, base + ".rs"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
        hit, other = set(), []
        for l in p.stderr.splitlines():
            m = json.loads(l) if l.startswith("{") else {}
            if not str(m.get("level")).startswith("error"):
                continue
            lines = set()
            todo = list(m["spans"]) + [s for c in m["children"] for s in c["spans"]]
            while todo:
                s = todo.pop()
                if s["file_name"] == base + ".rs":
                    lines.update(range(s["line_start"], s["line_end"] + 1))
                if s.get("expansion"):
                    todo.append(s["expansion"]["span"])
            found = {at[n] for n in lines if n in at}
            if found:
                hit |= found
            else:
                other.append(m["rendered"])
        if p.returncode == 0:
            return None
        if not hit:
            raise CheckError("the literals do not compile: " + (" ".join(other) or p.stderr)[-3000:])
        return hit

    def run(self, shard):
        p = subprocess.run([os.path.join(self.dir, "part%d" % shard)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if p.returncode != 0:
            raise CheckError("the literals do not run: %d %s" % (p.returncode, p.stderr[-2000:]))
        out = {}
        for l in p.stdout.splitlines():
            i, x = l.split()
            out[int(i)] = x if x == "panic" else int(x)
        return out

    def part(self, items, shard):
        left = dict(items)
        res = {}
        for _ in range(60):
            if not left:
                return res
            hit = self.compile(left, shard)
            if hit is None:
                res.update(self.run(shard))
                return res
            for i in hit:
                res[i] = "error"
                del left[i]
        raise CheckError("compilation does not settle")

    def results(self, items):
        """For every item 'error', 'panic' or the raw value."""
        n = min(8, 1 + len(items) // 8)
        with concurrent.futures.ThreadPoolExecutor(n) as ex:
            parts = list(ex.map(lambda k: self.part({i: it for i, it in enumerate(items) if i % n == k}, k), range(n)))
        return [parts[i % n][i] for i in range(len(items))]


def judge(item, got):
    """A message when the outcome is wrong."""
    kind, t, text = item
    want = value(text, t)
    if want is not None:
        return None if got == want else "got %s, expected raw %d" % (got, want)
    if got == "error" or got == "panic" and kind in ("let", "wrapper", "value"):
        # outside of constants the range may be checked at run time
        return None
    return "got %s for a literal that is not a value of the type" % got


def show(item, features):
    kind, t, text = item
    return "%s: %s of FixedPoint<i%d, U%d> [features %s]" % (text, kind, t[0], t[1], ",".join(features))


def search(features, items, prog):
    got = prog.results(items)
    return [(it, judge(it, g)) for it, g in zip(items, got)]


def shrink(prog, features, item, msg):
    kind, t, text = item
    for _ in range(12):
        sign, d = ("-", text[1:]) if text[:1] == "-" else ("", text)
        c = set()
        for i in range(len(d)):
            c.add(sign + d[:i] + d[i + 1:])
            if d[i] in "23456789":
                c.add(sign + d[:i] + "1" + d[i + 1:])
            if d[i] in "123456789":
                c.add(sign + d[:i] + "0" + d[i + 1:])
        c.add(d)
        ok = lambda s: s and s[-1:] != "-" and s[0] != "." and all(ch in "0123456789.-" for ch in s) and s.count(".") < 2 and s.lstrip("-")[:1].isdigit()
        c = [x for x in c if ok(x) and (len(x), x.count("0") * -1, x) < (len(text), text.count("0") * -1, text)]
        if not c or not ok(text):
            break
        bads = [(it, m) for it, m in search(features, [(kind, t, x) for x in c], prog) if m]
        if not bads:
            break
        item, msg = min(bads, key=lambda b: (len(b[0][2]), -b[0][2].count("0"), b[0][2]))
        text = item[2]
    return item, msg


def run(thorough, seed):
    r = random.Random(seed)
    labels, samples = {}, []
    evaluations = nontrivial = 0
    seen = set()
    failure = None
    for batch in range(12 if thorough else 1):
        for features in FEATURES:
            prog = Program(features)
            types = [t for t in TYPES if "i%d" % t[0] in features]
            int_digits = 38 if "i128" in features else 18
            for part, n in (("good", 4000), ("bad", 900)):
                items = []
                if part == "good":
                    for t in types:
                        lim = 1 << (t[0] - 1)
                        for k in CONTEXTS:
                            items += [(k, t, spell(x, t, None)) for x in (lim - 1, -lim, 0, 1, -1)]
                while len(items) < n:
                    t = r.choice(types)
                    text = good(r, t, int_digits) if part == "good" else bad(r, t)
                    if (value(text, t) is None) == (part == "good"):
                        # e.g. a longer fraction that is fine for the type
                        if part == "good":
                            raise CheckError("harness: bad literal %s for %s" % (text, t))
                        continue
                    items.append((r.choice(CONTEXTS), t, text))
                for it, m in search(features, items, prog):
                    evaluations += 1
                    key = (it, tuple(features))
                    if key not in seen:
                        seen.add(key)
                        nontrivial += any(c in "123456789" for c in it[2])
                    labels[part + " " + it[0]] = labels.get(part + " " + it[0], 0) + 1
                    if m and not failure:
                        failure = (prog, features, it, m)
                samples += [show(x, features) for x in r.sample(items, 4)]
                if failure:
                    break
            if failure:
                break
        if failure:
            break
    cov = {"evaluations": evaluations, "distinct_nontrivial": nontrivial, "rule": RULE, "labels": labels, "samples": samples[:24]}
    assumptions = ["rustc 1.90.0 reports an error at the line of every constant that fails to compile", "Python's integers are right"]
    if failure:
        prog, features, it, m = failure
        it, m = shrink(prog, features, it, m)
        evidence("C20", thorough, seed, cov, violations=1, assumptions=assumptions)
        violation("C20", {"kind": "literal", "features": features, "item": [it[0], list(it[1]), it[2]], "message": show(it, features) + ": " + m})
    evidence("C20", thorough, seed, cov, assumptions=assumptions)


def replay(rec):
    k, t, s = rec["item"]
    it = (k, tuple(t), s)
    m = judge(it, Program(rec["features"]).results([it])[0])
    return (True, show(it, rec["features"]) + ": " + m) if m else (False, "holds")


def prepare():
    for f in FEATURES:
        Program(f)
