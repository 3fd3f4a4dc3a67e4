"""C30: generated code that mixes types: what compiles is what the table below says, nothing else."""
import concurrent.futures
import json
import os
import random
import subprocess

import literals
from common import *

INTS = ["i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "i128", "u128", "isize", "usize"]
SIGNED = ["i8", "i16", "i32", "i64", "i128"]
PRECS = {"i16": 4, "i32": 9, "i64": 18, "i128": 38}
FEATURES = [["std", "i16", "i32", "i64", "i128"], ["i16", "i32", "i64"]]
RULE = ("generated functions over pairs of fixed-point types, integers and wrappers: each compiles if and only if the table allows it (operations only within one type, "
        "integers only of the layout, conversions only the documented ones, no operators, wrapper operations only as declared, declarations only for contents that go together); "
        "non-trivial = must not compile, or two types are involved")

# name, code, whether it may compile for a: FP(t), b: FP(u), k: an integer type
BOTH = ["a.cadd(b)", "a.csub(b)", "a.saturating_add(b)", "a.saturating_sub(b)", "a.rmul(b, M)", "a.saturating_rmul(b, M)", "a.rdiv(b, M)", "T::half_sum(a, b, M)", "a == b", "a != b",
        "a < b", "a >= b", "a.cmp(&b)", "a.partial_cmp(&b)", "std::cmp::max(a, b)", "a.round_towards_zero_by(b)", "[a, b]", "if a == a { a } else { b }", "{ let x: T = b; x }", "T::from(b)",
        "T::try_from(b)", "CheckedAdd::<U>::cadd(a, b)", "RoundingMul::<U>::rmul(a, b, M)", "RoundingDiv::<U>::rdiv(a, b, M)", "(a, b) == (b, a)", "{ let x: Option<T> = Some(b); x }",
        "{ let mut v = vec![a]; v.push(b); v }", "vec![a].contains(&b)", "{ let r: Result<T, _> = b.cneg(); r }", "{ let x: T = U::MAX; x }", "T::from_bits(b.into_bits()).cadd(b)"]
NEVER = ["a + b", "a - b", "a * b", "a / b", "a % b", "-a", "!a", "a & b", "a << 1", "{ let mut x = a; x += b; x }", "{ let mut x = a; x *= b; x }", "a.cmul(b)", "a.saturating_mul(b)", "a as f64",
         "a as i64", "a as i128", "f32::from(a)", "i64::from(a)", "i128::from(a)", "String::from(a)", "vec![a].into_iter().sum::<T>()", "vec![a].into_iter().product::<T>()", "T::try_from(1.5f32)",
         "T::from(1.5f64)", "T::try_from(\"1\")", "T::try_from('1')", "T::try_from(true)", "T::from_bits(1.5)", "a == 1", "a == 0.5", "a < 1", "a.cadd(1)", "a.csub(1)", "a.rmul(1, M)", "a.rmul(0.5, M)",
         "a.rdiv(0.5, M)", "a.cmul(0.5)", "1.cadd(a)", "1.rmul(a, M)", "0.5.rmul(a, M)", "a.rdiv(b)", "a.rmul(b)", "a.rsqrt()", "a.integral()", "a.recip()", "a.0", "a.inner", "T { inner: a.into_bits() }",
         "a.cadd(Some(b))", "a.cadd(\"1\")", "bool::from(a)", "if a { 1 } else { 2 }", "vec![1, 2][a]"]
ALWAYS = ["a.cneg()", "a.abs()", "a.recip(M)", "a.rsqrt(M)", "a.floor()", "a.next_power_of_ten()", "f64::from(a)", "T::try_from(1.5f64)", "\"1\".parse::<T>()", "T::from_str_exact(\"1\")", "a.to_string()",
          "format!(\"{:?}\", a)", "(a, a.clone(), T::default(), T::ZERO, T::ONE, T::MIN, T::MAX, T::EPSILON)", "{ const X: T = T::from_bits(1); X }", "{ fn s<X: Send + Sync + Copy + std::hash::Hash + std::cmp::Ord>(_: X) {} s(a) }",
          "a.to_decimal(3)", "*a.as_bits()", "a.cmul(*b.as_bits() as _)", "a.rdiv(a.into_bits(), M)", "a.into_bits().rdiv(a, M)"]
# with an integer of type K: only the layout's
LAYOUT = ["a.cmul(k)", "a.saturating_mul(k)", "k.cmul(a)", "CheckedMul::<T>::saturating_mul(k, a)", "a.rdiv(k, M)", "k.rdiv(a, M)", "T::from_bits(k)", "{ let x: K = a.into_bits(); x }",
          "{ let x: K = a.integral(M); x }", "{ let x: K = a.signum(); x }", "T::from_decimal(k, 0)", "{ let x: (K, i32) = a.to_decimal(0); x }", "{ let x: &K = a.as_bits(); *x }", "RoundingDiv::<K>::rdiv(a, k, M)"]
INT_NEVER = ["a.cadd(k)", "a.csub(k)", "a.saturating_add(k)", "a.saturating_sub(k)", "a.rmul(k, M)", "a.saturating_rmul(k, M)", "k.cadd(a)", "k.csub(a)", "k.rmul(a, M)", "k.saturating_rmul(a, M)",
             "a == k", "a < k", "k < a", "a.partial_cmp(&k)", "T::from(k)", "{ let x: T = k.into(); x }", "{ let x: T = k; x }", "K::from(a)", "K::try_from(a)", "a + k", "a * k", "k * a", "a / k", "a as K",
             "k as T", "a.round_towards_zero_by(k)", "T::half_sum(a, k, M)", "std::cmp::max(a, k)", "k.rmul(k, M)", "{ let x: K = a; x }"]
INT_ALWAYS = ["T::try_from(k)"]
# between primitive integers: signed ones of the same type
INT_INT = ["k.cadd(h)", "k.csub(h)", "k.cmul(h)", "k.rdiv(h, M)", "CheckedAdd::saturating_add(k, h)", "CheckedSub::saturating_sub(k, h)", "CheckedMul::<H>::saturating_mul(k, h)"]
OPS = ["cadd", "csub", "cmul", "rmul", "rdiv"]


def show(t):
    return t if isinstance(t, str) else "FixedPoint<%s, U%d>" % t


def promoted(x, res):
    if isinstance(res, tuple):
        if isinstance(x, tuple):
            return x if x == res else None
        res = res[0]
    elif isinstance(x, tuple):
        return None
    return res if x in SIGNED and res in SIGNED and SIGNED.index(x) <= SIGNED.index(res) else None


def declarable(op, l, r, res):
    """Whether impl_op! accepts wrappers with these contents."""
    l, r = promoted(l, res), promoted(r, res)
    if l is None or r is None:
        return False
    fp = (isinstance(l, tuple), isinstance(r, tuple), isinstance(res, tuple))
    return fp in {"cadd": [(True, True, True), (False, False, False)], "csub": [(True, True, True), (False, False, False)],
                  "cmul": [(True, False, True), (False, True, True), (False, False, False)], "rmul": [(True, True, True)],
                  "rdiv": [(True, True, True), (True, False, True), (False, True, True), (False, False, True), (False, False, False)]}[op]


def some_type(r, features):
    l = r.choice([f for f in features if f != "std"])
    return (l, r.choice([0, 1, 2, r.randrange(PRECS[l] + 1), PRECS[l]]))


def some_other(r, t, features):
    k = r.randrange(5)
    if k == 0:
        return t
    if k == 1:
        ls = [f for f in features if f != "std" and PRECS[f] >= t[1]]
        return (r.choice(ls), t[1])
    if k <= 3:
        return (t[0], max(0, min(PRECS[t[0]], t[1] + r.choice([-1, 1, 1, 9, -2]))))
    return some_type(r, features)


def use(code, op):
    return "a.%s(b%s)" % (op, ", M" if op[0] == "r" else "") if code is None else code


def item(r, features):
    """(declarations, parameters, code, whether it compiles, whether it is non-trivial)."""
    t = some_type(r, features)
    u = some_other(r, t, features)
    k = r.choice([t[0], t[0], r.choice(INTS)])
    h = r.choice([k, r.choice(INTS)])
    head = "type T = %s; type U = %s; type K = %s; type H = %s;" % (show(t), show(u), k, h)
    args = "a: T, b: U, k: K, h: H"
    c = r.randrange(20)
    if c < 6:
        return head, args, r.choice(BOTH[:-1]), t == u, t != u
    if c < 9:
        return head, args, r.choice(NEVER), False, True
    if c == 9:
        code = r.choice(ALWAYS)
        return head, args, code, True, False
    if c < 12:
        return head, args, r.choice(LAYOUT), k == t[0], True
    if c < 14:
        return head, args, r.choice(INT_NEVER), False, True
    if c == 14:
        code = r.choice(INT_ALWAYS + INT_INT * 3)
        return head, args, code, code in INT_ALWAYS or k == h and k in SIGNED, True
    # wrappers
    ints = [x for x in SIGNED if x == "i8" or x in PRECS and (x in features or r.random() < 0.2)]
    contents = [t, t, u, t[0], r.choice(ints), r.choice(SIGNED)]
    op = r.choice(OPS)
    l, m, res = r.choice(contents), r.choice(contents), r.choice([t, t, u, t[0], r.choice(SIGNED)])
    structs = "use super::*; " + " ".join("#[derive(Clone, Copy)] pub struct W%d(pub %s); impl From<%s> for W%d { fn from(x: %s) -> Self { W%d(x) } }" % (i, show(x), show(x), i, show(x), i)
                       for i, x in enumerate([l, m, res]))
    if c == 15:
        return structs + " impl_op!(W0 [%s] W1 = W2);" % op, "", "()", declarable(op, l, m, res), True
    for _ in range(200):
        if declarable(op, l, m, res):
            break
        op, l, m, res = r.choice(OPS), r.choice(contents), r.choice(contents), r.choice([t, t, u, t[0]])
    else:
        op, l, m, res = "cadd", t, t, t
    structs = "use super::*; " + " ".join("#[derive(Clone, Copy, PartialEq)] pub struct W%d(pub %s); impl From<%s> for W%d { fn from(x: %s) -> Self { W%d(x) } }" % (i, show(x), show(x), i, show(x), i)
                       for i, x in enumerate([l, m, res]))
    decl = structs + " impl_op!(W0 [%s] W1 = W2);" % op
    call = lambda o, x, y: "%s.%s(%s%s)" % (x, o, y, ", M" if o[0] == "r" else "")
    args = "x: W0, y: W1, z: W2"
    if c == 16:
        return decl, args, "{ let r: Result<W2, ArithmeticError> = %s; r }" % call(op, "x", "y"), True, True
    other = r.choice([o for o in OPS if o != op])
    bad = [call(other, "x", "y"), call(op, "y", "x"), call(op, "x", "z"), call(op, "z", "y"), call(op, "x", "x"), call(op, "y", "y"), call(op, "x", "y.0"), call(op, "x.0", "y"),
           "{ let r: Result<W0, ArithmeticError> = %s; r }" % call(op, "x", "y"), "{ let r: Result<%s, ArithmeticError> = %s; r }" % (show(res), call(op, "x", "y")), "x + y", "x == y", "x * y",
           "{ let w: W0 = y; w }", "x < x"]
    return decl, args, r.choice(bad), False, True


def text(i, it):
    decl, args, code, _, _ = it
    return "mod m%d { use super::*; %s pub fn f(%s) { let _ = %s; } }" % (i, decl.replace("use super::*; ", ""), args, "(%s)" % code if not code.startswith(("{", "(")) else code)


HEAD = """#![allow(warnings)]
use fixnum::{*, ops::*, typenum::*};
pub const M: RoundMode = RoundMode::Floor;
""".rstrip("\n").split("\n")


def rejected(prog, items, shard):
    """Indices with errors, by one compilation without code generation."""
    src, at = list(HEAD), {}
    for i, it in items.items():
        src.append(text(i, it))
        at[len(src)] = i
    base = os.path.join(prog.dir, "mix%d" % shard)
    with open(base + ".rs", "w") as f:
        f.write("\n".join(src) + "\n")
    p = subprocess.run(["rustc", TOOLCHAIN, "--edition=2021", "--crate-name", "mix%d" % shard, "--crate-type=lib", "--emit=metadata", "--error-format=json", "--extern", "fixnum=" + prog.rlib,
                        "-L", "dependency=" + prog.deps, "-o", base + ".rmeta", base + ".rs"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    hit, other = {}, []
    for l in p.stderr.splitlines():
        m = json.loads(l) if l.startswith("{") else {}
        if not str(m.get("level")).startswith("error") or not m["spans"]:
            continue
        lines, todo = set(), list(m["spans"])
        while todo:
            s = todo.pop()
            if s["file_name"] == base + ".rs" and s["line_start"] in at:
                lines.add(at[s["line_start"]])
            if s.get("expansion"):
                todo.append(s["expansion"]["span"])
        for i in lines:
            hit.setdefault(i, m["message"])
        if not lines:
            other.append(m["rendered"])
    if p.returncode != 0 and (other or not hit):
        raise CheckError("the items do not compile: " + (" ".join(other) or p.stderr)[-3000:])
    return hit


def outcomes(prog, items, shard=0):
    """For every index None (compiles) or the error."""
    res, left = {}, dict(items)
    for _ in range(20):
        # later passes only run once the earlier ones find nothing
        hit = rejected(prog, left, shard)
        res.update(hit)
        left = {i: it for i, it in left.items() if i not in hit}
        if not hit:
            return {i: res.get(i) for i in items}
    raise CheckError("compilation does not settle")


def message(it, err, features):
    return "`%s` with %s [features %s] %s" % (it[2], it[0].replace("use super::*; ", ""), ",".join(features), "compiles" if err is None else "does not compile: " + err)


def run(thorough, seed):
    r = random.Random(seed)
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": RULE, "labels": {"compiles": 0, "rejected": 0}, "samples": []}
    seen, failure = set(), None
    for batch in range(12 if thorough else 1):
        for features in FEATURES:
            prog = literals.Program(features)
            items = {i: item(r, features) for i in range(8 * 600)}
            with concurrent.futures.ThreadPoolExecutor(8) as ex:
                parts = list(ex.map(lambda s: outcomes(prog, {i: it for i, it in items.items() if i % 8 == s}, s), range(8)))
            for i, it in items.items():
                err = parts[i % 8][i]
                cov["evaluations"] += 1
                cov["labels"]["compiles" if err is None else "rejected"] += 1
                if it[4] and it not in seen:
                    seen.add(it)
                    cov["distinct_nontrivial"] += 1
                if (err is None) != it[3] and failure is None:
                    failure = (features, it, err)
            cov["samples"] += [message(items[i], parts[i % 8][i], features) for i in r.sample(sorted(items), 10)]
            if failure:
                break
        if failure:
            break
    cov["samples"] = cov["samples"][:24]
    assumptions = ["rustc 1.90.0 reports every type error at the line of its item"]
    evidence("C30", thorough, seed, cov, violations=1 if failure else 0, assumptions=assumptions)
    if failure:
        features, it, err = failure
        violation("C30", {"kind": "mixing", "features": features, "item": list(it), "message": message(it, err, features)})


def replay(rec):
    it = tuple(rec["item"])
    err = outcomes(literals.Program(rec["features"]), {0: it})[0]
    return (err is None) != it[3], message(it, err, rec["features"])


def prepare():
    for f in FEATURES:
        literals.Program(f)
