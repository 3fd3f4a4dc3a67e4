#!/usr/bin/env python3
"""Development aid, not used by any check: which small changes of the library does no engine check notice?

mutate.py FILE:PROPS:CRATES [N] [SEED]   e.g. src/ops/sqrt.rs:C06,C25:fx 40
Works in copies under /tmp/mut; prints KILLED/SURVIVED/NOBUILD per mutant.
"""
import os
import random
import re
import subprocess
import sys

M = os.environ.get("MUT", "/tmp/mut")
ENV = dict(os.environ, CARGO_TARGET_DIR=M + "/target", CARGO_NET_OFFLINE="true")
ENV.pop("RUSTFLAGS", None)
OPS = [("<=", "<"), (">=", ">"), ("==", "!="), ("!=", "=="), (" < ", " <= "), (" > ", " >= "), (" + ", " - "), (" - ", " + "), (" * ", " / "), (" / ", " * "),
       (" % ", " / "), ("&&", "||"), ("||", "&&"), ("+=", "-="), ("-=", "+="), ("*=", "/="), ("<<", ">>"), (">>", "<<"), (" | ", " & "), (" & ", " | "),
       ("true", "false"), ("false", "true"), ("MIN", "MAX"), ("MAX", "MIN"), (".abs()", ""), (".unsigned_abs()", ".unsigned_abs().wrapping_add(1)"),
       ("unwrap_or", "unwrap_or"), ("Floor", "Ceil"), ("Ceil", "Floor"), ("Nearest", "Floor"), (".min(", ".max("), (".max(", ".min("), ("if ", "if !"),
       ("checked_add", "checked_sub"), ("saturating_add", "wrapping_add"), ("saturating_sub", "wrapping_sub"), ("saturating_mul", "wrapping_mul"),
       ("Overflow", "DivisionByZero"), ("DivisionByZero", "Overflow"), (".signum()", ""), ("ZERO", "ONE"), ("ONE", "ZERO"), ("(0)", "(1)"), ("is_empty()", "is_empty() && false")]


def mutants(path):
    text = open(path).read()
    end = text.find("#[cfg(test)]")
    t2 = text.find("\n#[test]")
    if end < 0 or 0 <= t2 < end:
        end = t2
    lines = text.split("\n")
    last = text[:end].count("\n") if end >= 0 else len(lines)
    out = []
    comment = False
    for n, l in enumerate(lines[:last]):
        s = l.strip()
        if s.startswith("/*") and "*/" not in s:
            comment = True
        if comment:
            comment = "*/" not in s
            continue
        if s.startswith("//") or s.startswith("#") or not s or "debug_assert" in s or s.startswith("use "):
            continue
        code = re.split(r"\s//", l)[0]
        for a, b in OPS:
            for m in re.finditer(re.escape(a), code):
                if a == "if " and code[m.start() - 1:m.start()].isalnum():
                    continue
                if a in ("==", "<=", ">=", "!=") and code[m.end():m.end() + 1] == "=":
                    continue
                if a == "if " and "if let" in code:
                    continue
                x = code[:m.start()] + b + code[m.end():]
                if x != code:
                    out.append((n, x))
        for m in re.finditer(r"(?<![\w.#])\d[\d_]*(?![\w.]*[a-z])", code):
            v = int(m.group().replace("_", ""))
            if code.lstrip().startswith("/*") and m.start() < code.find("*/"):
                continue
            for w in (v + 1, v - 1):
                if w >= 0:
                    out.append((n, code[:m.start()] + str(w) + code[m.end():]))
        if s.endswith(";") and ("=" in s and not s.startswith("let") and not s.startswith("const") or s.startswith("let _ = ")):
            out.append((n, ""))
        if s == "break;" or s == "continue;":
            out.append((n, ""))
    return lines, out


def main():
    target, props, crates = sys.argv[1].split(":")
    props, crates = props.split(","), crates.split(",")
    if not os.path.isdir(M):
        os.makedirs(M)
        subprocess.run("git clone -q /repo %s/repo && mkdir %s/verif && cp -r /verif/harness %s/verif/harness && sed -i 's#\"/repo\"#\"%s/repo\"#' %s/verif/harness/*/Cargo.toml" % (M, M, M, M, M), shell=True, check=True)
    home = {"fx": "fx", "codec": "codec", "withs": "withs", "wrap": "wrap"}
    owner = lambda p: "codec" if p in ("C17", "C19", "C26") else "withs" if p == "C18" else "wrap" if p == "C21" else "fx"
    path = M + "/repo/" + target
    lines, muts = mutants(path)
    original = "\n".join(lines)
    r = random.Random(int(sys.argv[3]) if len(sys.argv) > 3 else 1)
    n = int(sys.argv[2]) if len(sys.argv) > 2 else len(muts)
    if n < len(muts):
        muts = sorted(r.sample(muts, n))
    counts = {}
    try:
        for line, new in muts:
            m = list(lines)
            m[line] = new
            open(path, "w").write("\n".join(m))
            outcome = None
            b = subprocess.run(["cargo", "+1.90.0", "build", "--offline", "--profile", "checked"] + [x for c in crates for x in ("-p", c)], cwd=M + "/verif/harness", env=ENV,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if b.returncode:
                outcome = "NOBUILD"
            else:
                for p in props:
                    try:
                        x = subprocess.run([M + "/target/checked/" + owner(p), p, "--seed", "1", "--out", M + "/o.json"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=200)
                        rc = x.returncode
                    except subprocess.TimeoutExpired:
                        rc = "timeout"
                    if rc:
                        outcome = "KILLED by %s (%s)" % (p, rc)
                        break
            outcome = outcome or "SURVIVED"
            counts[outcome.split()[0]] = counts.get(outcome.split()[0], 0) + 1
            if not outcome.startswith("NOBUILD"):
                print("%s %s:%d\n  - %s\n  + %s" % (outcome, target, line + 1, lines[line].strip(), new.strip()), flush=True)
    finally:
        open(path, "w").write(original)
    print(counts)


main()
