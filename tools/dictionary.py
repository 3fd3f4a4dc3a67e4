"""Constants of the library's source that are new since the committed baseline, as extra inputs for the generators.

Random operands never meet an arbitrary constant. A changed library mentions the constants that its changed behaviour depends on, so these are offered to the
generators (as fuzzers do with the comparisons of an instrumented program). They only add inputs: what a call must return is not affected, and
without new constants nothing changes.

    dictionary.py --baseline    rewrites constants.json from the current tree
"""
import json
import os
import re
import struct
import sys
from collections import Counter

HERE = os.path.dirname(os.path.abspath(__file__))
BASE = os.path.join(HERE, "constants.json")
SKIP = {"0", "1", "2", "10"}
TOKEN = re.compile(r'''//[^\n]*|/\*.*?\*/
    |(?P<str>b?r?"(?:[^"\\]|\\.)*")
    |(?P<chr>b?'(?:[^'\\]|\\[^u]|\\u\{[0-9a-fA-F]+\}|\\x[0-9a-fA-F]{2})')
    |(?P<lim>\b[iu](?:8|16|32|64|128|size)::(?:MAX|MIN|BITS)\b)
    |(?P<flt>(?<![\w.])\d[\d_]*\.\d[\d_]*(?:[eE][+-]?\d+)?(?:_?f\d\d)?|(?<![\w.])\d[\d_]*[eE][+-]?\d+)
    |(?P<int>(?<![\w.])(?:0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|\d[\d_]*)(?:[iu](?:8|16|32|64|128|size))?)''', re.X | re.S)


def tokens(src):
    out = Counter()
    for d, _, files in os.walk(src):
        for f in files:
            if f.endswith(".rs"):
                with open(os.path.join(d, f), errors="replace") as h:
                    for m in TOKEN.finditer(h.read()):
                        if m.lastgroup and len(m.group()) <= 100:
                            out[m.group()] += 1
    return out


def meaning(tok):
    """(integers, floats, texts) of a token."""
    if tok[0] in "\"'" or tok[:2] in ('b"', "b'", 'r"', "br"):
        t = tok.lstrip("br")[1:-1]
        t = re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), t)
        t = re.sub(r"\\x([0-9a-fA-F]{2})", lambda m: chr(int(m.group(1), 16)), t)
        for a, b in (("\\n", "\n"), ("\\t", "\t"), ("\\r", "\r"), ("\\0", "\0"), ("\\'", "'"), ('\\"', '"'), ("\\\\", "\\")):
            t = t.replace(a, b)
        return ([ord(t)] if len(t) == 1 else []), [], ([t] if 0 < len(t) <= 40 else [])
    m = re.fullmatch(r"([iu])(\w+)::(\w+)", tok)
    if m:
        n = 64 if m.group(2) == "size" else int(m.group(2))
        lo, hi = (-(1 << n - 1), (1 << n - 1) - 1) if m.group(1) == "i" else (0, (1 << n) - 1)
        return [{"MAX": hi, "MIN": lo, "BITS": n}[m.group(3)]], [], []
    t = re.sub(r"(?<=[0-9a-fA-F_])_?(?:[iu](?:8|16|32|64|128|size)|f32|f64)$", "", tok).replace("_", "")
    try:
        return [int(t, 0) if t[:1] != "0" or t[:2] in ("0x", "0b", "0o") else int(t)], [], []
    except ValueError:
        pass
    try:
        x = float(t)
    except ValueError:
        return [], [], []
    digits = re.sub(r"[eE].*", "", t).replace(".", "")
    return [int(digits)] + ([int(x)] if abs(x) < 1e38 else []), [x], []


def load(src):
    """The dictionary in the form that the harness reads, or ''."""
    try:
        with open(BASE) as f:
            known = json.load(f)
        new = [t for t, n in sorted(tokens(src).items()) if n > known.get(t, 0) and t not in SKIP]
    except (OSError, ValueError):
        return ""
    out = []
    for t in new[:300]:
        ints, floats, texts = meaning(t)
        out += ["i%d" % x for x in ints if -(1 << 127) <= x < 1 << 127]
        out += ["i%d" % (x - (1 << 128)) for x in ints if 1 << 127 <= x < 1 << 128]
        out += ["f%d" % struct.unpack("<Q", struct.pack("<d", x))[0] for x in floats]
        out += ["s" + x.encode("utf-8", "replace").hex() for x in texts]
    return ",".join(dict.fromkeys(out))


def integers():
    """The integers of the dictionary in use."""
    return [int(x[1:]) for x in os.environ.get("FX_DICT", "").split(",") if x[:1] == "i"]


if __name__ == "__main__":
    repo = os.environ.get("REPO", "/repo")
    if sys.argv[1:] == ["--baseline"]:
        with open(BASE, "w") as f:
            json.dump(dict(sorted(tokens(repo + "/src").items())), f, indent=0)
            f.write("\n")
    else:
        print(load(repo + "/src"))
