#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the list of built checks."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PBT = "property-based testing against an exact-arithmetic oracle"
TECH = {
    "C01": PBT, "C02": PBT, "C03": PBT, "C04": PBT, "C05": PBT, "C06": PBT, "C07": PBT, "C08": PBT, "C09": PBT,
    "C10": "property-based testing: exact-arithmetic oracle and round trip",
    "C11": PBT,
    "C12": "property-based testing: independent formatter and round trip",
    "C13": "grammar-based generation with an independent decimal reader",
    "C14": "grammar-based generation with an independent decimal reader",
    "C15": "property-based testing: exact error bound, metamorphic sign relation",
    "C16": "property-based testing: exact error bound, monotonicity, round trip",
    "C17": "property-based testing: round trips and differential documents in five formats",
    "C18": "property-based testing: round trips through every serde module in several formats",
    "C19": "property-based testing: byte model of the codec, arbitrary bytes",
    "C20": "generated programs, compiled and run or expected not to compile",
    "C21": "differential property-based testing of generated impl_op! declarations",
    "C22": "differential property-based testing across builds",
    "C23": "generated calls under debug checks, AddressSanitizer and Miri",
    "C26": "property-based testing: every serialization against the schema",
    "C24": "property-based testing of order, hash and constant laws",
    "C27": "metamorphic property-based testing: relations between modes, signs, neighbours and inverses",
    "C28": "differential property-based testing between types",
    "C29": "property-based testing of error values over generated failing calls",
    "C30": "generated programs, expected to compile or not by a typing table",
    "C31": "differential property-based testing across platforms (compiled 32-bit x86, interpreted big-endian)",
    "C25": "stateful model-based testing of generated operation histories",
}
MISS = " A violation on an input outside the explored ones is possible."
GUIDED = " The thorough run adds the release profile and coverage-guided search (libFuzzer) over the same generator."
ORACLE = " Trusts the harness's 512-bit integer oracle and rustc."
NOTE = {
    None: "Random and boundary-solved inputs over all 73 layout/precision types, small domains enumerated." + MISS + GUIDED + ORACLE,
    "C13": "Texts from a decimal grammar with up to three edits over all 73 types; every text of up to 4 characters over a 10-character alphabet for several types." + MISS + GUIDED,
    "C17": "15 types through JSON (five routes), bincode, CBOR and XML; other formats are not run." + MISS + GUIDED + " Trusts the format crates' readers for plain integers, floats and strings.",
    "C18": "All six modules, with numbers and wrappers over 8 types, through JSON, bincode and CBOR, against the same structure of plain integers, strings or floats; other formats are not run." + MISS + GUIDED,
    "C19": "15 types; all i16 values, compact-mode boundaries, all inputs of up to two bytes, damaged byte strings, slice and stream inputs." + MISS + GUIDED + " Trusts parity-scale-codec for plain integers.",
    "C20": "A few thousand generated literals per run, each compiled; every type and the boundary literals of each. The compiler limits how many are tried." + MISS,
    "C21": "233 generated declarations (every operation, operand kinds, layouts), all pairs of 8-bit integers, and the edges of each result." + MISS + GUIDED,
    "C22": "16 configurations (34 in the thorough run) out of the 960 possible: every combination of three options (a feature, std, debug checks) is in one of them, not every combination of four or more; on x86-64 only; each runs the same calls." + MISS,
    "C23": "Tests, not a proof of memory safety: debug checks on millions, AddressSanitizer on millions and Miri on thousands of generated calls of all the other checks. Undefined behaviour on an input that none of them reaches is possible.",
    "C25": "Histories of up to 30 steps of 30 kinds over all 73 types, each step against an exact model." + MISS + GUIDED + ORACLE,
    "C26": "15 types, alone and inside options, lists, maps and structs, with an independent validator of the schema keywords that schemars 0.8 can produce." + MISS + GUIDED,
    "C30": "A few thousand generated functions and declarations per run for pairs of types, integers and wrappers, against a typing table; operations that the table's author did not think of are not tried." + MISS,
}
SWEEP = " The thorough run also enumerates whole narrow domains (%s)."
for i in ["C01", "C02", "C03", "C04", "C05", "C07"]:
    NOTE[i] = NOTE[None] + SWEEP % "all pairs of i16 values at every precision"
for i, d in [("C06", "all i32 values, precisions and modes"), ("C08", "all i32 values, precisions and modes"), ("C09", "all pairs of i16 values; all i32 values"),
             ("C10", "all i32 values and precisions"), ("C12", "all i32 values at two precisions"), ("C15", "the doubles of all i32 values"), ("C16", "all i32 values at four precisions")]:
    NOTE[i] = NOTE[None] + SWEEP % d
NOTE["C31"] = "Every kind of call over all 73 types and the codecs over 15, compiled for 32-bit x86 (10 M calls) and in Miri for s390x (4 k calls; thorough also powerpc); other targets and compile-time literals are not run." + MISS
NOTE["C14"] = NOTE["C13"]
checks, na = [], []
for l in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if i in TECH:
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py %s --thorough" % i,
                       "technique": TECH[i], "level": "exploration", "level_note": NOTE.get(i, NOTE[None])})
    else:
        na.append({"property": i, "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "Every check rebuilds the harness crates against /repo's working tree. See DESIGN.md."}
open(os.path.join(H, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
