#!/usr/bin/env python3
"""E02: sized integer literals. Generates literal spellings, compiles them against
fly/types/numeric/literals.hpp and compares what the compiler says with their written values.

Usage: e02_literals.py E02 SEED TIER | e02_literals.py E02 --replay FILE
"""
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CXX = ["g++", "-std=c++20", "-I" + REPO, "-w", "-fsyntax-only", "-fmax-errors=0", "-fno-diagnostics-show-caret", "-fdiagnostics-color=never"]
TYPES = {
    "i8": ("std::int8_t", -2**7, 2**7 - 1), "i16": ("std::int16_t", -2**15, 2**15 - 1),
    "i32": ("std::int32_t", -2**31, 2**31 - 1), "i64": ("std::int64_t", -2**63, 2**63 - 1),
    "u8": ("std::uint8_t", 0, 2**8 - 1), "u16": ("std::uint16_t", 0, 2**16 - 1),
    "u32": ("std::uint32_t", 0, 2**32 - 1), "u64": ("std::uint64_t", 0, 2**64 - 1),
    "zu": ("std::size_t", 0, 2**64 - 1),
}
RULE = ("Values around every type's limits, powers of the base and 2^64, and random ones of every length are spelled in "
        "binary, octal, decimal and hexadecimal with random digit separators, letter case and leading zeros, with each of the nine suffixes; "
        "some spellings have a digit that is none of the base. Each must compile to exactly its value and the suffix's type, or be rejected if the "
        "value does not fit. Non-trivial: the value is within a factor of 2 of the type's largest, or has a separator.")


def separate(rng, digits, leading):
    out = []
    p = rng.choice([0, 0, 0.2, 0.6])
    for i, d in enumerate(digits):
        if (i > 0 or leading) and rng.random() < p:
            out.append("'")
        out.append(d)
    return "".join(out)


def spell(rng, value, base):
    if base == 10:
        return separate(rng, str(value), False)
    digits = {2: "{:b}", 8: "{:o}", 16: "{:x}"}[base].format(value)
    digits = "0" * rng.choice([0, 0, 0, 1, 3]) + digits
    digits = "".join(c.upper() if rng.random() < 0.5 else c for c in digits)
    if base == 8:
        return "0" + separate(rng, digits, True)
    return rng.choice({2: ["0b", "0B"], 16: ["0x", "0X"]}[base]) + separate(rng, digits, False)


def value(rng, hi):
    k = rng.randrange(8)
    if k == 0:
        return max(0, hi + rng.randrange(-3, 4))
    if k == 1:
        return max(0, rng.choice([2**7, 2**8, 2**15, 2**16, 2**31, 2**32, 2**63, 2**64, 2**65, 2**128]) + rng.randrange(-3, 4))
    if k == 2:
        return rng.randrange(0, 20)
    if k == 3:
        return 2**64 * rng.randrange(1, 20) + rng.randrange(0, 300)
    if k == 4:
        return max(0, (hi + 1) * rng.randrange(1, 40) // rng.randrange(1, 20) + rng.randrange(-1, 2))
    if k == 5:
        return max(0, rng.choice([2, 8, 10, 16]) ** rng.randrange(0, 66) + rng.randrange(-1, 2)) % 2**80
    return rng.randrange(0, 2 ** rng.randrange(1, 72))


def generate(rng, n):
    cases = {}
    while len(cases) < n:
        suffix = rng.choice(list(TYPES))
        hi = TYPES[suffix][2]
        v = value(rng, hi)
        base = rng.choice([2, 8, 10, 10, 16, 16])
        if base == 10 and v == 0:
            base = 8
        lit = spell(rng, v, base) + "_" + suffix
        cases[lit] = (v if v <= hi else None, v, hi)
        # hexadecimal that looks like another prefix, floating point and foreign digits
        if rng.random() < 0.02:
            cases[rng.choice(["1.0_", "1e3_", "0x1p3_", "0b12_", "08_", "0b2_", "019_", "1.5_", "0'9_"]) + suffix] = (None, 1, hi)
    return cases


def source(cases):
    lines = ['#include "fly/types/numeric/literals.hpp"', "#include <type_traits>", "using namespace fly::literals::numeric_literals;",
             "template <typename T, typename V> constexpr bool same(V v, T w) { return std::is_same_v<T, V> && v == w; }"]
    where = {}
    for i, (lit, (want, _, _)) in enumerate(cases):
        t = TYPES[lit[lit.rindex("_") + 1:]][0]
        if want is None:
            lines.append("constexpr auto v%d = %s;" % (i, lit))
        else:
            lines.append("static_assert(same<%s>(%s, static_cast<%s>(%dull)));" % (t, lit, t, want))
        where[len(lines)] = lit
    return "\n".join(lines) + "\n", where


def compile_some(d, name, cases):
    text, where = source(cases)
    path = os.path.join(d, name + ".cpp")
    with open(path, "w") as f:
        f.write(text)
    r = subprocess.run(CXX + [path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    out = r.stdout.decode(errors="replace")
    bad = set()
    for m in re.finditer(re.escape(os.path.basename(path)) + r":(\d+)[:,]", out):
        if int(m.group(1)) in where:
            bad.add(where[int(m.group(1))])
    return r.returncode == 0, bad, out


def judge(d, lit, case):
    """Compiles one literal alone: None if as expected, or what is wrong."""
    ok, _, out = compile_some(d, "one%d" % abs(hash(lit)), [(lit, case)])
    if case[0] is None:
        return "%s compiles although it does not fit" % lit if ok else None
    if ok:
        return None
    alone = os.path.join(d, "a%d.cpp" % abs(hash(lit)))
    with open(alone, "w") as f:
        f.write('#include "fly/types/numeric/literals.hpp"\nusing namespace fly::literals::numeric_literals;\nconstexpr auto v = %s;\n' % lit)
    if subprocess.run(CXX + [alone], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0:
        return "%s does not have the value %d or the type of its suffix" % (lit, case[0])
    return "%s, which has the value %d, does not compile" % (lit, case[0])


def shrink(d, lit, case):
    """Tries simpler spellings of the same literal while they fail in the same direction."""
    best = lit
    for _ in range(30):
        body, suffix = best.rsplit("_", 1)
        candidates = []
        if "'" in body:
            candidates.append(body.replace("'", ""))
        if re.match(r"0[xXbB]?0", body) and len(body) > 3:
            candidates.append(re.sub(r"^(0[xXbB]?)0", r"\1", body))
        if body != body.lower():
            candidates.append(body.lower())
        for c in candidates:
            if judge(d, c + "_" + suffix, case):
                best = c + "_" + suffix
                break
        else:
            return best
    return best


def main():
    prop = sys.argv[1]
    if sys.argv[2] == "--replay":
        d = tempfile.mkdtemp(prefix="verif-E02-", dir="/tmp")
        try:
            rec = json.loads(open(sys.argv[3]).read().split("\n", 1)[1])
            what = judge(d, rec["literal"], (rec["value"], 0, 0))
            print(what or "holds")
            if what:
                print("VIOLATION property=E02 replay=%s" % sys.argv[3])
            return 1 if what else 0
        finally:
            shutil.rmtree(d, ignore_errors=True)
    seed, tier = int(sys.argv[2]), sys.argv[3]
    t0 = time.time()
    rng = random.Random(seed)
    n = 12000 if tier == "quick" else 250000
    cases = list(generate(rng, n).items())
    good = [c for c in cases if c[1][0] is not None]
    wrong = [c for c in cases if c[1][0] is None]
    d = tempfile.mkdtemp(prefix="verif-E02-", dir="/tmp")
    violations = []
    code = 0
    try:
        batches = [good[i:i + 400] for i in range(0, len(good), 400)] + [wrong[i:i + 400] for i in range(0, len(wrong), 400)]
        suspects = []
        with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            for batch, (ok, bad, out) in zip(batches, ex.map(lambda b: compile_some(d, "batch%d" % b[0], b[1]), enumerate(batches))):
                if batch[0][1][0] is not None:
                    suspects += [c for c in batch if c[0] in bad] if bad else ([] if ok else batch)
                else:
                    suspects += [c for c in batch if c[0] not in bad]
            # the header itself must compile, or nothing above means anything
            if not judge(d, "7_u8", (None, 7, 255)):
                sys.stderr.write("a plain literal does not compile\n" + compile_some(d, "plain", [("7_u8", (7, 7, 255))])[2][:2000])
            # each suspect is decided alone
            for (lit, case), what in zip(suspects[:2000], ex.map(lambda c: judge(d, *c), suspects[:2000])):
                if what:
                    violations.append((lit, case, what))
        nontrivial = {lit for lit, (w, v, hi) in cases if "'" in lit or hi // 2 <= v <= 2 * hi + 2}
        if violations:
            lit, case, what = min(violations, key=lambda v: len(v[0]))
            small = shrink(d, lit, case)
            os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
            path = os.path.join(VERIF, "evidence", "replay", "E02-%d.replay" % seed)
            with open(path, "w") as f:
                f.write("property: E02\n" + json.dumps({"literal": small, "value": case[0]}) + "\n")
            print(judge(d, small, case) or what)
            print("VIOLATION property=E02 replay=%s" % path)
            code = 1
    finally:
        shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump({
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": len(cases), "distinct_nontrivial": len(nontrivial), "rule": RULE,
            "samples": [{"literal": lit, "expected": "rejected" if w is None else str(w)} for lit, (w, _, _) in cases[:12]],
            "expected_accepted": len(good), "expected_rejected": len(wrong), "decided_alone": len(suspects),
        },
        "assumptions": ["compiled with g++ in C++20 mode"],
        "wall_s": time.time() - t0, "violations": len(violations),
    }, open(os.path.join(VERIF, "evidence", "E02.json"), "w"), indent=1)
    if code == 0:
        print("ok property=E02 cases=%d distinct_nontrivial=%d wall=%.1fs" % (len(cases), len(nontrivial), time.time() - t0))
    return code


sys.exit(main())
