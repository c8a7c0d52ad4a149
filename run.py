#!/usr/bin/env python3
"""Builds and runs the checks.

  run.py check ID        build /repo's current sources and the check's driver, and run it
                         (VERIF_SEED, VERIF_TIER from the environment)
  run.py replay FILE     re-run one saved failure
  run.py build ID...     only build
  run.py list
"""
import concurrent.futures
import fcntl
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
HARNESS = os.path.join(VERIF, "harness")

COMMON = ["-std=c++20", "-pthread", "-w", "-Wno-psabi", "-I" + REPO, "-I" + HARNESS]
VARIANTS = {
    # name: (compiler, flags of the library, flags of the driver)
    "asan": ("g++", ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"], []),
    "tsan": ("g++", ["-O1", "-g1", "-fsanitize=thread"], []),
    "plain": ("g++", ["-O1"], []),
}

# Atomic operations under the race detector, and static initialisation, by way of atomics.cpp.
WRAPPED = ["__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort"] + [
    "__tsan_atomic%d_%s" % (bits, name) for bits in (8, 32, 64)
    for name in ("load", "store", "exchange", "fetch_add", "fetch_sub", "compare_exchange_strong", "compare_exchange_weak")]

# property -> how its driver is built
CHECKS = json.load(open(os.path.join(HARNESS, "checks.json")))


def lib_sources(parts_of=True):
    """The library's sources; with a list, only those under the given directories."""
    out = []
    for root, _, files in os.walk(os.path.join(REPO, "fly")):
        parts = os.path.relpath(root, REPO).split(os.sep)
        if "win" in parts or "mac" in parts:
            continue
        out += [os.path.join(root, f) for f in files if f.endswith(".cpp")]
    if isinstance(parts_of, list):
        out = [f for f in out if any(os.path.relpath(f, REPO).startswith(p) for p in parts_of)]
    return sorted(out)


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:32]


_hash = {}


def file_hash(path):
    if path not in _hash:
        try:
            with open(path, "rb") as f:
                _hash[path] = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            _hash[path] = "missing"
    return _hash[path]


def compile_one(job):
    """Objects are kept under the hash of everything they were compiled from, never by time stamp."""
    cxx, src, flags = job
    cmd = [cxx, *COMMON, *flags]
    base = digest(src, *cmd)
    index = os.path.join(BUILD, "deps", base)
    if os.path.exists(index):
        deps = open(index).read().split("\n")
        obj = os.path.join(BUILD, "obj", digest(base, *[d + file_hash(d) for d in deps]) + ".o")
        if os.path.exists(obj):
            return obj, None
    with tempfile.TemporaryDirectory(dir=BUILD) as tmp:
        o, d = os.path.join(tmp, "x.o"), os.path.join(tmp, "x.d")
        r = subprocess.run([*cmd, "-MMD", "-MF", d, "-c", src, "-o", o],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            return None, "%s:\n%s" % (src, r.stdout.decode(errors="replace")[-4000:])
        text = open(d).read().replace("\\\n", " ")
        deps = sorted(set(x for x in text.split(":", 1)[1].split()
                          if x.startswith(REPO + "/") or x.startswith(VERIF + "/")))
        obj = os.path.join(BUILD, "obj", digest(base, *[x + file_hash(x) for x in deps]) + ".o")
        os.replace(o, obj)
        with open(index + ".%d" % os.getpid(), "w") as f:
            f.write("\n".join(deps))
        os.replace(index + ".%d" % os.getpid(), index)
    return obj, None


def build(ids, whole=False, variant=None):
    """Builds the drivers of ids with the parts of the library that they name, or with all of it if
    that does not link."""
    bins, err = build_with(ids, whole, variant)
    if bins is None and not whole and any(CHECKS[i].get("lib", True) is not True for i in ids):
        bins, err = build_with(ids, True, variant)
    return bins, err


def build_with(ids, whole, variant):
    for d in ("deps", "obj", "bin"):
        os.makedirs(os.path.join(BUILD, d), exist_ok=True)
    jobs, order = {}, []
    plan = {}
    for i in ids:
        c = CHECKS[i]
        v = variant or c.get("variant", "asan")
        parts = c.get("lib", True)
        lib = lib_sources(True if whole else parts) if parts else []
        cxx, vflags, _ = VARIANTS[v]
        dflags = vflags + c.get("flags", [])
        drv = [(cxx, os.path.join(HARNESS, s), tuple(dflags)) for s in c["sources"]]
        if v == "tsan":
            drv.append((cxx, os.path.join(HARNESS, "atomics.cpp"), ("-O1",)))
            dflags = dflags + ["-Wl,--wrap=" + name for name in WRAPPED]
        libjobs = [(cxx, s, tuple(vflags)) for s in lib]
        plan[i] = (cxx, drv, libjobs, dflags, c.get("libs", []))
        for j in drv + libjobs:
            if j not in jobs:
                jobs[j] = None
                order.append(j)
    errors = []
    with concurrent.futures.ThreadPoolExecutor(max_workers=int(os.environ.get("VERIF_JOBS", os.cpu_count() or 4))) as ex:
        for j, (obj, err) in zip(order, ex.map(compile_one, order)):
            jobs[j] = obj
            if err:
                errors.append(err)
    if errors:
        return None, "\n".join(errors)
    bins = {}
    for i, (cxx, drv, libjobs, flags, libs) in plan.items():
        objs = [jobs[j] for j in drv] + [jobs[j] for j in libjobs]
        name = i + "-" + (variant or "main") + "-"
        out = os.path.join(BUILD, "bin", name + digest(*objs, *flags))
        if not os.path.exists(out):
            for old in glob.glob(os.path.join(BUILD, "bin", name + "*")):
                os.unlink(old)
            lf = [f for f in flags if f.startswith(("-f", "-Wl,"))]
            r = subprocess.run([cxx, "-pthread", *lf, *objs, *libs, "-o", out + ".tmp"],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode != 0:
                return None, r.stdout.decode(errors="replace")[-4000:]
            os.replace(out + ".tmp", out)
        bins[i] = out
    return bins, None


def known(prop):
    ids = []
    path = os.path.join(VERIF, "KNOWN_FINDINGS.jsonl")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get("property") == prop and d.get("status") == "known":
                    ids.append(d["id"])
    return ids


def environment():
    env = dict(os.environ)
    for k in ("ASAN_OPTIONS", "UBSAN_OPTIONS", "TSAN_OPTIONS"):
        env.pop(k, None)
    env["LC_ALL"] = "C.UTF-8"
    env["RES_OPTIONS"] = "timeout:1 attempts:1"
    env["VERIF_REPO"] = REPO
    return env


def scratch(keep):
    return tempfile.mkdtemp(prefix="verif-", dir="/tmp")


def check(prop, extra):
    seed = os.environ.get("VERIF_SEED", "1") or "1"
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    c = CHECKS[prop]
    if "command" in c:
        return subprocess.run([sys.executable, os.path.join(HARNESS, c["command"]), prop, seed, tier, *extra], env=environment()).returncode
    evidence = os.path.join(VERIF, "evidence", prop + ".json")
    # The thorough tier runs the same driver under further sanitizers, where the check names any.
    for variant in [None] + (c.get("also", []) if tier == "thorough" else []):
        t0 = time.time()
        bins, err = build([prop], variant=variant)
        if bins is None:
            sys.stderr.write("build failed\n" + err + "\n")
            return 2
        sys.stderr.write("built in %.1f s\n" % (time.time() - t0))
        os.makedirs(os.path.dirname(evidence), exist_ok=True)
        out = evidence if variant is None else evidence + "." + variant
        d = tempfile.mkdtemp(prefix="verif-%s-" % prop, dir="/tmp")
        try:
            cmd = [bins[prop], "--seed", seed, "--tier", tier, "--dir", d, "--evidence", out,
                   "--replay-dir", os.path.join(VERIF, "evidence", "replay")]
            if tier == "quick":
                cmd += ["--scale", str(c.get("scale", 1))]
            for k in known(prop):
                cmd += ["--known", k]
            rc = subprocess.run(cmd + extra, env=environment(), cwd=d).returncode
        finally:
            shutil.rmtree(d, ignore_errors=True)
        if variant is not None and os.path.exists(out):
            merge(evidence, out, variant)
        if rc != 0:
            return rc
    return 0


def merge(evidence, other, variant):
    """Adds the counts of a further run of the same driver to the evidence."""
    a, b = json.load(open(evidence)), json.load(open(other))
    os.unlink(other)
    for k in ("evaluations", "planned"):
        a["coverage"][k] = a["coverage"].get(k, 0) + b["coverage"].get(k, 0)
    a["coverage"]["also_under_" + variant] = b["coverage"].get("evaluations", 0)
    a["wall_s"] = a.get("wall_s", 0) + b.get("wall_s", 0)
    a["violations"] = a.get("violations", 0) + b.get("violations", 0)
    with open(evidence + ".tmp", "w") as f:
        json.dump(a, f, indent=1)
    os.replace(evidence + ".tmp", evidence)


def replay(path):
    path = os.path.abspath(path)
    prop = None
    for line in open(path):
        if line.startswith("property:"):
            prop = line.split()[1]
    c = CHECKS[prop]
    if "command" in c:
        return subprocess.run([sys.executable, os.path.join(HARNESS, c["command"]), prop, "--replay", path], env=environment()).returncode
    bins, err = build([prop])
    if bins is None:
        sys.stderr.write(err)
        return 2
    d = tempfile.mkdtemp(prefix="verif-%s-" % prop, dir="/tmp")
    try:
        cmd = [bins[prop], "--dir", d, "--replay", path]
        for k in known(prop):
            cmd += ["--known", k]
        return subprocess.run(cmd, env=environment(), cwd=d).returncode
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if len(a) >= 2 and a[0] == "check":
        return check(a[1], a[2:])
    if len(a) == 2 and a[0] == "replay":
        return replay(a[1])
    if len(a) >= 1 and a[0] == "build":
        bins, err = build(a[1:] or [k for k, c in CHECKS.items() if "command" not in c])
        if err:
            sys.stderr.write(err + "\n")
            return 2
        return 0
    if a == ["list"]:
        print("\n".join(CHECKS))
        return 0
    sys.stderr.write(__doc__)
    return 2


sys.exit(main())
