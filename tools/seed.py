"""Write planted bugs into /verif/seeded and confirm them in a scratch worktree of /repo.

    seed.py make SPEC.py [ID...]   write patch.diff, demo.sh, demo.cpp and meta.json for each bug of the spec
    seed.py validate [ID...]       builds, stable tests pass, demo 0 without and nonzero with the patch
    seed.py caught [ID...]         does the quick check of the bug's property report it?

SPEC.py defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo)].
"""
import json, os, subprocess, sys, tempfile, runpy

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.environ.get('SEEDED', os.path.join(VERIF, 'seeded'))
TREE = os.environ.get('PLANT_TREE', '/tmp/plant')

DEMO = '''#!/bin/bash
# Builds demo.cpp against the library of the current directory and runs it in a scratch directory.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
g++ -std=c++20 -O1 -w -pthread -I "$repo" "$here/demo.cpp" "$repo/_build/libfly.a" -o "$scratch/demo" || exit 2
cd "$scratch"
timeout 120 ./demo
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def reset():
    sh(f'git -C {TREE} checkout -q -- . && git -C {TREE} clean -fdq -e _build')


def make(spec, ids):
    for bug in runpy.run_path(spec)['BUGS']:
        if ids and bug['id'] not in ids:
            continue
        reset()
        for path, old, new in bug['edits']:
            full = os.path.join(TREE, path)
            text = open(full).read()
            if text.count(old) != 1:
                sys.exit(f"{bug['id']}: {path}: {text.count(old)} matches of {old!r}")
            open(full, 'w').write(text.replace(old, new))
        diff = sh(f'git -C {TREE} diff').stdout
        reset()
        out = os.path.join(SEEDED, bug['id'])
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, 'patch.diff'), 'w').write(diff)
        open(os.path.join(out, 'demo.sh'), 'w').write(bug.get('sh', DEMO))
        os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        open(os.path.join(out, 'demo.cpp'), 'w').write(bug['demo'].lstrip('\n'))
        json.dump({'property': bug['property'], 'needs': bug['needs'], 'what_it_breaks': bug['breaks']},
                  open(os.path.join(out, 'meta.json'), 'w'), indent=1)


def build():
    return sh(f'make -f /opt/vp/libfly.mk SOURCE_ROOT={TREE} -j8 libfly tests', cwd=TREE)


def demo(bug):
    # The demonstration lies elsewhere when it counts.
    with tempfile.TemporaryDirectory() as where:
        sh(f'cp {SEEDED}/{bug}/* {where}/ && rm -f {where}/*.diff {where}/meta.json')
        return sh(f'timeout 300 bash {where}/demo.sh', cwd=TREE)


def tests():
    sh(f'mkdir -p _build/results; export LC_ALL=C.UTF-8 RES_OPTIONS="timeout:1 attempts:1"; python3 /opt/vp/run_tests.py {TREE}/_build/libfly_unit_tests _build/results/lines.txt _build/results/log.txt; '
       'python3 /opt/vp/results.py /tmp/plant.json lines:_build/results/lines.txt', cwd=TREE)
    return sh(f'python3 {VERIF}/tools/cmp_tests.py /tmp/plant.json')


def validate(ids):
    reset()
    assert build().returncode == 0
    bad = []
    clean = {b: demo(b) for b in ids}
    for b in ids:
        reset()
        r = sh(f'git -C {TREE} apply {SEEDED}/{b}/patch.diff')
        problems = []
        if r.returncode:
            problems.append('patch: ' + r.stdout)
        elif (r := build()).returncode:
            problems.append('build: ' + r.stdout[-1500:])
        else:
            if tests().returncode and (r := tests()).returncode:
                problems.append('tests: ' + r.stdout)
            r = demo(b)
            if r.returncode in (0, 2):
                problems.append(f'demo with patch: {r.returncode} ' + r.stdout[-500:])
        if clean[b].returncode:
            problems.append('demo without patch: ' + clean[b].stdout[-1500:])
        print(b, 'ok' if not problems else '\n  '.join(['BAD'] + problems), flush=True)
        bad += [b] if problems else []
    reset()
    build()
    return bad


def caught(ids):
    missed = []
    for b in ids:
        reset()
        sh(f'git -C {TREE} apply {SEEDED}/{b}/patch.diff')
        prop = json.load(open(f'{SEEDED}/{b}/meta.json'))['property']
        env = dict(os.environ, VERIF_REPO=TREE, VERIF_BUILD='/tmp/pbuild', VERIF_SEED='1', VERIF_TIER='quick')
        r = sh(f'python3 run.py check {prop}', cwd=VERIF, env=env)
        hit = r.returncode == 1 and f'VIOLATION property={prop} ' in r.stdout
        lines = [l for l in r.stdout.splitlines() if l.strip()]
        print(b, prop, 'caught' if hit else f'MISSED ({r.returncode})', '|', (lines or [''])[-1][:160], flush=True)
        missed += [] if hit else [b]
    reset()
    return missed


if __name__ == '__main__':
    what, rest = sys.argv[1], sys.argv[2:]
    if what == 'make':
        make(rest[0], rest[1:])
    else:
        ids = rest or sorted(d for d in os.listdir(SEEDED) if os.path.isdir(os.path.join(SEEDED, d)))
        sys.exit(bool({'validate': validate, 'caught': caught}[what](ids)))
