#!/usr/bin/env python3
"""Confirms planted changes and keeps them under /verif/seeded.

usage: plant.py SPEC.py [id ...] [--no-tests]
SPEC.py defines BUGS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)]"""
import json, os, runpy, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith('--')]
flags = [a for a in sys.argv[1:] if a.startswith('--')]
BUGS = runpy.run_path(args[0])['BUGS']
if args[1:]:
    BUGS = [b for b in BUGS if b['id'] in args[1:]]
STABLE = json.load(open('/opt/vp/BASELINE.json'))['stable']


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def one(b):
    w = f'/tmp/pl/{b["id"]}'
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs('/tmp/pl', exist_ok=True)
    shutil.copytree('/repo', w, symlinks=True)
    msg = []
    try:
        for f, old, new in b['edits']:
            p = f'{w}/src/sunwhere/{f}'
            s = open(p).read()
            n = b.get('count', {}).get(f, 1)
            if s.count(old) != n:
                return b['id'], f'EDIT: {f}: {s.count(old)} occurrences of {old!r}'
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git diff', cwd=w).stdout
        if "'PIN'" in b['demo']:
            # the values of the unchanged tree
            code = b['demo'].split('for engine in')[0]
            expr = [x for x in b['demo'].splitlines() if x.strip().startswith('v = ')][0].strip()
            r = sh('PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo/src /opt/venv/bin/python -W ignore -', input=code + "\nengine = 'numexpr'\n" + expr + '\nprint([float(x) for x in v])')
            b['demo'] = b['demo'].replace("'PIN'", r.stdout.strip() or 'FAILED')
        f = None
        for x in diff.splitlines():
            if x.startswith('--- a/'):
                f = sh(f'git show 4a16317:{x[6:]}', cwd='/repo').stdout.splitlines()
            elif x.startswith('-') and x[1:].strip() and x[1:] not in f:
                msg.append('NOT A LINE OF THE ORIGINAL: ' + x[:80])
        d = f'{V}/seeded/{b["id"]}'
        os.makedirs(d, exist_ok=True)
        open(f'{d}/patch.diff', 'w').write(diff)
        open(f'{d}/demo.py', 'w').write(b['demo'].strip('\n') + '\n')
        open(f'{d}/demo.sh', 'w').write('#!/bin/bash\n# run in the root of the repository\n'
                                        'PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src" exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        os.chmod(f'{d}/demo.sh', 0o755)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                  open(f'{d}/meta.json', 'w'), indent=1)
        r0 = sh(f'bash {d}/demo.sh', cwd='/repo')
        r1 = sh(f'bash {d}/demo.sh', cwd=w)
        msg.append(f'clean={r0.returncode} patched={r1.returncode}')
        if r0.returncode != 0:
            msg.append('CLEAN FAILS ' + (r0.stdout + r0.stderr)[-300:])
        if r1.returncode == 0:
            msg.append('PATCHED PASSES')
        else:
            msg.append((r1.stderr.strip().splitlines() or ['-'])[-1][:100])
        if '--no-tests' not in flags:
            t = sh(f'PYTHONDONTWRITEBYTECODE=1 PYTHONPATH={w}/src:/opt/vp/plugins /opt/venv/bin/python -m pytest -q -p no:cacheprovider -p vp_fixed_seed '
                   f'--timeout=300 -rA tests', cwd=w).stdout
            bad = [s for s in STABLE if f'PASSED tests/test_consistency.py::{s.split("::")[1]}' not in t]
            msg.append('tests ok' if not bad else f'TESTS FAIL {bad[:3]}')
        c = sh(f'SA_ROOT={w}/src SA_EVIDENCE=/tmp/pl/ev python3 -m sa.run {b["property"]} quick', cwd=V)
        out = c.stdout.splitlines()
        msg.append(f'check={c.returncode} ' + ' | '.join(x[:160] for x in out if not x.startswith(' '))[:420])
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return b['id'], '; '.join(msg)


with ThreadPoolExecutor(3) as ex:
    for i, m in ex.map(one, BUGS):
        print(f'[{i}] {m}', flush=True)
