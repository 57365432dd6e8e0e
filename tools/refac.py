#!/usr/bin/env python3
"""Runs the checks on edits that keep the behaviour: none may raise an alarm or give up.

usage: refac.py SPEC.py [id ...] [--checks=C01,C02] [--each]
SPEC.py defines EDITS = [dict(id, edits=[(file, old, new)])]; all given edits are applied together unless --each."""
import os, runpy, shutil, subprocess, sys, json
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith('--')]
opt = dict(a[2:].split('=') if '=' in a else (a[2:], '1') for a in sys.argv[1:] if a.startswith('--'))
E = runpy.run_path(args[0])['EDITS']
if args[1:]:
    E = [e for e in E if e['id'] in args[1:]]
CHECKS = opt['checks'].split(',') if 'checks' in opt else [c['property_id'] if 'property_id' in c else c['property'] for c in json.load(open(f'{V}/MANIFEST.json'))['checks']]
STABLE = json.load(open('/opt/vp/BASELINE.json'))['stable']


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def run(label, es):
    w = f'/tmp/rf/{label}'
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs('/tmp/rf', exist_ok=True)
    shutil.copytree('/repo', w, symlinks=True)
    try:
        for e in es:
            for f, old, new in e['edits']:
                p = f'{w}/src/sunwhere/{f}'
                s = open(p).read() if os.path.exists(p) else ''
                if old is None:
                    open(p, 'w').write(new)
                    continue
                n = s.count(old)
                if not n or 'count' not in e and n != 1:
                    print(f'[{e["id"]}] EDIT: {f}: {n} occurrences of {old[:70]!r}')
                    return
                open(p, 'w').write(s.replace(old, new))
        if 'notests' not in opt or not CHECKS[0]:
            t = sh(f'PYTHONDONTWRITEBYTECODE=1 PYTHONPATH={w}/src:/opt/vp/plugins /opt/venv/bin/python -m pytest -q -p no:cacheprovider -p vp_fixed_seed '
                   f'--timeout=300 -rA tests', cwd=w).stdout
            bad = [s for s in STABLE if f'PASSED tests/test_consistency.py::{s.split("::")[1]}' not in t]
            print(f'[{label}]', 'tests ok' if not bad else f'TESTS FAIL {bad[:3]}', flush=True)
            if bad:
                print(t[-1500:])
            g = sh(f'PYTHONDONTWRITEBYTECODE=1 PYTHONPATH={w}/src /opt/venv/bin/python -W ignore {V}/tools/golden.py /tmp/rf/golden.npz check', cwd=w)
            print(f'[{label}] golden', g.stdout.strip()[-600:], g.stderr.strip()[-600:], flush=True)
            if any('jpl' in f for e in es for f, _, _ in e['edits']):
                g = sh(f'PYTHONDONTWRITEBYTECODE=1 PYTHONPATH={w}/src /opt/venv/bin/python -W ignore {V}/tools/jpl_golden.py', cwd=w)
                print(f'[{label}] jpl', g.stdout.strip()[-600:], g.stderr.strip()[-600:], flush=True)
        for c in filter(None, CHECKS):
            r = sh(f'SA_ROOT={w}/src SA_EVIDENCE=/tmp/rf/ev{label} python3 -m sa.run {c} quick', cwd=V)
            if r.returncode:
                print(f'[{label}] {c} = {r.returncode}', flush=True)
                for x in [x for x in r.stdout.splitlines() if not x.startswith(' ')][:4]:
                    print('      ', x[:500])
                if r.returncode not in (1, 2):
                    print(r.stderr[-800:])
    finally:
        shutil.rmtree(w, ignore_errors=True)


if not os.path.exists('/tmp/rf/golden.npz'):
    os.makedirs('/tmp/rf', exist_ok=True)
    print(sh(f'PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo/src /opt/venv/bin/python -W ignore {V}/tools/golden.py /tmp/rf/golden.npz make', cwd='/repo'))
if 'each' in opt:
    with ThreadPoolExecutor(int(opt.get('workers', 2))) as ex:
        list(ex.map(lambda e: run(e['id'], [e]), E))
else:
    run('all', E)
