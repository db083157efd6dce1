#!/usr/bin/env python3
"""Turn seed descriptions into seeded/<id>/ after confirming them:  mkseed.py FILE.py [IDS...]

FILE.py defines SEEDS, a list of dicts with id, prop, needs, breaks, changes [(file below src/tenkit, old, new)] and demo
(Python source that exits with an error where the property is broken).  A seed is kept when its patch only replaces
original lines, the stable tests pass on a patched copy, and the demo passes without and fails with it.  It then runs
the property's check on the patched copy.  Development aid; no registered check uses it."""
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '2d69621'
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1')
SH = '#!/bin/sh\nhere=$(cd "$(dirname "$0")" && pwd)\nexec /opt/venv/bin/python "$here/demo.py"\n'


def sh(*cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def tests(tmp):
    out = tmp + '/junit.xml'
    subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', '--continue-on-collection-errors', '-n', '2',
                    '--randomly-seed=0', '--randomly-dont-reorganize', '-o', 'junit_family=xunit2', '--junitxml=' + out, 'src'],
                   cwd=tmp + '/repo', env=dict(ENV, PYTHONPATH=tmp + '/repo/src'), capture_output=True)
    passed = set()
    for c in ET.parse(out).iter('testcase'):
        if not any(k.tag in ('failure', 'error', 'skipped') for k in c):
            passed.add(f"{c.get('classname')}::{c.get('name')}")
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    return sorted(stable - passed)


def one(s):
    tmp = tempfile.mkdtemp(prefix='seed_')
    try:
        sh('git', 'clone', '-q', '/repo', tmp + '/repo')
        for f, old, new in s['changes']:
            path = f'{tmp}/repo/src/tenkit/{f}'
            t = open(path, newline='').read()
            crlf = '\r\n' in t
            t = t.replace('\r\n', '\n')
            if t.count(old) != 1:
                return s['id'], f'{f}: {t.count(old)} places match {old[:50]!r}'
            t = t.replace(old, new)
            open(path, 'w', newline='').write(t.replace('\n', '\r\n') if crlf else t)
        files = sorted({'src/tenkit/' + c[0] for c in s['changes']})
        note = ''
        for f in files:     # which lines does it replace, and are they original?
            mine = set()
            for line in sh('git', 'blame', '-l', 'HEAD', '--', f, cwd=tmp + '/repo').stdout.splitlines():
                commit = line.split()[0].lstrip('^')
                n = int(re.search(r'(\d+)\)', line).group(1))
                if sh('git', 'merge-base', '--is-ancestor', commit, BASE, cwd=tmp + '/repo').returncode:
                    mine.add(n)
            for h in re.findall(r'^@@ -(\d+)(?:,(\d+))? ', sh('git', 'diff', '-U0', '--', f, cwd=tmp + '/repo').stdout, re.M):
                n, k = int(h[0]), int(h[1] or 1)
                if k == 0:
                    note += ' (pure addition)'
                elif set(range(n, n + k)) & mine:
                    note += f' NOT ORIGINAL {f}:{sorted(set(range(n, n + k)) & mine)}'
        patch = subprocess.run(['git', 'diff'], cwd=tmp + '/repo', capture_output=True).stdout
        dst = os.path.join(HERE, 'seeded', s['id'])
        shutil.rmtree(dst, ignore_errors=True)
        d = tmp + '/demo'
        os.makedirs(d)
        open(d + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
        open(d + '/demo.sh', 'w').write(SH)
        good = sh('sh', d + '/demo.sh', cwd='/repo', env=ENV)
        bad = sh('sh', d + '/demo.sh', cwd=tmp + '/repo', env=dict(ENV, PYTHONPATH=tmp + '/repo/src'))
        if good.returncode or not bad.returncode:
            return s['id'], f'demo: exit {good.returncode} unchanged, {bad.returncode} patched\n' + good.stderr[-600:] + bad.stdout[-300:]
        failing = tests(tmp)
        if failing:
            return s['id'], f'tests fail: {failing[:3]}' + note
        os.makedirs(dst)
        open(dst + '/patch.diff', 'wb').write(patch)
        for f in ('demo.py', 'demo.sh'):
            shutil.copy(f'{d}/{f}', dst)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(dst + '/meta.json', 'w'), indent=1)
        shutil.copytree(HERE, tmp + '/verif', ignore=shutil.ignore_patterns('.git', 'seeded', 'out', 'evidence'))
        p = sh('python3', tmp + '/verif/run.py', s['prop'], env=dict(ENV, VERIF_REPO=tmp + '/repo'))
        last = [x for x in p.stdout.splitlines() if 'broken:' in x]
        return s['id'], f'kept; demo: {bad.stderr.strip().splitlines()[-1][:90] if bad.stderr.strip() else ""}; check exit {p.returncode} {last[0].strip() if last else ""}' + note
    finally:
        shutil.rmtree(tmp)


seeds = runpy.run_path(sys.argv[1])['SEEDS']
if sys.argv[2:]:
    seeds = [s for s in seeds if s['id'] in sys.argv[2:]]
with ThreadPoolExecutor(3) as pool:
    for i, r in pool.map(one, seeds):
        print(i, '->', r, flush=True)
