#!/usr/bin/env python3
"""Try hand-written mutations on copies of /repo:  mutate.py FILE [IDS...]   (FILE: JSON lines with id, prop, file, old, new).

Development aid; no registered check uses it."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(m):
    tmp = tempfile.mkdtemp(prefix='mut_')
    try:
        shutil.copytree(os.environ.get('MUTATE_REPO', '/repo') + '/src', tmp + '/src')
        shutil.copytree(HERE, tmp + '/verif', ignore=shutil.ignore_patterns('.git', 'seeded', 'out', 'evidence'))
        for ch in m.get('changes', [m]):
            path = f'{tmp}/src/tenkit/{ch["file"]}'
            s = open(path, newline='').read()
            crlf = '\r\n' in s
            t = s.replace('\r\n', '\n')
            if t.count(ch['old']) != 1:
                return m['id'], f'{t.count(ch["old"])} places match'
            t = t.replace(ch['old'], ch['new'])
            open(path, 'w', newline='').write(t.replace('\n', '\r\n') if crlf else t)
        res = []
        for prop in m['prop'].split():
            p = subprocess.run(['python3', tmp + '/verif/run.py', prop], env=dict(os.environ, VERIF_REPO=tmp), capture_output=True, text=True)
            last = [x for x in p.stdout.splitlines() if 'broken:' in x]
            res.append(f'{prop}: exit {p.returncode} ' + (last[0].strip() if last else '' if p.returncode != 2 else p.stdout[-300:]))
        return m['id'], ' | '.join(res)
    finally:
        shutil.rmtree(tmp)


ms = [json.loads(x) for x in open(sys.argv[1]) if x.strip()]
if sys.argv[2:]:
    ms = [m for m in ms if m['id'] in sys.argv[2:]]
with ThreadPoolExecutor(3) as pool:
    for i, r in pool.map(one, ms):
        print(i, '->', r, flush=True)
