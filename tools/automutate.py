#!/usr/bin/env python3
"""Systematic mutation of /repo/src (development aid; no registered check uses it).

automutate.py OUT.jsonl [N [SEED]]   draws N of all single-site mutants, runs the checks responsible for the file one
after the other until one reports a violation, and appends one line per mutant; survivors are then reviewed by hand.
automutate.py OUT.jsonl N SEED OLD.jsonl  judges the survivors of an earlier pass again, with every property."""
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import threading
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = '/repo/src/tenkit/'
BASE = '/tmp/automutate_base'
EVERY = False
BASES = {}
sys.path.insert(0, HERE)
import run  # noqa: E402
FILES = {
    'base.py': 'C03 C04 C07 C27 C10 C08 C09 C19',
    'decomposition/decompositions.py': 'C05 C02 C06 C26 C01 C17 C15 C24 C09 C20',
    'decomposition/cp.py': 'C07 C17 C12 C08 C11 C14 C26 C13 C16 C15 C09',
    'decomposition/cmtf.py': 'C10 C11 C12 C14 C13 C26 C15 C16 C17',
    'decomposition/parafac2.py': 'C09 C17 C11 C12 C14 C13 C26 C15 C16',
    'decomposition/base_decomposer.py': 'C12 C14 C15 C16 C25 C13 C11 C17 C27',
    'decomposition/logging/logger.py': 'C16 C14 C25 C12',
    'log.py': 'C21 C22',
    'metrics.py': 'C18 C20',
    'utils.py': 'C19 C27 C23 C18 C24',
}
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.FloorDiv: '/', ast.Mod: '//', ast.Pow: '*'}
CALLS = {'min': 'max', 'max': 'min', 'argmin': 'argmax', 'argmax': 'argmin', 'sum': 'mean', 'mean': 'sum', 'abs': '(lambda x: x)', 'any': 'all', 'all': 'any',
         'ones': 'zeros', 'zeros': 'ones', 'copy': 'asarray', 'append': 'insert', 'prod': 'sum', 'norm': 'max', 'sqrt': 'abs'}


def mutants(path):
    src = open(SRC + path, newline='').read().replace('\r\n', '\n')
    tree = ast.parse(src)
    starts = [0]
    for line in src.split('\n'):
        starts.append(starts[-1] + len(line.encode()) + 1)
    raw = src.encode()
    pos = lambda l, c: starts[l - 1] + c
    seg = lambda n: raw[pos(n.lineno, n.col_offset):pos(n.end_lineno, n.end_col_offset)].decode()
    out = []

    def put(n, new, what):
        out.append((path, n.lineno, pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset), new, what))
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            skip.add(n.body[0])
            skip.add(n.body[0].value)
        if isinstance(n, ast.Raise) or (isinstance(n, ast.Call) and getattr(n.func, 'id', '') == 'print'):
            skip |= set(ast.walk(n)) - {n}
        if isinstance(n, ast.JoinedStr):
            skip |= set(ast.walk(n))
    for n in ast.walk(tree):
        if n in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            put(n, f'{seg(n.left)} {CMP[type(n.ops[0])]} {seg(n.comparators[0])}', 'compare')
        elif isinstance(n, ast.BinOp):
            if type(n.op) in BIN:
                put(n, f'({seg(n.left)} {BIN[type(n.op)]} {seg(n.right)})', 'operator')
            if isinstance(n.op, ast.MatMult):
                put(n, f'({seg(n.right)} @ {seg(n.left)})', 'swap')
        elif isinstance(n, ast.BoolOp):
            op = ' or ' if isinstance(n.op, ast.And) else ' and '
            put(n, '(' + op.join(seg(v) for v in n.values) + ')', 'bool')
            for v in n.values:
                put(n, '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join(seg(x) for x in n.values if x is not v) + ')', 'bool part')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            put(n, f'({seg(n.operand)})', 'unary')
        elif isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                put(n, str(not n.value), 'bool const')
            elif isinstance(n.value, (int, float)):
                put(n, repr(n.value + 1), 'const+1')
                if n.value:
                    put(n, repr(n.value - 1) if isinstance(n.value, int) else '0.0', 'const-1')
        elif isinstance(n, ast.If):
            put(n.test, 'True', 'if true')
            put(n.test, 'False', 'if false')
        elif isinstance(n, ast.IfExp):
            put(n.test, 'True', 'ifexp true')
            put(n.test, 'False', 'ifexp false')
        elif isinstance(n, ast.Attribute) and n.attr == 'T':
            put(n, seg(n.value), 'no .T')
        elif isinstance(n, ast.Call):
            f = n.func
            name = f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', '')
            if name in CALLS:
                new = CALLS[name]
                if name in ('abs', 'copy') and n.args:
                    put(n, seg(n.args[0]), 'no ' + name)
                elif name == 'copy':
                    put(n, seg(f.value), 'no copy')
                elif isinstance(f, ast.Attribute):
                    put(f, seg(f.value) + '.' + new, name)
                else:
                    put(f, new, name)
            for k in n.keywords:
                if k.arg:
                    s = raw[pos(n.lineno, n.col_offset):pos(n.end_lineno, n.end_col_offset)].decode()
                    t = s.replace(f'{k.arg}={seg(k.value)}', '', 1).replace(', ,', ',').replace('(, ', '(')
                    if t != s:
                        put(n, t, 'no keyword ' + k.arg)
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                a, b = n.args[:2]
                s = raw[pos(a.lineno, a.col_offset):pos(b.end_lineno, b.end_col_offset)].decode()
                mid = raw[pos(a.end_lineno, a.end_col_offset):pos(b.lineno, b.col_offset)].decode()
                out.append((path, n.lineno, pos(a.lineno, a.col_offset), pos(b.end_lineno, b.end_col_offset), seg(b) + mid + seg(a), 'swap args'))
        elif isinstance(n, (ast.Expr, ast.AugAssign, ast.Raise, ast.Continue, ast.Break)):
            put(n, 'pass', 'delete')
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            put(n, 'pass', 'delete')
        elif isinstance(n, ast.Return) and n.value is not None:
            put(n, 'return None', 'return none') if False else None
    return src, out


def drive(prop, tree, work):
    """Events of the quick tier on a tree, by session; behaviours.txt must be in the work directory."""
    env = dict(run.ENV, VERIF_TIER='quick', VERIF_SEED='1', VERIF_WORK=work, VERIF_REPO=tree)
    events = os.path.join(work, 'events.ndjson')
    try:
        p = subprocess.run([run.PYTHON, os.path.join(HERE, 'harness', 'drive.py'), run.CHECKS[prop]['driver'], prop, 'quick', '1', events],
                           env=env, capture_output=True, text=True, timeout=300, cwd=work)
        ok = p.returncode == 0
    except subprocess.TimeoutExpired:
        ok = False
    out = {}
    for line in open(events).read().split('\n')[:-1] if os.path.exists(events) else []:
        s = int(re.search(r'"sid":\s*(-?\d+)', line).group(1))
        out.setdefault(s, []).append(line)
    return out, ok


def baseline(prop):
    work = os.path.join(BASE, prop)
    os.makedirs(work, exist_ok=True)
    cfg = run.CHECKS[prop]
    if 'behaviours' in cfg:
        module, config, depth = cfg['behaviours']
        out = run.tlc(module + '.tla', config + '.cfg', extra=['-simulate', f"num={cfg.get('num', (60, 600))[0]}", '-depth', str(depth), '-seed', '1'])
        with open(os.path.join(work, 'behaviours.txt'), 'w') as f:
            f.write('\n'.join(dict.fromkeys(re.findall(r'"BEH (.*?) END"', out))) + '\n')
    a, ok = drive(prop, '/repo', work)
    b, ok2 = drive(prop, '/repo', work)
    noisy = [s for s in a if a[s] != b.get(s)]
    print(prop, len(a), 'sessions', 'noisy:' if noisy else '', [json.loads(a[s][0])['label'] for s in noisy][:5], '' if ok and ok2 else 'FAILED', flush=True)
    return prop, (a, set(noisy))


def judge(prop, tree, base):
    """The first broken clause of the check of prop on a tree ('' if there is none)."""
    work = tempfile.mkdtemp(prefix='mutw_')
    try:
        src = os.path.join(BASE, prop, 'behaviours.txt')
        if os.path.exists(src):
            shutil.copy(src, work)
        got, ok = drive(prop, tree, work)
        if not ok:
            return 'driver crashed'
        old, noisy = base
        for s in sorted(got):
            for line in got[s]:
                if '"op": "crash"' in line and line not in old.get(s, []):
                    return 'crash ' + json.loads(line).get('what', '')[:80]
        diff = [s for s in sorted(got) if s not in noisy and got[s] != old.get(s)]
        for lo, hi in ((0, 6), (6, 40), (40, 10**6)):
            if not diff[lo:hi]:
                break
            path = os.path.join(work, 'd.ndjson')
            lines = [x for s in diff[lo:hi] for x in got[s]]
            with open(path, 'w') as f:
                f.write('\n'.join(lines) + '\n')
            bad, done, _, err = run.validate(run.CHECKS[prop]['conf'], path)
            for i, c in bad:
                m = re.match(r'(C\d\d)_', c)
                if not m or m.group(1) == prop:
                    return f'{json.loads(lines[i])["label"]} {c}'
            if err:
                return 'MACHINERY ' + err[-200:]
        return ''
    finally:
        shutil.rmtree(work)


def one(job):
    path, src, m = job
    tmp = tempfile.mkdtemp(prefix='mut_')
    try:
        raw = src.encode()
        t = (raw[:m[2]] + m[4].encode() + raw[m[3]:]).decode()
        try:
            ast.parse(t)
        except SyntaxError:
            return None
        shutil.copytree('/repo/src', tmp + '/src')
        with open(f'{tmp}/src/tenkit/{path}', 'w') as f:
            f.write(t)
        line = src.split('\n')[m[1] - 1].strip()
        rec = {'file': path, 'line': m[1], 'what': m[5], 'src': line, 'old': raw[m[2]:m[3]].decode(), 'new': m[4], 'caught': ''}
        mapped = FILES[path].split()
        for prop in ([p for p in sorted(run.CHECKS) if p not in mapped] + mapped) if EVERY else mapped:
            why = judge(prop, tmp, BASES[prop])
            if why:
                rec['caught'] = prop + ' ' + why
                break
        return rec
    finally:
        shutil.rmtree(tmp)


def main():
    global EVERY
    out = sys.argv[1]
    jobs = []
    for path in FILES:
        src, ms = mutants(path)
        jobs += [(path, src, m) for m in ms]
    print(len(jobs), 'mutants in all')
    again = None
    if len(sys.argv) > 4:  # only the survivors of an earlier pass, with every property
        again = {(r['file'], r['line'], r['old'], r['new']) for r in map(json.loads, open(sys.argv[4])) if not r['caught'] or 'MACHINERY' in r['caught']}
        jobs = [j for j in jobs if (j[0], j[2][1], j[1].encode()[j[2][2]:j[2][3]].decode(), j[2][4]) in again]
        EVERY = True
    random.Random(int(sys.argv[3]) if len(sys.argv) > 3 else 1).shuffle(jobs)
    jobs = jobs[:int(sys.argv[2])] if len(sys.argv) > 2 else jobs
    done = set()
    if os.path.exists(out):
        done = {(r['file'], r['line'], r['old'], r['new']) for r in map(json.loads, open(out))}
    jobs = [j for j in jobs if (j[0], j[2][1], j[1].encode()[j[2][2]:j[2][3]].decode(), j[2][4]) not in done]
    with ThreadPoolExecutor(6) as pool:
        BASES.update(pool.map(baseline, sorted(run.CHECKS) if EVERY else sorted({p for f, _, _ in jobs for p in FILES[f].split()})))
    lock = threading.Lock()
    with ThreadPoolExecutor(7) as pool:
        for r in pool.map(one, jobs):
            if r:
                with lock, open(out, 'a') as f:
                    f.write(json.dumps(r) + '\n')


if __name__ == '__main__':
    main()
