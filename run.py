#!/usr/bin/env python3
"""Decide one property:  run.py C07   (tier and seed from VERIF_TIER, VERIF_SEED).

1. model check the specification (where the property has a state machine),
2. drive the real code in /repo and record traces,
3. let TLC validate every trace event against the conformance specification,
4. write evidence/<id>.json and report.
"""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
PYTHON = '/opt/venv/bin/python'
SPEC = os.path.join(HERE, 'spec')
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1'))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
           MKL_NUM_THREADS='1', PYTHONHASHSEED='0')
DRIVE_LIMIT = 360 if TIER == 'quick' else 5400
TLC_LIMIT = 420 if TIER == 'quick' else 7200


def java_classes():
    """Compile the (optional) Java versions of the arithmetic; without them TLC uses the TLA+ definitions."""
    src = os.path.join(HERE, 'java', 'Fx.java')
    tag = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(HERE, '.build', tag)
    if os.path.exists(os.path.join(out, 'Fx.class')):
        return out
    os.makedirs(os.path.join(HERE, '.build'), exist_ok=True)
    tmp = tempfile.mkdtemp(dir=os.path.join(HERE, '.build'))
    p = subprocess.run(['javac', '-cp', JARS, '-d', tmp, src], capture_output=True, text=True)
    if p.returncode:
        print('note: javac failed, using the pure TLA+ arithmetic')
        return None
    try:
        os.rename(tmp, out)
    except OSError:
        pass
    return out


def tlc(module, config, env=None, extra=(), workers='1', heap='2g', limit=None):
    meta = tempfile.mkdtemp(prefix='tlc_')
    cp = JARS
    classes = java_classes()
    if classes:
        cp = classes + ':' + cp
    cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-Xmx' + heap, '-Xss64m', '-cp', cp, 'tlc2.TLC', '-metadir', meta,
           '-workers', workers, '-noGenerateSpecTE', '-config', config, *extra, module]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=dict(ENV, **(env or {})), capture_output=True, text=True,
                           timeout=limit or TLC_LIMIT)
        return p.stdout + p.stderr
    except subprocess.TimeoutExpired as e:
        return (e.stdout or b'').decode(errors='replace') + '\nTLC-TIMEOUT'
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def stats(out):
    m = re.findall(r'(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found', out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def model_check(name, notes):
    """Exhaustive check of a specification; a failure here is a failure of the machinery."""
    module, config = name if isinstance(name, tuple) else (name, name)
    t = time.time()
    out = tlc(module + '.tla', config + '.cfg', workers='4', heap='6g')
    gen, dist = stats(out)
    ok = 'No error has been found' in out
    notes.append({'model': config, 'states_generated': gen, 'distinct_states': dist, 'ok': ok,
                  'wall_s': round(time.time() - t, 1)})
    if not ok:
        print(out[-3000:])
    return ok, gen, dist


def validate(conf, path):
    """Validate one trace file; returns (bad clauses, validated events, (generated, distinct), machinery error)."""
    bad, skip = [], set()
    lines = open(path).read().splitlines()
    gen = dist = done = 0
    while True:
        live = [i for i in range(len(lines)) if i not in skip]
        if not live:
            return bad, done, (gen, dist), ''
        tmp = path + '.live'
        with open(tmp, 'w') as f:
            f.write('\n'.join(lines[i] for i in live) + '\n')
        out = tlc(conf + '.tla', 'Conf.cfg', env={'TRACE': tmp})
        g, d = stats(out)
        gen, dist = gen + g, dist + d
        for i, c in re.findall(r'<<"BAD", (\d+), "([^"]*)">>', out):
            bad.append((live[int(i) - 1], c))
        m = re.search(r'<<"DONE", (\d+)>>', out)
        if m and int(m.group(1)) == len(live) and 'No error has been found' in out:
            return bad, done + len(live), (gen, dist), ''
        # TLC could not evaluate an event: the recorded values have no meaning in the specification
        m = re.findall(r'^\s*/\\ l = (\d+)|^l = (\d+)', out, re.M)
        m2 = re.findall(r'<<"AT", (\d+)>>', out)
        if 'TLC-TIMEOUT' in out or not (m or m2) or len(skip) > 20 or 'OutOfMemory' in out:
            return bad, done, (gen, dist), out[-3000:]
        k = max(int(x or y) for x, y in m) if m else int(m2[-1])
        why = re.findall(r'(?:Error: |Attempted|The exception was)[^\n]*', out)
        bad.append((live[k - 1], 'event cannot be interpreted: ' + ' '.join(why)[:300]))
        # drop the rest of the session of that event
        sid = json.loads(lines[live[k - 1]])['sid']
        drop = {i for i in live[k - 1:] if json.loads(lines[i])['sid'] == sid}
        done += len(drop)
        skip |= drop | {i for i in live[:k - 1]}
        done += k - 1


def known_findings(prop):
    found = []
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line.strip())
            if m and m.group(1) == prop:
                found.append((m.group(2), m.group(3)))
    return found


def setup():
    """Compile the arithmetic and show that it agrees with its TLA+ definition."""
    if java_classes() is None:
        return 1
    outs = []
    for cp in (java_classes() + ':' + JARS, JARS):
        meta = tempfile.mkdtemp(prefix='tlc_')
        p = subprocess.run(['java', '-Xss64m', '-cp', cp, 'tlc2.TLC', '-metadir', meta, '-config', 'MC_Fx.cfg', 'MC_Fx.tla'],
                           cwd=SPEC, env=ENV, capture_output=True, text=True)
        shutil.rmtree(meta, ignore_errors=True)
        m = re.search(r'^<<.*?(?=^Computing initial)', p.stdout, re.S | re.M)
        outs.append((m.group(0) if m and 'No error has been found' in p.stdout else p.stdout).splitlines())
    same = outs[0] == outs[1] and len(outs[0]) > 100
    print('arithmetic: compiled and TLA+ versions', 'agree on' if same else 'DISAGREE on', len(outs[0]), 'results')
    return 0 if same else 1


def main():
    prop = sys.argv[1]
    if prop == '--setup':
        return setup()
    cfg = CHECKS[prop]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix=f'verif_{prop}_')
    notes, samples = [], []
    states = transitions = 0
    machinery = ''
    try:
        java_classes()
        pool = ThreadPoolExecutor(max_workers=8)
        models = [pool.submit(model_check, m, notes) for m in cfg.get('models', [])]
        if TIER == 'thorough':
            models += [pool.submit(model_check, m, notes) for m in cfg.get('thorough_models', [])]
        env = dict(ENV, VERIF_TIER=TIER, VERIF_SEED=str(SEED), VERIF_WORK=work)
        gen_stats = (0, 0)
        if 'behaviours' in cfg:   # behaviours of the specification that the driver replays on the code
            module, config, depth = cfg['behaviours']
            n = cfg.get('num', (60, 600))[TIER == 'thorough']
            out = tlc(module + '.tla', config + '.cfg', workers='1',
                      extra=['-simulate', f'num={n}', '-depth', str(depth), '-seed', str(SEED)])
            beh = re.findall(r'"BEH (.*?) END"', out)
            with open(os.path.join(work, 'behaviours.txt'), 'w') as f:
                f.write('\n'.join(dict.fromkeys(beh)) + '\n')
            if not beh:
                machinery = 'no behaviours generated:\n' + out[-2000:]
        events = os.path.join(work, 'events.ndjson')
        crashed = ''
        try:
            p = subprocess.run([PYTHON, os.path.join(HERE, 'harness', 'drive.py'), cfg['driver'], prop, TIER, str(SEED), events],
                               env=env, capture_output=True, text=True, timeout=DRIVE_LIMIT, cwd=work)
            if p.returncode or 'EVENTS' not in p.stdout:
                crashed = f'driver ended with {p.returncode}: {p.stderr[-1500:]}'
        except subprocess.TimeoutExpired:
            crashed = 'driver ran out of time'
        lines = open(events).read().split('\n')[:-1] if os.path.exists(events) else []
        if crashed:
            print('note:', crashed)
            lines.append(json.dumps({'op': 'crash', 'what': crashed[:300], 'where': 'driver', 'exc': '', 'sid': -1, 'label': 'driver'}))
        drive_s = time.time() - t0
        # shards of whole sessions, balanced by size
        sessions = {}
        for i, line in enumerate(lines):
            m = re.search(r'"sid":\s*(-?\d+)', line)
            sessions.setdefault(int(m.group(1)), []).append(i)
        nshards = max(1, min(8, os.cpu_count() or 1, len(sessions)))
        shards = [[0, []] for _ in range(nshards)]
        for s in sorted(sessions, key=lambda s: -sum(len(lines[i]) for i in sessions[s])):
            small = min(shards, key=lambda sh: sh[0])
            small[0] += sum(len(lines[i]) for i in sessions[s]) + 2000
            small[1] += sessions[s]
        jobs = []
        for n, (_, idx) in enumerate(shards):
            idx.sort()
            path = os.path.join(work, f'shard{n}.ndjson')
            with open(path, 'w') as f:
                f.write('\n'.join(lines[i] for i in idx) + '\n')
            jobs.append((idx, pool.submit(validate, cfg['conf'], path)))
        bad, validated = [], 0
        for idx, job in jobs:
            b, done, (g, d), err = job.result()
            bad += [(idx[i], c) for i, c in b]
            validated += done
            states += d
            transitions += g
            machinery = machinery or err
        for m in models:
            ok, g, d = m.result()
            states += d
            transitions += g
            if not ok:
                machinery = machinery or 'model checking of the specification failed'
        pool.shutdown()

        parsed = {i: json.loads(lines[i]) for i in {i for i, _ in bad}}
        known = known_findings(prop)
        elsewhere = []
        new, seen_known = [], {}
        for i, clause in sorted(set(bad)):
            other = re.match(r'(C\d\d)_', clause)
            if other and other.group(1) != prop:     # a clause that belongs to another property
                elsewhere.append((i, clause))
                continue
            key = f"{parsed[i]['label']}/{parsed[i]['op']}/{clause}".replace(' ', '_')
            hit = next(((k, t) for k, t in known if re.fullmatch(k, key)), None)
            if hit:
                seen_known[hit] = True
            else:
                new.append((i, clause, key))
        for _, text in known:
            print(f'KNOWN-FINDING: property={prop} {text}')

        ops = {}
        for line in lines:
            m = re.search(r'"op":\s*"([^"]*)"', line)
            ops[m.group(1)] = ops.get(m.group(1), 0) + 1
        for s in sorted(sessions)[:: max(1, len(sessions) // 3)][:3]:
            ev = json.loads(lines[sessions[s][0]])
            samples.append({'session': ev['label'], 'events': len(sessions[s]), 'first_event': json.dumps(ev)[:600]})
        evidence = {
            'property': prop, 'tier': TIER, 'seed': SEED, 'level': cfg['level'],
            'coverage': {
                'states': states, 'transitions': transitions, 'traces_validated_against_impl': len(sessions),
                'evaluations': validated, 'samples': samples, 'events_by_action': ops,
                'conformance_spec': f"spec/{cfg['conf']}.tla", 'models': notes,
                'rule': 'one trace per scenario, every event checked clause by clause by TLC',
            },
            'assumptions': cfg.get('assumptions', []),
            'wall_s': round(time.time() - t0, 2), 'violations': len(new),
        }
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
            json.dump(evidence, f, indent=1)
        print(f'{prop} {TIER}: {len(sessions)} traces, {validated} events, {states} states, '
              f'driver {drive_s:.1f}s, total {time.time() - t0:.1f}s')
        if new:
            replay = os.path.join(HERE, 'out', f'{prop}-replay.json')
            os.makedirs(os.path.dirname(replay), exist_ok=True)
            with open(replay, 'w') as f:
                json.dump({'property': prop, 'tier': TIER, 'seed': SEED,
                           'how_to_replay': f'VERIF_TIER={TIER} VERIF_SEED={SEED} python3 run.py {prop}',
                           'violations': [{'clause': c, 'key': k, 'event': parsed[i],
                                           'session': [json.loads(lines[j]) for j in sessions.get(parsed[i]['sid'], [i]) if j <= i][-6:]}
                                          for i, c, k in new[:10]]}, f, indent=1)
            for i, c, k in new[:12]:
                print(f'  broken: {k}' + (f" ({parsed[i].get('what')} at {parsed[i].get('where')})" if parsed[i]['op'] == 'crash' else ''))
            print(f'VIOLATION property={prop} replay={replay}')
            return 1
        if machinery:
            print('MACHINERY FAILURE\n' + machinery)
            return 2
        return 0
    finally:
        if os.environ.get('VERIF_KEEP'):
            print('kept', work)
        else:
            shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
