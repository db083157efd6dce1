"""Scenarios for C21 and C22: histories of logging and running experiments, generated by TLC from
spec/LogFile.tla and spec/ExpRun.tla, on real files."""
import os
import tempfile

import h5py
import numpy as np

from rec import exact, rng_for
from tenkit.log import Experiment, HDF5Logger, Logger


def single(x):
    v = np.float32(x)
    return 'nan' if np.isnan(v) else float(v).hex()


def text(x):
    """The value and shape of an attribute or dataset, whatever type it is stored in."""
    if isinstance(x, bytes):
        x = x.decode()
    if isinstance(x, str):
        return 'str:' + x
    a = np.asarray(x)
    if a.dtype.kind in 'SUO':
        return 'text:' + repr([t.decode() if isinstance(t, bytes) else str(t) for t in a.ravel().tolist()])
    return exact(a.astype(np.complex128) + 0.0)


# ---------------------------------------------------------------------------------------------- C21
def logs(path):
    """experiment -> target -> values in single precision"""
    out = {}
    with h5py.File(path, 'r') as h5:
        for ex, g in h5.items():
            targets = {t: [single(v) for v in np.atleast_1d(d[()]).tolist()] for t, d in g.items() if t not in EXTRAS}
            if targets or not len(g):
                out[ex] = targets
    return out


EXTRAS = ['A factor', 'zzz', 'm']


def others(path):
    with h5py.File(path, 'r') as h5:
        return {ex: {**{t: exact(g[t][()]) for t in EXTRAS if t in g}, **{k: str(v) for k, v in g.attrs.items()}} for ex, g in h5.items()}


class Targets:
    """Target functions that note every evaluation."""

    def __init__(self, rng, names, kind):
        self.rng, self.kind = rng, kind
        self.calls = []
        self.functions = {name: self.make(name, i) for i, name in enumerate(names)}

    def make(self, name, i):
        def f(parameters, *args):
            if self.kind == 'computed':
                v = float(np.sum(parameters[0]) * (i + 1) + sum(args))
            elif self.kind == 'wild':
                v = [np.nan, np.inf, -np.inf, -0.0, 1e-45, 3e38, 1/3, 16777217.0][int(self.rng.integers(8))]
            elif self.kind == 'same':
                v = 1.5
            elif self.kind == 'integer':
                v = int(self.rng.integers(-1000, 1000))
            else:
                v = self.rng.standard_normal()
            if self.kind == 'array0':
                v = np.array(v)
            self.calls.append([name, [exact(p) for p in parameters], [str(a) for a in args], single(v)])
            return v
        return f


def _logging(r, tokens, rng, kind, ntargets, extras=False):
    names = ['loss', 'grad norm', 'x', 'values'][:ntargets]
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, 'log.h5')
        with h5py.File(path, 'w') as h5:
            if extras:      # the groups of the experiments hold other things already
                for ex in ('e', 'h', 'k'):
                    g = h5.create_group(ex)
                    g.attrs['rank'] = int(rng.integers(9))
                    for name in EXTRAS:
                        g[name] = rng.standard_normal(int(rng.integers(1, 6)))
        rest0 = others(path)
        targets, loggers, argss = {}, {}, {}

        def emit(op, **fields):
            r.emit(op, rest0=rest0 if extras else {}, rest=others(path) if extras else {}, **fields)

        def memory(a):
            return {t: [single(v) for v in vals] for t, vals in loggers[a].target_values.items()}

        for tok in tokens:
            what, a, *rest = tok.split(':')
            if what in ('new', 'cont'):
                targets[a] = Targets(rng, names, kind)
                argss[a] = tuple(int(x) for x in rng.integers(1, 9, rng.integers(3)))
                kw = {} if what == 'new' and rng.integers(2) else {'continue_old': what == 'cont'}
                lg, exc = r.call(HDF5Logger, path, rest[0], int(rest[1]), argss[a], **kw, **targets[a].functions)
                loggers[a] = lg
                emit(what, lg=a, ex=rest[0], freq=int(rest[1]), names=names, exc=exc, file=logs(path))
                if exc:
                    return
            elif what == 'log':
                targets[a].calls = []
                pars = [rng.integers(-9, 9, (2, 2)).astype(float), rng.standard_normal(3)]
                _, exc = r.call(loggers[a].log, pars)
                emit('log', lg=a, exc=exc, pars=[exact(p) for p in pars], args=[str(x) for x in argss[a]],
                       calls=targets[a].calls, memory=memory(a), file=logs(path))
            elif what == 'logs':      # many logs at a stretch
                targets[a].calls = []
                pars = [rng.standard_normal(2)]

                def stretch():
                    for _ in range(int(rest[0])):
                        loggers[a].log(pars)
                _, exc = r.call(stretch)
                emit('logs', lg=a, exc=exc, n=int(rest[0]), calls=targets[a].calls, given=[[exact(p) for p in pars], [str(x) for x in argss[a]]],
                     values={n: [c[3] for c in targets[a].calls if c[0] == n] for n in names}, memory=memory(a), file=logs(path))
            elif what == 'save':
                _, exc = r.call(loggers[a].save_logs)
                emit('save', lg=a, exc=exc, memory=memory(a), file=logs(path))
            elif what == 'drop':
                del loggers[a]
                emit('drop', lg=a, file=logs(path))


def _plain_logger(r, rng):
    t = Targets(rng, ['f', 'g'], 'random')
    lg = Logger((3, 4), **t.functions)
    r.emit('open', lg='a', names=['f', 'g'])
    for _ in range(int(rng.integers(1, 12))):
        t.calls = []
        pars = [rng.standard_normal((2, 2))]
        _, exc = r.call(lg.log, pars)
        r.emit('log', lg='a', exc=exc, pars=[exact(p) for p in pars], args=['3', '4'], calls=t.calls, file={},
               memory={k: [single(v) for v in vals] for k, vals in lg.target_values.items()})


def behaviours():
    return open(os.path.join(os.environ['VERIF_WORK'], 'behaviours.txt')).read().splitlines()


def C21(r):
    kinds = ['random', 'wild', 'computed', 'same', 'integer', 'array0']
    for i, line in enumerate(behaviours()):
        rng = rng_for('C21', r.seed, i)
        toks = []
        for tok in line.split():       # some runs of logs are longer than the model's
            toks += [tok] * (int(rng.integers(1, 6)) if tok.startswith('log:') else 1)
        r.scenario(kinds[i % 6], _logging, toks, rng, kinds[i % 6], 1 + i % 4, i % 4 == 1)
    for freq in (1, 2, 3, 7, 10, 100):
        for n in (1, 6, 7, 21, 150):
            toks = [f'new:a:e:{freq}'] + ['log:a'] * n + ['save:a', 'save:a', 'drop:a', f'cont:a:e:{max(1, freq - 1)}'] + \
                   ['log:a'] * (n // 2) + ['save:a', 'log:a', 'drop:a', f'cont:b:e:{freq + 1}'] + ['log:b'] * 3 + ['save:b']
            r.scenario('long', _logging, toks, rng_for('C21l', r.seed, freq, n), 'random', 2)
    for k, (n, freq) in enumerate([(1030, 7), (1100, 1)] if not r.thorough else [(1030, 7), (1100, 1), (4100, 50), (999, 3), (10100, 2)]):
        toks = [f'new:a:e:{freq}', f'logs:a:{n}', 'save:a', 'drop:a', 'cont:a:e:3'] + ['log:a']*4 + ['save:a', f'logs:a:{n//3}', 'log:a', 'save:a', 'drop:a',
                'cont:b:e:5'] + ['log:b']*6
        r.scenario('stretch', _logging, toks, rng_for('C21s', r.seed, k), 'random', 1)
    for k in range(5):
        r.scenario('plain', _plain_logger, rng_for('C21p', r.seed, k))


# ---------------------------------------------------------------------------------------------- C22
def content(path):
    with h5py.File(path, 'r') as h5:
        groups = {ex: {'attrs': {k: text(v) for k, v in g.attrs.items()}, 'data': {k: text(d[()]) for k, d in g.items()}}
                  for ex, g in h5.items() if ex != 'metadata'}
        meta = {k: text(d[()]) for k, d in h5['metadata'].items()} if 'metadata' in h5 else {}
    return {'groups': groups, 'meta': meta}


class Values:
    """Values of a fixed shape per name within a scenario (datasets are overwritten in place)."""

    def __init__(self, rng):
        self.rng, self.shape = rng, {}

    def data(self, name):
        if name not in self.shape:
            self.shape[name] = [(), (3,), (2, 3), (1,), (2, 1, 2)][int(self.rng.integers(5))]
        if not self.shape[name]:
            return float(self.rng.standard_normal())
        return self.rng.standard_normal(self.shape[name])

    def attr(self, name):
        k = int(self.rng.integers(7))
        return [int(self.rng.integers(-99, 99)), float(self.rng.standard_normal()), 'text%d' % self.rng.integers(99),
                bool(self.rng.integers(2)), self.rng.standard_normal(3), [1, 2, int(self.rng.integers(9))],
                np.float32(self.rng.standard_normal())][k]


# names that stand for those of the specification ('init' alone has a meaning of its own there)
GIVEN = ['x', 'p', 'q', 'u', 'v', 'm', 'n', 'd', 'r']
NAMES = [GIVEN,
         ['rank', 'init_scale', 'initial', 'loss', 'model', 'score', 'values', 'dataset', 'init_version'],
         ['INIT', 'max_its', 'init_seed', 'final', 'A', 'SSE', 'decomposition', 'date', 'author'],
         ['x init', 'reinit', 'Init', 'Loss', 'loss', 'loss_', 'loss 2', 'note', 'Note'],
         ['x', 'tol', 'A', 'tol', 'A', 'm', 'n', 'd', 'r'],         # an output with the name of a parameter
         ['\u03bb', 'it', '_', 'outputs', 'metrics', 'eval', 'best', 'info', 'params']]


def naming(rng):
    return dict(zip(GIVEN, NAMES[int(rng.integers(len(NAMES)))]))


def texts(d):
    return {k: text(v) for k, v in d.items()}


def _experiments(r, tokens, rng, extra=''):
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, 'exp.h5')
        exps, v = {}, Values(rng)
        called = naming(rng)
        serial = 0
        for tok in tokens:
            what, ex, *rest = tok.split(':')
            names = [[called.get(n, n) for n in s.split(',') if n] for s in rest]
            if what == 'create':
                attrs = {n: v.attr(n) for n in names[0]}
                meta = {n: v.attr(n) if rng.integers(2) else v.data(n) for n in names[1]}
                kw = {}
                if attrs or rng.integers(2):
                    kw['attributes'] = attrs
                if meta or rng.integers(2):
                    kw['metadata'] = meta
                e, exc = r.call(Experiment, path, ex, **kw)
                exps[ex] = e
                r.emit('create', ex=ex, attrs=texts(attrs), meta=texts(meta), exc=exc, file=content(path))
                if exc:
                    return
                continue
            if ex not in exps:
                return
            continue_ = rest[0] == 'continue'
            params = {n: ('svd' if n == 'init' else v.attr(n)) for n in names[1]}
            X = rng.standard_normal((3, 2, 2))
            calls, evals, own = [], [], {}
            outputs = {n: v.data(n) for n in names[2]} if what == 'run' else {}
            metrics = {n: v.data(n) for n in names[3]} if what == 'run' else {}
            serial += 1
            logger = [None, object()][int(rng.integers(2))]
            if extra == 'logger' and what == 'run':
                t = Targets(rng, [f'log{serial}'], 'random')
                logger = HDF5Logger(path, ex, int(rng.integers(1, 5)), (), **t.functions)

            def fn(data, **kw):
                group, lg, old = kw.pop('h5_group'), kw.pop('logger'), kw.pop('load_old')
                calls.append({'x': exact(data), 'params': texts(kw), 'group': group.name.strip('/'), 'logger': lg is logger,
                              'old': bool(old)})
                if what == 'fail':
                    raise KeyError('experiment failed')
                if extra == 'own':
                    group[f'own{serial}'] = np.arange(3.0) + serial
                    own[f'own{serial}'] = text(np.arange(3.0) + serial)
                if extra == 'logger':
                    for k in range(7):
                        lg.log([data])
                    lg.save_logs()
                    own[f'log{serial}'] = text(np.float32(lg.target_values[f'log{serial}']))
                return outputs

            def final(data, pars, outs):
                evals.append({'x': exact(data), 'params': texts(pars), 'outputs': texts(outs)})
                return metrics

            kw = {'continue_old': continue_} if continue_ or rng.integers(2) else {}
            given = dict(params)
            out, exc = r.call(exps[ex].run_experiment, X, fn, given, final, logger=logger, **kw)
            r.emit(what, ex=ex, x=exact(X), old=continue_, params=texts(params), params_after=texts(given), outputs=texts(outputs),
                   metrics=texts(metrics), own=own, calls=calls, evals=evals, exc=exc, file=content(path))


def C22(r):
    for i, line in enumerate(behaviours()):
        r.scenario('plain', _experiments, line.split(), rng_for('C22', r.seed, i), ['', '', 'own', 'logger'][i % 4])
