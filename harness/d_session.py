"""Histories of fitting, continuing, checkpointing, loading and failing (C12-C16, C25, C28).

The histories are behaviours of spec/Session.tla generated by TLC; which model type, data, constraints and
tolerances they are played with is chosen here.  Everything is observed through loggers, public attributes and
the checkpoint file, and judged by spec/Conf_Session.tla.
"""
import contextlib
import copy
import io
import os
import pickle
import re
import tempfile
from pathlib import Path

import h5py
import numpy as np

from d_als import coupled, data, initial, pf_data
from d_algebra import layout
from d_model import orthonormal
from rec import arr, arrs, exact, num, rng_for, seed_global
from tenkit.decomposition import logging as tlog
from tenkit.decomposition.cmtf import CMTF_ALS
from tenkit.decomposition.cp import CP_ALS
from tenkit.decomposition.decompositions import KruskalTensor, Parafac2Tensor
from tenkit.decomposition.parafac2 import Parafac2_ALS

TYPES = {'cp': CP_ALS, 'cmtf': CMTF_ALS, 'pf2': Parafac2_ALS}
LOGGERS = {'LossLogger': 'loss', 'SSELogger': 'SSE', 'MSELogger': 'MSE', 'RMSELogger': 'RMSE', 'ExplainedVarianceLogger': 'explained_variance'}


def bits(d):
    """Every bit of a decomposition, as text."""
    if d is None:
        return ['none']
    try:
        if isinstance(d, KruskalTensor):
            return [exact(np.asarray(p, dtype=float)) for p in [*d.factor_matrices, d.weights]]
        return [exact(np.asarray(p, dtype=float)) for p in [d.A, d.blueprint_B, d.C, *d.projection_matrices]]
    except Exception as e:
        return ['unreadable ' + type(e).__name__]


def state(kind, model, problem=None):
    """The numbers of a decomposition, in the unit of the problem (see d_als.gauged)."""
    d = model.decomposition
    unit = problem.unit if problem is not None else 1
    if kind == 'pf2':
        return {'w': arr(np.ones(model.rank)), 'U': arrs([d.A/unit if unit != 1 else d.A, d.blueprint_B, d.C]), 'V': arrs(d.projection_matrices)}
    if unit != 1:
        # one of the parts holds the unit (with penalties, which tell them apart, the first factor matrix)
        parts = [*d.factor_matrices, d.weights]
        size = [np.max(np.abs(p))**np.sign(np.log2(unit)) for p in parts]
        n = 0 if problem.ridge is not None else int(np.argmax(size))
        parts[n] = parts[n]/unit
        return {'w': arr(parts[-1]), 'U': arrs(parts[:-1]), 'V': []}
    return {'w': arr(d.weights), 'U': arrs(d.factor_matrices), 'V': arrs(model.uncoupled_factor_matrices) if kind == 'cmtf' else []}


def text(x):
    return np.float64(x).hex()


class Observer:
    def __init__(self, problem, metrics):
        self.problem, self.kind, self.metrics, self.seen = problem, problem.kind, metrics, []

    def log(self, model):
        self.seen.append({'it': int(model.current_iteration), 'bits': bits(model.decomposition), 'state': state(self.kind, model, self.problem),
                          'vals': [text(getattr(model, LOGGERS[m])) for m in self.metrics]})

    def write_to_hdf5_group(self, h5group):
        pass


class Problem:
    """Data, settings and starting point of one reference run."""
    def __init__(self, key, kind, variant=0, force=None):
        rng = rng_for('problem', key, kind, variant)
        self.kind, self.key = kind, (key, kind, variant)
        self.settings, self.fit_args = {}, []
        constraint = force or ['free', 'nn', 'ridge', 'orth', 'free', 'nn_ridge'][int(rng.integers(6))]
        ridges = [[.2, .1, .3, .2], [.2, .2, .2, .2], [.1, .3, .1, .3]]
        self.ridge = ridges[int(rng_for('ridge', key, kind, variant).integers(3))] if 'ridge' in constraint else None
        self.nn = constraint.startswith('nn')
        how = ['random', 'precomputed', 'svd', 'random', 'precomputed'][int(rng.integers(5))]
        self.slices, self.Y, self.at = [], [], []
        self.R = int(rng.integers(1, 3))
        if kind == 'pf2':
            K = int(rng.integers(2, 4))
            same = bool(rng.integers(2))
            widths = [3]*K if same else [int(x) for x in rng.integers(2, 5, K)]
            I, what = int(rng.integers(3, 5)), ['noise', 'unstructured', 'noise', 'unstructured', 'whole', 'int'][int(rng.integers(6))]
            self.slices = pf_data(rng, I, widths, self.R, what)
            while any(s[self.R - 1] < .05*s[0] for s in [np.linalg.svd(x, compute_uv=False) for x in self.slices]):
                # the projections would be any
                self.slices = pf_data(rng, I, widths, self.R, what)
            self.X = np.zeros((1, 1))
            self.fit_args = [self.slices if not same or rng.integers(2) else np.stack(self.slices).transpose(1, 2, 0)]
            order, shape = 3, (self.slices[0].shape[0], 0, K)
            self.settings['print_frequency'] = -1
            self.settings['cp_updates_per_it'] = int(rng.integers(1, 4))
        else:
            order = int(rng.integers(2, 5)) if kind == 'cp' else 3
            shape = tuple(int(x) for x in rng.integers(2, 5, order)) if order < 4 else (3, 2, 2, 3)
            self.X = data(rng, shape, ['noise', 'noise', 'layout', 'int'][int(rng.integers(4))], self.R)
            self.fit_args = [self.X]
            if kind == 'cmtf':
                self.ridge = None
                self.at = [[0], [1], [0, 2], [1, 1], [2, 0], [1, 0], [1, 0, 1]][int(rng.integers(7))]
                self.Y = coupled(rng, self.X, self.at)
                self.fit_args += [self.Y, self.at]
        self.order, self.shape = order, shape
        flags = [False]*order
        free = [m for m in range(order) if m not in self.at and not (kind == 'pf2' and m == 1)]
        if self.nn:
            flags = [bool(x) for x in rng.integers(0, 2, order)]
            flags[free[0]] = True
            if how == 'svd':
                how = 'random'
            self.settings['non_negativity_constraints'] = flags
        if constraint == 'orth' and free:
            orth = [m == free[-1] and shape[m] >= self.R for m in range(order)]
            self.settings['orthonormality_constraints'] = orth
            flags = orth
        if self.ridge is not None:
            self.ridge = self.ridge[:order]
            self.settings['ridge_penalties'] = self.ridge
        if how == 'svd' and kind != 'pf2' and self.R > min(shape):
            how = 'random'
        self.how = how
        self.flags = flags
        self.start_seed = int(rng.integers(1 << 30))
        self.constraint = constraint
        self.unit = 1
        self.vessel = None

    def in_unit(self, power, start=True):
        """The same problem in another unit."""
        self.unit = 2.0**power
        if start:
            self.how = 'precomputed'
        if self.ridge is not None:
            self.settings['ridge_penalties'] = [x if n == 0 else x*self.unit**2 for n, x in enumerate(self.ridge)]
        return self

    def refilled(self, key):
        """From now on this problem and those like it come in the same arrays, which are overwritten for every fit."""
        rng = rng_for('vessel', key)
        arrays = [x for a in self.fit_args[:2] for x in (a if isinstance(a, list) else [a])]
        if self.unit == 1 and rng.integers(2) and all(x.dtype == float for x in arrays):
            self.vessel = [[x.copy() for x in a] if isinstance(a, list) else a.copy() for a in self.fit_args[:2]]
            self.swap = bool(rng.integers(3) == 0)      # the lists stay, but hold other arrays
        return self

    def pour(self):
        for a, b in zip(self.vessel, self.fit_args):
            if not isinstance(a, list):
                a[...] = b
            elif self.swap:
                a[:] = [x.copy() for x in b]
            else:
                for x, y in zip(a, b):
                    x[...] = y
        return self.vessel + self.fit_args[2:]

    def args(self):
        if self.vessel is not None:
            return self.pour()
        if self.unit == 1:
            return self.fit_args
        def scaled(x):
            return [scaled(y) for y in x] if isinstance(x, list) else x*self.unit
        return [scaled(x) for x in self.fit_args]

    def dims(self):
        return [x.shape for x in self.slices] if self.kind == 'pf2' else self.X.shape

    def other(self, n=0, same_order=None):
        """Other data for the same model settings."""
        q = copy.copy(self)
        q.vessel = None
        rng = rng_for('other', self.key, n)
        if self.kind == 'pf2':
            K = int(rng.integers(2, 5))
            I = int(rng.integers(max(3, self.R), 6))
            q.slices = pf_data(rng, I, [int(x) for x in rng.integers(2, 5, K)], self.R)
            q.fit_args = [q.slices]
            q.shape = (I, 0, K)
        else:
            order = self.order
            free = 'non_negativity_constraints' not in self.settings and 'orthonormality_constraints' not in self.settings \
                and 'ridge_penalties' not in self.settings
            if free and same_order is not True:
                order = int(rng.integers(max(2, 1 + max(self.at, default=0)), 5))
            q.X = data(rng, tuple(int(x) for x in rng.integers(2, 5, order)), 'noise', self.R)
            q.order, q.shape = order, q.X.shape
            q.fit_args = [q.X]
            if self.kind == 'cmtf':
                q.Y = coupled(rng, q.X, self.at)
                q.fit_args += [q.Y, self.at]
        q.key = (self.key, 'other', n)
        return q

    def alike(self, n=0):
        """Other data of the same shape."""
        q = copy.copy(self)
        rng = rng_for('alike', self.key, n)
        if self.kind == 'pf2':
            q.slices = [x[::-1]*1.7 + rng.standard_normal(x.shape) for x in self.slices]
            q.fit_args = [q.slices if isinstance(self.fit_args[0], list) else np.stack(q.slices).transpose(1, 2, 0)]
        else:
            q.X = np.array(self.X[::-1]*1.7 + rng.standard_normal(self.X.shape))
            q.fit_args = [q.X]
            if self.kind == 'cmtf':
                q.Y = [y[::-1] - .5 for y in self.Y]
                q.fit_args += [q.Y, self.at]
        q.key = (self.key, 'alike', n)
        return q

    def other_length(self, rng, i):
        """The same data with one row or slice more, or one slice less."""
        q = copy.copy(self)
        q.vessel = None
        if self.kind == 'pf2':
            q.slices = [*self.slices, self.slices[0].copy()] if i else self.slices[:-1]
            q.fit_args = [q.slices]
            q.shape = (self.shape[0], 0, len(q.slices))
            return q
        if self.kind == 'cmtf':
            return None
        mode = int(rng.integers(self.order))
        q.X = np.concatenate([self.X, np.take(self.X, [0], axis=mode)], axis=mode) if i else np.array(self.X)[..., None].repeat(2, axis=-1)
        if i == 0 and self.settings.keys() - {'print_frequency'}:
            return None
        q.fit_args, q.shape, q.order = [q.X], q.X.shape, q.X.ndim
        return q

    def start(self):
        if self.how != 'precomputed':
            return None
        rng = np.random.default_rng(self.start_seed)
        if self.kind == 'pf2':
            return Parafac2Tensor(rng.uniform(.2, 1, (self.shape[0], self.R))*self.unit, rng.uniform(.2, 1, (self.R, self.R)) + np.eye(self.R),
                                  rng.uniform(.2, 1, (self.shape[2], self.R)), [orthonormal(rng, x.shape[1], self.R) for x in self.slices])
        d = initial(rng, self.X.shape, self.R, [True]*self.order if self.nn else None, None,
                    rng.uniform(.5, 2, self.R) if self.start_seed % 3 == 0 and not self.ridge else None)
        if self.unit != 1:
            d.factor_matrices[0] = d.factor_matrices[0]*self.unit
        return d

    def model(self, how=None, rank=None, **kw):
        args = dict(self.settings, **kw)
        if self.kind == 'pf2':
            args.pop('rel_loss_tol', None)
        return TYPES[self.kind](rank or self.R, init=how or self.how, **args)

    def fit(self, model, how='fit', seed=0, **kw):
        # V of a coupled factorisation is drawn at random also when the factors are given
        seed_global('start', self.key)
        return getattr(model, how)(*self.args(), **kw)

    def fields(self):
        return {'kind': self.kind, 'X': arr(self.X), 'Y': arrs(self.Y), 'at': [a + 1 for a in self.at],
                'ridge': [num(x) for x in (self.ridge or [0]*self.order)], 'slices': arrs(self.slices)}


def reference(r, name, problem, n):
    """A clean uninterrupted run of n iterations."""
    obs = Observer(problem, [])
    model = problem.model(convergence_tol=0, rel_loss_tol=0, loggers=[obs])
    _, exc = r.call(problem.fit, model, max_its=0, initial_decomposition=problem.start())
    states = []
    sums = []
    if not exc:
        states.append(state(problem.kind, model, problem))
        sums.append(float(model.SSE if problem.kind != 'pf2' else model.loss))

        class Sums:
            def log(self, m):
                sums.append(float(m.SSE if problem.kind != 'pf2' else m.loss))

            def write_to_hdf5_group(self, g):
                pass
        model = problem.model(convergence_tol=0, rel_loss_tol=0, loggers=[obs, Sums()])
        _, exc = r.call(problem.fit, model, max_its=n, initial_decomposition=problem.start())
        states += [o['state'] for o in obs.seen]
    r.emit('reference', ref=name, exc=exc, states=states, **problem.fields())
    norm = sum(float(np.linalg.norm(x)**2) for x in (problem.slices or [problem.X]))*problem.unit**2
    return sums, norm


NUMBER = r'[-+]?(?:nan|inf|\d[\d.]*(?:e[-+]?\d+)?)'


def report_lines(out):
    """The progress reports in what was printed: the number of the iteration and the three values."""
    lines = []
    for line in out.splitlines():
        if line.strip():
            m = re.match(r'\s*(\d+): (.*)', line)
            lines.append({'it': int(m.group(1)) if m else -1, 'vals': [arr(float(x)) for x in re.findall(NUMBER, m.group(2))] if m else []})
    return lines


def read_file(path, type_):
    """What the checkpoint file holds; the decompositions are read with the library's own loading function."""
    out = {'its': [], 'final': -1, 'labels': [], 'bits': [], 'logs': []}
    if path is None or not os.path.exists(path):
        return out
    try:
        with h5py.File(path, 'r') as h5:
            out['its'] = [int(x) for x in np.atleast_1d(h5.attrs.get('checkpoint_its', []))]
            out['final'] = int(h5.attrs.get('final_iteration', -1))
            for name in h5:
                if name.startswith('checkpoint_'):
                    out['labels'].append(int(name[len('checkpoint_'):]))
                    try:
                        out['bits'].append(bits(type_.load_from_hdf5_group(h5[name])))
                    except BaseException as e:
                        out['bits'].append(['unreadable ' + type(e).__name__])
                elif name in LOGGERS:
                    out['logs'].append({'name': name, 'its': [int(x) for x in h5[name]['iterations'][...]],
                                        'vals': [text(x) for x in h5[name]['values'][...]]})
    except Exception as e:
        out['bits'], out['labels'] = [['file unreadable ' + type(e).__name__]], [-99]
    return out


class Session:
    """One history: model objects, one file, and the events."""
    def __init__(self, r, problem, tmp, metrics=(), text_path=True, file_name='Run 1.h5'):
        self.r, self.problem, self.metrics = r, problem, list(metrics)
        p = os.path.join(tmp, file_name)
        self.file = p if text_path else Path(p)
        self.models, self.made = {}, 0
        self.tol, self.rtol, self.max = 0., 0., 1000
        self.ref = 'r'

    def new(self, freq, path, how=None, problem=None, max_its=None, extra_loggers=(), tol=None, rtol=None):
        problem = problem or self.problem
        self.made += 1
        self.name = f'm{self.made}'
        self.obs = Observer(problem, self.metrics)
        self.loggers = [getattr(tlog, m)() for m in self.metrics]
        self.tol = self.tol if tol is None else tol
        self.rtol = self.rtol if rtol is None else rtol
        kw = {}
        if max_its is not None:
            kw['max_its'] = max_its
        self.max = max_its or 1000
        self.model = problem.model(how=how, convergence_tol=self.tol, rel_loss_tol=self.rtol, loggers=[self.obs, *self.loggers, *extra_loggers],
                                   checkpoint_frequency=freq, checkpoint_path=self.file if path else None, **kw)
        self.path = path
        self.r.emit('new', m=self.name, freq=-1 if freq is None else freq, path=bool(path), max=self.max,
                    every=problem.settings.get('print_frequency') or -1)

    def snap(self):
        m = self.model
        d = getattr(m, 'decomposition', None)
        return {'it': int(getattr(m, 'current_iteration', 0)), 'bits': bits(d), 'state': state(self.problem.kind, m, self.problem) if d is not None else
                {'w': arr(None), 'U': [], 'V': []}}

    def report(self, op, exc, **fields):
        # also the file that a model without one must leave alone
        o = read_file(self.file, type(self.model).DecompositionType)
        if o['logs']:   # the loggers on disk, in the order of the object's loggers
            logs = {g['name']: g for g in o['logs']}
            o['logs'] = [logs[n] for n in self.metrics if n in logs]
        self.r.emit(op, m=self.name, ref=self.ref, exc=exc, tol=num(self.tol), rtol=num(self.rtol), max=self.max, seen=list(self.obs.seen),
                    after=self.snap(), file=o,
                    logs=[{'its': [int(x) for x in g.log_iterations], 'vals': [text(x) for x in g.log_metrics]} for g in self.loggers],
                    **fields)

    def run(self, what, max_its=None, op='call', wrap=None, how='fit', start=None, **fields):
        self.obs.seen.clear()
        if max_its is not None:
            self.max = max_its

        def go():
            kw = {} if max_its is None else {'max_its': max_its}
            if what == 'continue':
                return self.model.continue_fit(**kw)
            return self.problem.fit(self.model, how, initial_decomposition=start if what == 'fitfrom' else self.problem.start(), **kw)
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            _, exc = self.r.call((lambda: wrap(go)) if wrap else go)
        if callable(fields.get('late')):
            fields = fields['late']()
        fields['printed'] = report_lines(out.getvalue())
        self.report(op, exc, what=what, **fields)
        return exc

    def load(self, label):
        before = self.snap()
        m = self.model
        if not hasattr(m, 'X'):
            # a fresh object must be told its data: by an empty fit, or on their own
            self.told = getattr(self, 'told', 0) + 1
            if (self.told + len(self.name)) % 2:
                self.run('fit', 0)
            else:
                X, *coupled = self.problem.args()
                m.set_target(X)
                if coupled:
                    m.set_coupled_matrices(*coupled)
            before = self.snap()
        args = [self.file] if label == -1 else [self.file, label]
        _, exc = self.r.call(m.load_checkpoint, *args)
        self.r.emit('load', m=self.name, ref=self.ref, number=label, exc=exc, before=before, after=self.snap())
        return exc


def tolerance(rng, sums, norm):
    """Tolerances that make the reference run stop somewhere."""
    if len(sums) < 3:
        return 0., 0.
    rel = [abs((a - b)/a) if a else 1. for a, b in zip(sums, sums[1:])]
    k = int(rng.integers(len(rel)))
    below = [x for x in rel if x < rel[k]]
    tol = float(np.sqrt(rel[k]*max(below))) if below and max(below) > 0 else rel[k]*.7
    pick = int(rng.integers(8))
    rtol = 0.
    if pick in (3, 5):
        j = int(rng.integers(1, len(sums)))
        rtol = (sums[j]/norm)*(1.0001 if pick == 3 else .9999)
        tol = 0.
    if pick > 5:
        tol = rel[k]*(1 + [1e-6, -1e-6][pick - 6])
    if pick == 4:
        rtol = 1e-10
    return (tol if pick != 2 else 0.), rtol


def play(r, tokens, rng, kind, metrics, key, tolerances=True, force=None, every='default', power=0):
    problem = Problem(key, kind, force=force)
    if power:
        problem.in_unit(power)
    if every != 'default':
        problem.settings['print_frequency'] = every
    problem.refilled(key)
    with tempfile.TemporaryDirectory() as tmp:
        s = Session(r, problem, tmp, metrics, text_path=bool(rng.integers(2)))
        top = max([int(t.split(':')[1]) for t in tokens if t.split(':')[0] in ('fit', 'continue', 'fitfrom', 'other')] + [6])
        sums, norm = reference(r, 'r', problem, top)
        if tolerances and rng.integers(2):
            s.tol, s.rtol = tolerance(rng, sums, norm)
        path = False
        nothing = [None, -1, 0]
        for i, tok in enumerate(tokens):
            what, *args = tok.split(':')
            if what in ('new', 'fresh'):
                path = args[1] == '1' if what == 'new' else True
                freq = int(args[0]) or nothing[int(rng.integers(3))]
                first = next((t for t in tokens[i + 1:] if t.split(':')[0] in ('fit', 'continue', 'fitfrom', 'fresh', 'load')), '')
                if first.startswith('fitfrom') and os.path.exists(s.file):
                    s.new(freq, path, how='from_checkpoint' if rng.integers(2) else str(s.file))
                else:
                    s.new(freq, path, how=problem.how.upper() if rng.integers(4) == 0 else None)
            elif what == 'fit':
                if s.problem is not problem:
                    s.problem, s.ref = problem, 'r'
                if s.model.init.lower() != problem.how:
                    s.new(freq, path)
                if rng.integers(3) == 0:     # the limit is a setting of the model
                    s.new(freq, path, max_its=int(args[0])) if s.max == 1000 else None
                    if s.max == int(args[0]):
                        s.run('fit')
                        continue
                s.run('fit', int(args[0]), how=['fit', 'fit_transform'][int(rng.integers(2))])
            elif what == 'other':
                q = problem.other(i) if rng.integers(3) and problem.vessel is None else problem.alike(i)
                s.ref = f'q{i}'
                reference(r, s.ref, q, top)
                s.problem = q
                s.run('fit', int(args[0]))
            elif what == 'continue':
                if not hasattr(s.model, 'decomposition'):
                    continue
                n = int(args[0])
                s.run('continue', None if n == s.max and rng.integers(2) else n)
            elif what == 'fitfrom':
                if not os.path.exists(s.file):
                    continue
                if s.model.init.lower() == problem.how:
                    s.new(freq, path, how='from_checkpoint' if rng.integers(2) else str(s.file))
                s.run('fitfrom', int(args[0]), start=s.file if s.model.init == 'from_checkpoint' else None)
            elif what == 'load':
                if not os.path.exists(s.file):
                    continue
                if s.model.init.lower() != problem.how:
                    s.new(freq, path)
                if s.load(-1 if args[0] == 'latest' else int(args[0])) == '' and rng.integers(2):
                    s.run('continue', int(rng.integers(0, 7)))


def behaviours():
    lines = open(os.path.join(os.environ['VERIF_WORK'], 'behaviours.txt')).read().splitlines()
    return [line.split() for line in lines if line.strip()]


METRICS = [['LossLogger'], ['SSELogger', 'RMSELogger'], [], ['MSELogger', 'LossLogger', 'SSELogger'], list(LOGGERS)]


def replay(r, select, limit, metrics=None, tolerances=True):
    kinds = ['cp', 'pf2', 'cmtf']
    chosen = [t for t in behaviours() if select(t)][:limit]
    for i, tokens in enumerate(chosen):
        rng = rng_for(r.seed, i)
        kind = kinds[i % 3]
        m = metrics[i % len(metrics)] if metrics else METRICS[i % len(METRICS)]
        if kind == 'cmtf':
            m = [x for x in m if x != 'ExplainedVarianceLogger']
        r.scenario(kind, play, tokens, rng, kind, m, (r.seed, i), tolerances)


def has(t, *words):
    return any(x.startswith(words) for x in t)



# ------------------------------------------------------------------------------------------- C12, C13
def random_tokens(rng, kinds, length, top):
    """Longer histories than the generated ones, with the same actions."""
    out = [f'new:{int(rng.integers(0, 5))}:{int(rng.integers(0, 2))}', f'fit:{int(rng.integers(0, top + 1))}']
    at = int(out[1].split(':')[1])
    for _ in range(length):
        k = kinds[int(rng.integers(len(kinds)))]
        if k == 'continue':     # mostly further than before
            n = at + 1 + int(rng.integers(3)) if rng.integers(3) else int(rng.integers(0, top + 1))
            at = max(at, n := min(n, top))
            out.append(f'continue:{n}')
        elif k == 'fresh':
            out.append(f'fresh:{int(rng.integers(0, 5))}')
        elif k == 'load':
            out.append('load:latest' if rng.integers(2) else f'load:{int(rng.integers(0, top))}')
        else:
            at = int(rng.integers(0, top + 1))
            out.append(f'{k}:{at}')
    return out


def extra(r, prop, kinds, n, length, top, metrics=((),), tolerances=False, path=None):
    for i in range(n if not r.thorough else 12*n):
        rng = rng_for(prop, r.seed, i)
        tokens = random_tokens(rng, kinds, length, top)
        if path is not None:
            tokens[0] = tokens[0][:-1] + path
        kind = ['cp', 'pf2', 'cmtf'][i % 3]
        m = [x for x in metrics[i % len(metrics)] if kind != 'cmtf' or x != 'ExplainedVarianceLogger']
        r.scenario(kind, play, tokens, rng, kind, m, (prop, r.seed, i), tolerances)


# not for coupled factorisations, where the unit may be spread over the factors in other ways (but see C10)
UNITS = [-34, 30, -60, 9]


def in_units(r, prop, kinds, n, length, top):
    """Histories of problems counted in another unit, which changes nothing but the numbers."""
    for i in range(n if not r.thorough else 12*n):
        rng = rng_for(prop, 'units', r.seed, i)
        tokens = random_tokens(rng, kinds, length, top)
        r.scenario('unit', play, tokens, rng, ['cp', 'pf2'][i % 2], [], (prop, 'units', r.seed, i), True, None, 'default', UNITS[i//2 % 4])


def C28(r):
    def progress(r, tokens, kind, every, key, tolerances):
        rng = rng_for('progress', key)
        play(r, tokens, rng, kind, [], key, tolerances, every=every)
    kinds = ['cp', 'pf2', 'cmtf']
    for i, tokens in enumerate([t for t in behaviours() if has(t, 'fit', 'continue')][:45 if not r.thorough else 900]):
        r.scenario('progress', progress, tokens, kinds[i % 3], [1, 2, 3, 5, None, -1, 4, -3][(i // 3) % 8], (r.seed, i), bool(i % 2))
    for i in range(24 if not r.thorough else 300):
        rng = rng_for('C28', r.seed, i)
        tokens = random_tokens(rng, ['continue', 'continue', 'fit', 'load', 'other'], 5, 14)
        r.scenario('progress', progress, tokens, kinds[i % 3], [1, 3, 2, 7, 4, 10, 5, None][(i // 3) % 8], ('C28', r.seed, i), bool(i % 2))
    for i, freq in enumerate([0, 1, 3, None, -1, -4]):
        for kind in kinds:
            r.scenario('print', printing, kind, freq, (r.seed, i))


def C12(r):
    replay(r, lambda t: has(t, 'fit', 'continue'), 45 if not r.thorough else 900, metrics=[[]])
    extra(r, 'C12', ['continue'], 12, 4, 14, tolerances=True, path='0')
    extra(r, 'C12b', ['fit', 'continue', 'other'], 9, 4, 8, tolerances=True, path='0')
    in_units(r, 'C12', ['continue', 'continue', 'fit'], 18, 3, 9)
    extra(r, 'C12c', ['continue', 'load', 'fresh'], 12, 5, 12, tolerances=True, path='1')
    for i in range(6 if not r.thorough else 60):
        r.scenario('stale', stale, ['cp', 'pf2', 'cmtf'][i % 3], (r.seed, 'stale', i))
    for i in range(9 if not r.thorough else 90):
        r.scenario('goes_on', goes_on, ['cp', 'pf2', 'cmtf'][i % 3], (r.seed, 'goes_on', i))
    for i in range(6 if not r.thorough else 30):
        r.scenario('stagnation', stagnation, ['cp', 'pf2', 'cmtf'][i % 3], (r.seed, 'stagnation', i), [620, 250][i//3 % 2] if not r.thorough else [620, 1300, 250][i//3 % 3])
    for i in range(12 if not r.thorough else 60):
        r.scenario('rising', rising, (r.seed, 'rising', i))
    for i, freq in enumerate([0, 1, 3, None, -1, -4]):
        for kind in ('cp', 'pf2', 'cmtf'):
            r.scenario('print', printing, kind, freq, (r.seed, i))
    for kind in ('cp', 'pf2', 'cmtf'):
        r.scenario('perfect', perfect, kind)
        r.scenario('default_tolerances', defaults, kind, (r.seed, kind))


def stale(r, kind, key):
    """A resumed run measures its changes from the checkpoint, with a tolerance between that change and the
    one from where the object was before it loaded the checkpoint."""
    rng = rng_for('stale', key)
    problem = Problem(key, kind)
    with tempfile.TemporaryDirectory() as tmp:
        s = Session(r, problem, tmp)
        n = 8
        sums, _ = reference(r, 'r', problem, n)
        ks = [k for k in range(1, len(sums) - 1) if sums[k] and sums[0] and sums[k] != sums[k + 1]]
        if not ks:
            return
        k = ks[int(rng.integers(len(ks)))]
        tol = float(np.sqrt(abs(sums[k] - sums[k + 1])/sums[k]*abs(sums[0] - sums[k + 1])/sums[0]))
        s.new(1, True)
        s.run('fit', k)
        s.new(1, True, tol=tol)
        s.load(-1)
        s.run('continue', n)


def goes_on(r, kind, key):
    """An object that has converged loads an earlier checkpoint, or is fitted to something else, and works again."""
    rng = rng_for('goes_on', key)
    problem = Problem(key, kind)
    with tempfile.TemporaryDirectory() as tmp:
        s = Session(r, problem, tmp)
        n = 8
        sums, _ = reference(r, 'r', problem, n)
        rel = [abs(a - b)/a if a else 0. for a, b in zip(sums, sums[1:])]
        # a tolerance that is first met after two iterations or more
        ends = [k for k in range(1, len(rel) - 1) if rel[k] > 1e-9 and rel[k] < .9*min(rel[:k])]
        if not ends:
            return
        k = ends[int(rng.integers(len(ends)))]
        s.new(1, True, tol=float(np.sqrt(rel[k]*min(rel[:k]))))
        s.run('fit', n)
        s.load(int(rng.integers(0, k)))
        s.run('continue', n)
        s.load(-1)
        s.run('continue', n + 1)


class Started(Problem):
    """A regularised problem that starts where the fit without penalties ends, so that its error rises."""
    def __init__(self, key):
        super().__init__(key, 'cp', force='ridge')
        self.how = 'precomputed'
        rng = rng_for('Started', key)
        self.ridge = [float(x) for x in rng.uniform(.01, .4, self.order)]
        self.settings['ridge_penalties'] = self.ridge
        seed_global('Started', key)
        model = CP_ALS(self.R, init='random', max_its=60)
        model.fit(self.X)
        self.end = [np.array(f) for f in model.factor_matrices]

    def start(self):
        return KruskalTensor([f.copy() for f in self.end])


def rising(r, key):
    """The change of the error counts, whether it falls or rises."""
    rng = rng_for('rising', key)
    problem = Started(key)
    n = 9
    with tempfile.TemporaryDirectory() as tmp:
        s = Session(r, problem, tmp)
        sums, norm = reference(r, 'r', problem, n)
        rel = [(a - b)/a for a, b in zip(sums, sums[1:])]
        # a tolerance under which a rise ends the run
        ends = [k for k, x in enumerate(rel) if x < 0 and all(abs(x) < abs(y) for y in rel[:k])]
        if ends:
            k = ends[int(rng.integers(len(ends)))]
            before = min([abs(y) for y in rel[:k]] + [4*abs(rel[k])])
            s.tol = float(np.sqrt(abs(rel[k])*before))
        s.new(None, False)
        s.run('fit', n)
        s.run('continue', n + 3)
        s.tol = min(abs(x) for x in rel)/2
        s.new(None, False)
        s.run('fit', n)


def stagnation(r, kind, key, n):
    """With tolerances of zero every iteration is done, also when nothing changes any more."""
    problem = Problem(key, kind)
    for start in (problem.start(), None):
        model = problem.model(how='random' if start is None else None, convergence_tol=0, rel_loss_tol=0)
        _, exc = r.call(problem.fit, model, max_its=n, initial_decomposition=start)
        r.emit('count', exc=exc, it=int(getattr(model, 'current_iteration', -1)), max=n)
        _, exc = r.call(model.continue_fit, max_its=n + 50)
        r.emit('count', exc=exc, it=int(getattr(model, 'current_iteration', -1)), max=n + 50)


def perfect(r, kind):
    """No tolerance of zero is undercut, not even by a model that fits exactly."""
    one = np.ones((2, 1))
    kw = dict(convergence_tol=0, print_frequency=-1, init='precomputed')
    if kind == 'pf2':
        args, model = ([np.ones((1, 1))]*2,), Parafac2_ALS(1, **kw)
        start = Parafac2Tensor(np.ones((1, 1)), np.ones((1, 1)), one, [np.ones((1, 1)), np.ones((1, 1))])
    else:
        args = (np.ones((2, 2, 2)), [np.ones((2, 4))], [1])[:3 if kind == 'cmtf' else 1]
        model = TYPES[kind](1, rel_loss_tol=0, **kw)
        start = KruskalTensor([one.copy() for _ in range(3)])
    with np.errstate(all='ignore'):
        _, exc = r.call(model.fit, *args, max_its=4, initial_decomposition=start)
        r.emit('count', exc=exc, it=int(getattr(model, 'current_iteration', -1)), max=4)
        _, exc = r.call(model.continue_fit, max_its=7)
        r.emit('count', exc=exc, it=int(getattr(model, 'current_iteration', -1)), max=7)


def printing(r, kind, freq, key):
    problem = Problem(key, kind)
    problem.settings['print_frequency'] = freq
    with tempfile.TemporaryDirectory() as tmp:
        s = Session(r, problem, tmp)
        reference(r, 'r', problem, 5)
        s.new(None, False)
        s.run('fit', 3)
        s.run('continue', 5)


def defaults(r, kind, key):
    """The documented default values of max_its and of the tolerances."""
    problem = Problem(key, kind)
    with tempfile.TemporaryDirectory() as tmp:
        s = Session(r, problem, tmp)
        reference(r, 'r', problem, 3)
        s.new(None, False, tol=1e-3)
        s.run('fit', 60)
        s.run('continue', 61)
        s.run('continue')


def C13(r):
    replay(r, lambda t: has(t, 'continue') or sum(x.startswith('fit:') for x in t) > 1, 36 if not r.thorough else 900, metrics=[[]], tolerances=False)
    extra(r, 'C13', ['continue', 'continue', 'fit'], 18, 6, 12, path='0')
    in_units(r, 'C13', ['continue', 'fit', 'other'], 9, 4, 8)
    extra(r, 'C13b', ['other', 'continue', 'fit'], 24, 5, 6, path='0')
    for i in range(27 if not r.thorough else 270):
        rng = rng_for('forced', r.seed, i)
        at = [int(x) for x in np.sort(rng.choice(6, 3, replace=False)) + 1]
        tokens = ['new:0:0', f'fit:{at[0]}', f'continue:{at[1]}', f'continue:{at[2]}', f'fit:{at[1]}']
        kind, force = [('pf2', 'orth'), ('cp', 'orth'), ('pf2', 'ridge'), ('cmtf', 'orth'), ('pf2', 'nn_ridge'), ('cp', 'nn_ridge'),
                       ('pf2', 'free'), ('cmtf', 'nn'), ('pf2', 'nn')][i % 9]
        r.scenario('forced_' + kind, play, tokens, rng, kind, [], ('forced', r.seed, i), False, force)
    for i in range(36 if not r.thorough else 600):
        kind = ['cp', 'pf2', 'cmtf'][i % 3]
        r.scenario('pair_' + kind, after_history, kind, ('pair', r.seed, i), 1 + i % 4)
    for i in range(6 if not r.thorough else 60):
        r.scenario('same_matrices', same_matrices, (r.seed, i))
    for i in range(12 if not r.thorough else 120):
        r.scenario('unit_pair', after_history, ['cp', 'pf2'][i % 2], ('unit_pair', r.seed, i), 1 + i % 4, UNITS[i//2 % 4])


def same_matrices(r, key):
    """The same tensor and matrices, but coupled at other modes than before, and the modes of the caller changed in place."""
    rng = rng_for('same_matrices', key)
    problem = Problem(key, 'cmtf', force='free')
    problem.how, n = 'random', int(rng.integers(2, 5))
    problem.X = data(rng, (n,)*3, 'noise', problem.R)
    problem.Y = [rng.standard_normal((n, int(rng.integers(1, 4)))) for _ in range(int(rng.integers(1, 4)))]
    problem.order, problem.shape = 3, problem.X.shape
    first, problem.at = [[int(m) for m in rng.integers(0, 3, len(problem.Y))] for _ in range(2)]
    modes = list(first)
    problem.fit_args = [problem.X, problem.Y, modes]
    model = problem.model(convergence_tol=0, rel_loss_tol=0)
    r.call(problem.fit, model, max_its=2)
    modes[:] = problem.at
    if rng.integers(2):
        problem.fit_args[2] = list(problem.at)
    reference(r, 'r', problem, 5)

    def outcome(model, exc):
        return {'exc': exc, 'it': int(getattr(model, 'current_iteration', -1)), 'state': state('cmtf', model, problem)}
    _, exc = r.call(problem.fit, model, max_its=5)
    a = outcome(model, exc)
    new = problem.model(convergence_tol=0, rel_loss_tol=0)
    _, exc = r.call(problem.fit, new, max_its=5)
    r.emit('pair', ref='r', a=a, b=outcome(new, exc))


def after_history(r, kind, key, steps, power=0):
    """An object with a history and a new object do the same on the same data, also in when they stop."""
    rng = rng_for('pairs', key)
    problem = Problem(key, kind)
    if power:
        problem.in_unit(power)
    problem.refilled(key)
    sums, norm = reference(r, 'r', problem, 8)
    tol, rtol = tolerance(rng, sums, norm) if rng.integers(4) else (0., 0.)
    top = int(rng.integers(5, 9))

    def make():
        return problem.model(convergence_tol=tol, rel_loss_tol=rtol)

    def outcome(model, exc):
        return {'exc': exc, 'it': int(getattr(model, 'current_iteration', -1)),
                'state': state(kind, model, problem) if getattr(model, 'decomposition', None) is not None else {'w': arr(None), 'U': [], 'V': []}}
    old, between = make(), []
    for i in range(steps):
        what = ['fit', 'long', 'other', 'else', 'continue', 'zero'][int(rng.integers(6))]
        if what in ('fit', 'zero'):
            r.call(problem.fit, old, max_its=int(rng.integers(1, 4)) if what == 'fit' else 0, initial_decomposition=problem.start())
        elif what == 'long':
            r.call(problem.fit, old, max_its=60, initial_decomposition=problem.start())
        elif what == 'other':
            q = problem.other(i) if rng.integers(2) else problem.alike(i)
            r.call(q.fit, old, max_its=int(rng.integers(1, 12)), initial_decomposition=q.start())
        elif what == 'continue' and hasattr(old, 'decomposition'):
            r.call(old.continue_fit, max_its=int(rng.integers(0, 20)))
    _, exc = r.call(problem.fit, old, max_its=top, initial_decomposition=problem.start())
    a = outcome(old, exc)
    new = make()
    _, exc = r.call(problem.fit, new, max_its=top, initial_decomposition=problem.start())
    r.emit('pair', ref='r', a=a, b=outcome(new, exc))
    # two objects that take turns
    q = problem.other(99)
    one, two = problem.model(convergence_tol=0, rel_loss_tol=0), problem.model(convergence_tol=0, rel_loss_tol=0)
    r.call(problem.fit, one, max_its=2, initial_decomposition=problem.start())
    r.call(q.fit, two, max_its=3, initial_decomposition=q.start())
    _, exc = r.call(one.continue_fit, max_its=4)
    r.call(two.continue_fit, max_its=5)
    a = outcome(one, exc)
    new = problem.model(convergence_tol=0, rel_loss_tol=0)
    _, exc = r.call(problem.fit, new, max_its=4, initial_decomposition=problem.start())
    r.emit('pair', ref='r', a=a, b=outcome(new, exc))


def C14(r):
    replay(r, lambda t: has(t, 'new:1:1', 'new:2:1', 'new:3:1', 'new:0:1', 'fresh'), 60 if not r.thorough else 1200, metrics=[[], ['LossLogger']])
    extra(r, 'C14', ['continue'], 24, 5, 16, metrics=[(), ('SSELogger',)], path='1', tolerances=True)
    extra(r, 'C14b', ['continue', 'load', 'fitfrom', 'fresh', 'fit'], 18, 6, 12, path='1')
    r.scenario('many', many, 'cp', (r.seed, 'many'), 8190, 8)
    for offset in [99990, 65530, 32760] if not r.thorough else [99990, 65530, 32760, 2**31 - 20, 250, 999990]:
        r.scenario('long_run', long_run, (r.seed, 'far', offset), offset, 3, 12, 1 + offset//10 % 3)
    for i in range(12 if not r.thorough else 90):
        r.scenario('elsewhere', elsewhere, ['pf2', 'cmtf', 'cp'][i % 3], (r.seed, 'C14', i), i)
    if r.thorough:
        r.scenario('many', many, 'cp', (r.seed, 'many'), 0, 8250)


def long_run(r, key, offset, first, n, freq):
    """A run of very many iterations that logs and checkpoints, goes on, and is taken up again by another object.
    With `offset` > 0 the first call's checkpoints are given numbers that much higher, as if the run had been longer."""
    rng = rng_for('long_run', key)
    X = rng.standard_normal((3, 2))
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, 'run.h5')
        seen, dec = [], {}

        class Keep:
            def log(self, model):
                seen.append([int(model.current_iteration), text(model.loss)])
                dec[int(model.current_iteration)] = bits(model.decomposition)

            def write_to_hdf5_group(self, g):
                pass

        def make(f, log=True):
            loggers = [Keep(), tlog.LossLogger()] if log else []
            return CP_ALS(1, loggers=loggers, convergence_tol=-1, rel_loss_tol=-1, checkpoint_path=path, checkpoint_frequency=f), loggers[-1:]
        seed_global('long_run', key)
        model, logs = make(freq if not offset else 1, not offset)
        _, exc = r.call(model.fit, X, max_its=first)
        if offset and not exc:
            with h5py.File(path, 'a') as h5:
                for k in range(first):
                    h5.move(f'checkpoint_{k:05d}', f'checkpoint_{k + offset:05d}')
                h5.attrs['checkpoint_its'] = [int(k) + offset for k in h5.attrs['checkpoint_its']]
                h5.attrs['final_iteration'] = first - 1 + offset
            model, logs = make(freq)
            seed_global('long_run', key)
            _, exc = r.call(lambda: (model.fit(X, max_its=0), model.load_checkpoint(path)))
            seen.clear()
        before = [k + offset for k in range(first)] if offset else []
        start = first + offset if offset else 0
        if not exc:
            _, exc = r.call(model.continue_fit, max_its=first + offset + n)
        memory = [[int(k), text(v)] for g in logs for k, v in zip(g.log_iterations, g.log_metrics)]
        # another object takes the run up
        model, _ = make(freq)
        seed_global('long_run', key)
        _, exc2 = r.call(lambda: (model.fit(X, max_its=0), model.load_checkpoint(path)))
        at, found = int(model.current_iteration), bits(model.decomposition)
        if not exc2:
            _, exc2 = r.call(model.continue_fit, max_its=first + offset + n + 3)
        o = read_file(path, KruskalTensor)
        disk = o['logs'][0] if o['logs'] else {'its': [], 'vals': []}
        r.emit('long_run', exc=exc or exc2, start=start, before=before, freq=freq, ends=[first, first + offset + n, first + offset + n + 3], seen=seen,
               memory=memory, disk=[list(x) for x in zip(disk['its'], disk['vals'])], its=o['its'], labels=sorted(o['labels']), final=o['final'],
               at=at, same=[dec.get(k) == b for k, b in zip(o['labels'], o['bits']) if k >= start], found=found == dec.get(at - 1))


def many(r, kind, key, before, n):
    """More checkpoints than fit in an attribute of the older HDF5 formats (about eight thousand).
    With `before` > 0 the file is made to look as if that many had been written, instead of writing them."""
    rng = rng_for('many', key)
    X = rng.standard_normal((3, 2))
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, 'run.h5')
        last = []

        class Keep:
            def log(self, model):
                last[:] = [bits(model.decomposition)]

            def write_to_hdf5_group(self, g):
                pass
        fixed = dict(convergence_tol=-1, rel_loss_tol=-1, checkpoint_path=path, checkpoint_frequency=1)
        seed_global('many', key)
        model = CP_ALS(1, loggers=[Keep()], **fixed)
        exc = ''
        if before:
            _, exc = r.call(model.fit, X, max_its=3)
            with h5py.File(path, 'a', libver='v108') as h5:
                h5.attrs['checkpoint_its'] = [*range(-before, 0), *h5.attrs['checkpoint_its']]
        if not exc:
            _, exc = r.call(model.continue_fit, max_its=n) if before else r.call(model.fit, X, max_its=n)
        with h5py.File(path, 'r') as h5:
            its = [int(x) for x in h5.attrs.get('checkpoint_its', [])]
            labels = sorted(int(x[len('checkpoint_'):]) for x in h5 if x.startswith('checkpoint_'))
            final = int(h5.attrs.get('final_iteration', -1))
        fresh = CP_ALS(1, convergence_tol=-1, rel_loss_tol=-1)
        _, exc2 = r.call(lambda: (fresh.fit(X, max_its=0), fresh.load_checkpoint(path)))
        r.emit('many', exc=exc, load_exc=exc2, before=before, n=n, its=its, labels=labels, final=final, latest=bits(fresh.decomposition), expect=last[0])


def elsewhere(r, kind, key, i):
    """A run is taken up from a file by an object that writes to another one, or to none."""
    rng = rng_for('elsewhere', key)
    problem = Problem(key, kind)
    type_ = TYPES[kind].DecompositionType
    with tempfile.TemporaryDirectory() as tmp:
        first, own = os.path.join(tmp, 'from'), os.path.join(tmp, 'own')
        n, freq = int(rng.integers(2, 6)), [2, 1, None, 3][int(rng.integers(4))]
        model = problem.model(convergence_tol=0, rel_loss_tol=0, checkpoint_path=first, checkpoint_frequency=int(rng.integers(1, 3)))
        _, exc = r.call(problem.fit, model, max_its=n, initial_decomposition=problem.start())
        if exc:
            return
        before = read_file(first, type_)
        k = before['labels'][int(rng.integers(len(before['labels'])))]
        seen, dec = [], {}

        class Keep:
            def log(self, model):
                seen.append(int(model.current_iteration))
                dec[int(model.current_iteration)] = bits(model.decomposition)

            def write_to_hdf5_group(self, g):
                pass
        path, how = i % 2 == 0, i//2 % 3
        given = dict(convergence_tol=0, rel_loss_tol=0, loggers=[Keep()], checkpoint_frequency=freq, **({'checkpoint_path': own} if path else {}))
        ends = [n + int(rng.integers(1, 4)), n + 5]
        if how < 2:
            model = problem.model(how=['from_checkpoint', first][how], **given)
            k = before['final']
            _, exc = r.call(problem.fit, model, max_its=ends[0], initial_decomposition=first if how == 0 else None)
        else:
            model = problem.model(**given)
            X, *others = problem.args()
            model.set_target(X)
            if others:
                model.set_coupled_matrices(*others)
            _, exc = r.call(lambda: (model.load_checkpoint(first, k), model.continue_fit(max_its=ends[0])))
        if not exc:
            _, exc = r.call(model.continue_fit, max_its=ends[1])
        o = read_file(own, type_)
        r.emit('elsewhere', exc=exc, path=path, freq=-1 if freq is None else freq, ends=ends, origin=k, seen=seen, before=before,
               after=read_file(first, type_), files=sorted(os.listdir(tmp)), own=o, same=[dec.get(j) == b for j, b in zip(o['labels'], o['bits'])])


# ------------------------------------------------------------------------------------------- C15
def bad_loads(r, kind, key):
    """Loads that cannot succeed leave the model as it is."""
    rng = rng_for('bad', key)
    problem = Problem(key, kind)
    with tempfile.TemporaryDirectory() as tmp:
        def saved(name, p, rank=None):
            path = os.path.join(tmp, name)
            m = p.model(how='random', rank=rank, checkpoint_path=path, checkpoint_frequency=1, convergence_tol=0)
            r.call(p.fit, m, max_its=2)
            return path
        m = problem.model(how='random', convergence_tol=0)
        r.call(problem.fit, m, max_its=int(rng.integers(1, 4)))

        def attempt(path, expect, *args):
            if not os.path.exists(path):     # those data cannot be fitted with these settings
                return
            def snap():
                return {'bits': bits(m.decomposition), 'it': int(m.current_iteration)}
            before = snap()
            _, exc = r.call(m.load_checkpoint, path, *args)
            r.emit('bad_load', exc=exc, expect=expect, before=before, after=snap())
        good = saved('good.h5', problem)
        attempt(good, 'ValueError', 7)
        attempt(good, 'ValueError', 2)
        empty = os.path.join(tmp, 'empty.h5')
        with h5py.File(empty, 'w') as h5:
            h5.attrs['something'] = 1
        attempt(empty, 'ValueError')
        attempt(empty, 'ValueError', 0)
        problem.settings.pop('orthonormality_constraints', None)
        attempt(saved('rank.h5', problem, problem.R + 1), 'ValueError')
        for i in range(6):
            q = problem.other(i, same_order=i % 2 == 0)
            if q.dims() != problem.dims():
                attempt(saved(f'shape{i}.h5', q), 'ValueError')
        for i in range(2):
            q = problem.other_length(rng, i)
            if q is not None and q.dims() != problem.dims():
                attempt(saved(f'longer{i}.h5', q), 'ValueError')
        other = Problem(key, 'pf2' if kind != 'pf2' else 'cp')
        attempt(saved('type.h5', other), 'Warning')
        # the model is still usable
        _, exc = r.call(m.continue_fit, max_its=9)
        r.emit('bad_load', exc=exc, expect='', before=0, after=0)

        # the same as starting points
        for path, expect in [(p, e) for p, e in [(empty, 'ValueError'), (os.path.join(tmp, 'rank.h5'), 'ValueError'), (os.path.join(tmp, 'type.h5'), 'Warning')] if os.path.exists(p)]:
            for how in ('from_checkpoint', path):
                m2 = problem.model(how=how)
                _, exc = r.call(problem.fit, m2, max_its=2, initial_decomposition=path if how != path else None)
                r.emit('bad_load', exc=exc, expect=expect, before=0, after=0)


def C15(r):
    replay(r, lambda t: has(t, 'load', 'fitfrom'), 75 if not r.thorough else 1500, metrics=[[], ['LossLogger']], tolerances=False)
    extra(r, 'C15', ['continue', 'load', 'fitfrom', 'fresh'], 24, 7, 9, path='1')
    for i in range(9 if not r.thorough else 90):
        kind = ['cp', 'pf2', 'cmtf'][i % 3]
        r.scenario('bad_' + kind, bad_loads, kind, (r.seed, i))
    for i in range(12 if not r.thorough else 90):
        r.scenario('elsewhere', elsewhere, ['cp', 'pf2', 'cmtf'][i % 3], (r.seed, i), i)
    for i in range(6 if not r.thorough else 90):
        r.scenario('goes_on', goes_on, ['cp', 'pf2', 'cmtf'][i % 3], (r.seed, 'goes_on', i))


def C16(r):
    replay(r, lambda t: has(t, 'fit:3', 'fit:4', 'fit:5', 'continue'), 45 if not r.thorough else 1200, metrics=METRICS, tolerances=True)
    extra(r, 'C16', ['continue', 'continue', 'fresh', 'load', 'fitfrom'], 24, 7, 14, metrics=[m for m in METRICS if m], path='1')
    for k, (offset, first, n, freq) in enumerate([(0, 1000, 300, 400), (99990, 3, 20, 2), (32760, 2, 12, 1), (0, 30, 700, 2000)] + ([(0, 20000, 21000, 5000), (0, 9000, 9, 8000)] if r.thorough else [])):
        r.scenario('long_run', long_run, (r.seed, 'long', k), offset, first, n, freq)
    extra(r, 'C16b', ['continue', 'fit'], 9, 4, 10, metrics=[tuple(LOGGERS)], path='0')


# ------------------------------------------------------------------------------------------- C25
class InjectedFault(Exception):
    pass


WRITES = [(h5py.Group, ['create_group', 'require_group', 'create_dataset', 'require_dataset', '__setitem__']),
          (h5py.AttributeManager, ['__setitem__', 'create', 'modify']),
          (h5py.Dataset, ['__setitem__', 'resize'])]


class Writes:
    """Counts the write operations on HDF5 files and makes the n-th one fail (before or after it took effect)."""
    def __init__(self, n=None, error=OSError, after=False):
        self.n, self.error, self.after = n, error, after
        self.count, self.depth, self.fired = 0, 0, False

    def wrap(self, method):
        def wrapped(*args, **kwargs):
            outer = self.depth == 0
            if outer:
                self.count += 1
                if self.count == self.n and not self.after:
                    self.fired = True
                    raise self.error('injected')
            self.depth += 1
            try:
                out = method(*args, **kwargs)
            finally:
                self.depth -= 1
            if outer and self.count == self.n:
                self.fired = True
                raise self.error('injected')
            return out
        return wrapped

    def __call__(self, go):
        saved = [(c, n, c.__dict__[n]) for c, names in WRITES for n in names if n in c.__dict__]
        try:
            for c, n, f in saved:
                setattr(c, n, self.wrap(f))
            return go()
        finally:
            for c, n, f in saved:
                setattr(c, n, f)


class RaisingLogger:
    def __init__(self, where, count, error):
        self.where, self.count, self.error, self.fired = where, count, error, False

    def tick(self, where):
        if where == self.where:
            self.count -= 1
            if self.count == 0:
                self.fired = True
                raise self.error('injected')

    def log(self, model):
        self.tick('log')

    def write_to_hdf5_group(self, h5):
        self.tick('write')


def failing(r, kind, key, freq, before, after, fault, metrics, resumed=False):
    """`before` iterations that succeed, then a call during which something fails, then loads of what is left.
    Returns the number of write operations of the failing call."""
    problem = Problem(key, kind)
    with tempfile.TemporaryDirectory() as tmp:
        s = Session(r, problem, tmp, metrics)
        reference(r, 'r', problem, after)
        log = [fault] if isinstance(fault, RaisingLogger) else []
        s.new(freq, True, extra_loggers=log if not resumed else [])
        if before:
            s.run('fit', before)
            if resumed:
                s.new(freq, True, extra_loggers=log)
                s.load(-1)
        wrap = fault if isinstance(fault, Writes) else None
        name = fault.error.__name__
        s.run('continue' if before else 'fit', after, op='fault', wrap=wrap, late=lambda: {'fired': fault.fired, 'injected': name})
        # what is left is loaded by a new object
        s.new(freq, True)
        if os.path.exists(s.file):
            its = read_file(s.file, type(s.model).DecompositionType)['its']
            for k in [-1, *its]:
                s.load(k)
    return getattr(fault, 'count', 0)


class Kill:
    """Runs a call in a process of its own and ends that process, without any goodbye, while the n-th iteration is logged."""
    def __init__(self, n, path):
        self.n, self.path, self.obs = n, path, None

    def __call__(self, go):
        pid = os.fork()
        if pid == 0:
            try:
                go()
            finally:
                os._exit(0)
        _, status = os.waitpid(pid, 0)
        if os.waitstatus_to_exitcode(status) == 9:
            with open(self.path, 'rb') as f:
                self.obs.seen[:] = pickle.load(f)

    def log(self, model):
        if len(self.obs.seen) == self.n:
            with open(self.path, 'wb') as f:
                pickle.dump(self.obs.seen, f)
            os._exit(9)

    def write_to_hdf5_group(self, h5):
        pass


def killed(r, kind, key, freq, before, n, more, metrics):
    """A process that ends in the middle of a fit, and another one that goes on from what it left."""
    problem = Problem(key, kind)
    with tempfile.TemporaryDirectory() as tmp:
        s = Session(r, problem, tmp, metrics)
        reference(r, 'r', problem, before + n + more)
        kill = Kill(n, os.path.join(tmp, 'seen'))
        s.new(freq, True, extra_loggers=[kill])
        kill.obs = s.obs
        if before:
            kill.n = -1
            s.run('fit', before)
            kill.n = n
        s.run('continue' if before else 'fit', before + n + 2, op='killed', wrap=kill)
        s.new(freq, True)
        if os.path.exists(s.file):
            its = read_file(s.file, type(s.model).DecompositionType)['its']
            for k in [*its, -1]:
                s.load(k)
            s.run('continue', before + n + more)
        else:
            s.run('fit', more)


def C25(r):
    for i in range(18 if not r.thorough else 240):
        rng = rng_for('killed', r.seed, i)
        kind = ['cp', 'pf2', 'cmtf'][i % 3]
        r.scenario('killed', killed, kind, ('killed', r.seed, i), [1, 2, 3, 1, None, 4][int(rng.integers(6))], [0, 2, 0, 3, 1][int(rng.integers(5))],
                   int(rng.integers(1, 7)), int(rng.integers(1, 5)), [['LossLogger'], [], ['SSELogger', 'MSELogger']][i // 3 % 3])
    i = 0
    for kind in ('cp', 'pf2', 'cmtf'):
        setups = [(1, 2, 3), (1, 0, 1), (2, 2, 4), (None, 2, 3), (3, 3, 4), (2, 0, 5)]
        for s, (freq, before, after) in enumerate(setups):
            metrics = [['LossLogger'], ['SSELogger', 'MSELogger'], []][(s + len(kind)) % 3]
            key = (r.seed, kind, s)
            probe = Writes()
            total = failing(NoRecord(r), kind, key, freq, before, after, probe, metrics)
            for n in range(1, total + 1):
                i += 1
                if not r.thorough and (n + s + len(kind)) % 3:
                    continue
                error = [OSError, InjectedFault][i % 2]
                r.scenario(f'{kind}_write', failing, kind, key, freq, before, after, Writes(n, error, after=i % 5 == 0), metrics, resumed=before and i % 4 == 0)
            for where in ('log', 'write'):
                for n in (1, 2, 3, 4) if r.thorough else (1 + s % 3, 3):
                    r.scenario(f'{kind}_logger', failing, kind, key, freq, before, after,
                               RaisingLogger(where, n, [OSError, InjectedFault, ValueError][n % 3]), metrics)


class NoRecord:
    """Stands in for the recorder where only the behaviour of the driver matters."""
    def __init__(self, r):
        self.r, self.seed, self.thorough = r, r.seed, r.thorough

    def emit(self, *a, **k):
        pass

    def call(self, *a, **k):
        return self.r.call(*a, **k)
