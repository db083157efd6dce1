"""Scenarios for C11 and C26: the measures and the views of a model, read at every point of its history."""
import os
import tempfile

import numpy as np

from d_als import initial, pf_data
from d_model import orthonormal
from d_session import LOGGERS, Problem, TYPES, UNITS, state
from rec import arr, arrs, rng_for, seed_global
from tenkit.decomposition import logging as tlog
from tenkit.decomposition.cp import CP_ALS

MEASURES = {'cp': ['SSE', 'MSE', 'RMSE', 'loss', 'explained_variance'],
            'pf2': ['SSE', 'MSE', 'RMSE', 'loss', 'explained_variance'],
            'cmtf': ['SSE', 'MSE', 'RMSE', 'loss', 'coupled_factor_matrices_SSE']}


class Reader:
    """A logger that reads the measures itself, and remembers the values of the library's loggers."""
    def __init__(self, r, problem, rng, read):
        self.r, self.problem, self.rng, self.read = r, problem, rng, read

    def log(self, model):
        self.read(self.r, self.problem, model, self.rng)

    def write_to_hdf5_group(self, g):
        pass


class After:
    """Attached last: the newest entries of the library's loggers belong to the current decomposition."""
    def __init__(self, r, problem, loggers):
        self.r, self.problem, self.loggers = r, problem, loggers

    def log(self, model):
        self.r.emit('read', state=state(self.problem.kind, model, self.problem),
                    vals={LOGGERS[type(g).__name__]: measure(self.problem, LOGGERS[type(g).__name__], g.log_metrics[-1]) for g in self.loggers})

    def write_to_hdf5_group(self, g):
        pass


def measure(problem, name, value):
    """The measures of a problem in another unit, in the old one."""
    if problem.unit == 1 or name == 'explained_variance':
        return arr(value)
    return arr(value/(problem.unit if name == 'RMSE' else problem.unit**2))


def read(r, problem, model, rng):
    kind = problem.kind
    names = [MEASURES[kind][int(i)] for i in rng.permutation(len(MEASURES[kind]))]
    if rng.integers(2):
        names += names[:2]

    def go():
        return {n: measure(problem, n, getattr(model, n)) for n in names}
    vals, exc = r.call(go)
    r.emit('read', state=state(kind, model, problem), vals=vals or {}, exc=exc)


def pieces(d):
    """The factor matrices of a decomposition, read by indexing it."""
    if hasattr(d, 'projection_matrices'):
        return [arr(d[0]), *[arr(d[1][k]) for k in range(len(d[1]))], arr(d[2])]
    return [arr(d[n]) for n in range(len(d.factor_matrices))]


def look(r, problem, model, rng):
    """Everything that shows the model's decomposition."""
    kind = problem.kind

    def go():
        d, out = model.decomposition, {}
        out['reconstructed'] = arrs(model.reconstructed_X) if kind == 'pf2' else arrs([model.reconstructed_X])
        out['indexed'] = pieces(d)
        out['rank'] = int(d.rank)
        if kind == 'pf2':
            B = d.B
            k = int(rng.integers(-len(B), len(B)))
            i, j = int(rng.integers(B[k].shape[0])), int(rng.integers(model.rank))
            out['projected'] = arr(model.projected_X)
            out['listed'] = arrs(B.as_list())
            out['iterated'] = arrs([*B])
            out['length'] = len(B)
            out['diagonals'] = arr(d.D)
            out['at'] = [k % len(B) + 1, i + 1, j + 1]
            out['row'], out['column'], out['entry'] = arr(B[k, i]), arr(B[k, :, j]), arr(B[k, i, j])
        else:
            out['factors'], out['weights'] = arrs(model.factor_matrices), arr(model.weights)
            out['from_end'] = arr(d[-1])
        if kind == 'cmtf':
            out['shared'] = arrs(model.coupled_factor_matrices)
            out['matrices'] = arrs(model.reconstructed_coupled_matrices)
        return out
    out, exc = r.call(go)
    r.emit('views', state=state(kind, model), exc=exc, **(out or {}))


def rescale(kind, model, rng):
    """Operations on the decomposition that change it, in place."""
    d = model.decomposition
    if kind == 'pf2':
        what = int(rng.integers(4))
        if what == 0:
            d.A[...] *= 1.7
        elif what == 1:
            d.blueprint_B[...] = d.blueprint_B + .2
        elif what == 2:
            d.C[0] *= -.5
        else:
            k = int(rng.integers(len(d.projection_matrices)))
            P = d.projection_matrices[k]
            P[...] = orthonormal(rng, *P.shape) if P.shape[0] >= P.shape[1] else 0
        return
    what = int(rng.integers(6))
    if what == 0:
        d.normalize_components()
    elif what == 1:
        d.normalize_components(update_weights=False)
    elif what == 2:
        d.factor_matrices[int(rng.integers(len(d.factor_matrices)))][...] *= -1.5
    elif what == 3:
        d.weights[...] = rng.uniform(.5, 2, d.weights.shape)
    elif what == 4:
        d.reset_weights()
    elif kind == 'cmtf' and model.uncoupled_factor_matrices:
        model.uncoupled_factor_matrices[0][...] *= 2
    else:
        d.factor_matrices[0][0, 0] += 1


def exact_data(problem, rng):
    """Replace the data by a tensor that the model fits exactly, so that all errors are zero but for rounding."""
    size = int(rng.integers(2))     # 0: up to rounding, 1: up to a little noise
    if problem.kind == 'pf2':
        K, I = problem.shape[2], problem.shape[0]
        A, C, B = rng.uniform(.5, 1, (I, problem.R)), rng.uniform(.5, 1, (K, problem.R)), np.eye(problem.R) + .3
        Ps = [orthonormal(rng, x.shape[1], problem.R) for x in problem.slices]
        problem.slices = [(50*A*C[k]) @ (20*P @ B).T + 1e-5*rng.standard_normal((I, len(P)))*size for k, P in enumerate(Ps)]
        problem.fit_args = [problem.slices]
        problem.solution = (A, B, C, Ps)
    else:
        U = [rng.uniform(.2, 1, (s, problem.R)) for s in problem.X.shape]
        from tenkit.decomposition.decompositions import KruskalTensor
        problem.X = KruskalTensor(U).construct_tensor()*1e3
        problem.X = problem.X + size*1e-5*rng.standard_normal(problem.X.shape)
        problem.fit_args[0] = problem.X
        if problem.kind == 'cmtf':
            problem.Y = [U[m] @ rng.uniform(.2, 1, (y.shape[1], problem.R)).T for m, y in zip(problem.at, problem.Y)]
            problem.fit_args[1] = problem.Y


def history(r, kind, key, length, exact=False, read=read, power=0, slices=0):
    rng = rng_for('C11', key)
    problem = Problem(key, kind, force='free' if slices else None)
    if slices:      # many of them
        problem.R, problem.how, problem.shape = 1, 'random', (3, 0, slices)
        problem.slices = pf_data(rng, 3, [2]*slices, 1)
        problem.fit_args = [problem.slices]
    if power:
        problem.in_unit(power)
    if exact:
        problem.settings.pop('ridge_penalties', None)
        problem.ridge = None
        exact_data(problem, rng)
    problem.refilled(key)
    names = [n for n in LOGGERS if kind != 'cmtf' or n != 'ExplainedVarianceLogger']
    loggers = [getattr(tlog, n)() for n in names]
    reader = Reader(r, problem, rng, read)
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, 'run.h5')
        model = problem.model(convergence_tol=0, rel_loss_tol=0, loggers=[reader, *loggers, After(r, problem, loggers)] if read is not look else [reader],
                              checkpoint_path=path, checkpoint_frequency=1)
        if not exact and 'print_frequency' not in problem.settings and rng.integers(3) == 0:
            model.print_frequency = 1
        labels, it = [], 0

        def fit(p, n):
            if os.path.exists(path):
                os.unlink(path)
            r.emit('data', **p.fields())
            how = ['fit', 'fit_transform'][int(rng.integers(2))] if read is look else 'fit'
            out, exc = r.call(p.fit, model, how, max_its=n, initial_decomposition=p.start())
            r.emit('call', exc=exc)
            if how == 'fit_transform' and not exc:
                def returned():
                    d, pairs = out if kind == 'cmtf' else (out, [])
                    parts = [d.A, d.blueprint_B, d.C, *d.projection_matrices] if kind == 'pf2' else d.factor_matrices
                    return {'parts': arrs(parts), 'weights': arr(np.ones(d.rank) if kind == 'pf2' else d.weights),
                            'pairs': [arrs(pair) for pair in pairs]}
                fields, exc2 = r.call(returned)
                r.emit('returned', state=state(kind, model), exc=exc2, **(fields or {}))
            if not exc:
                read(r, problem, model, rng)
            return exc
        it = int(rng.integers(0, 4))
        if fit(problem, it):
            return
        labels = list(range(it))
        for i in range(length):
            what = ['continue', 'rescale', 'rescale', 'load', 'other', 'again', 'continue', 'alike'][int(rng.integers(8))]
            if what == 'continue':
                n = it + int(rng.integers(1, 4)) if not exact else it + 12
                if labels and n - 1 in labels or it in labels:
                    continue
                _, exc = r.call(model.continue_fit, max_its=n)
                labels += range(it, n)
                it = n
                r.emit('call', exc=exc)
                if exc:
                    return
            elif what == 'rescale' and power and problem.ridge is not None:
                continue
            elif what == 'rescale':
                rescale(kind, model, rng)
            elif what == 'load' and labels:
                k = labels[int(rng.integers(len(labels)))]
                _, exc = r.call(model.load_checkpoint, path, k)
                r.emit('call', exc=exc)
                if exc:
                    return
                it = k + 1
            elif what in ('other', 'again', 'alike'):
                p = problem.other(i) if what == 'other' else problem.alike(i) if what == 'alike' else problem
                it = int(rng.integers(0, 4))
                if fit(p, it):
                    return
                labels = list(range(it))
                continue
            else:
                continue
            read(r, problem, model, rng)


def ratio(r, shape, key):
    """Tensors with many elements: what matters is that the measures agree with each other."""
    rng = rng_for('C11ratio', key)
    X = rng.standard_normal(shape)
    model = CP_ALS(1, max_its=1, init='random', print_frequency=-1)
    seed_global('C11ratio', key)
    _, exc = r.call(model.fit, X)
    if exc:
        r.emit('call', exc=exc)
        return
    r.emit('many', n=int(X.size), vals={m: arr(getattr(model, m)) for m in ('SSE', 'MSE', 'RMSE', 'loss')})


def C11(r):
    for k, shape in enumerate([(35, 34, 33), (190, 191), (300, 300, 1)] + ([(300, 300, 30)] if r.thorough else [])):
        r.scenario('many', ratio, shape, k)
    n = 90 if not r.thorough else 1500
    for i in range(n):
        kind = ['cp', 'pf2', 'cmtf'][i % 3]
        r.scenario(kind, history, kind, (r.seed, i), 5)
    for i in range(18 if not r.thorough else 90):
        kind = ['cp', 'pf2', 'cmtf'][i % 3]
        r.scenario(kind + '_exact', history, kind, (r.seed, 'exact', i), 6, True)
    for i, K in enumerate((70,) if not r.thorough else (70, 140, 300)):
        r.scenario('many_slices', history, 'pf2', (r.seed, 'slices', i), 1, slices=K)
    for i in range(18 if not r.thorough else 180):
        r.scenario('unit', history, ['cp', 'pf2'][i % 2], (r.seed, 'unit', i), 5, power=UNITS[i//2 % 4])


def C26(r):
    for i in range(75 if not r.thorough else 1200):
        kind = ['cp', 'pf2', 'cmtf'][i % 3]
        r.scenario(kind, history, kind, (r.seed, 'views', i), 5, False, look)
    for i, K in enumerate((70,) if not r.thorough else (70, 140, 300)):
        r.scenario('many_slices', history, 'pf2', (r.seed, 'views', 'slices', i), 1, False, look, slices=K)
