"""Scenarios for C07-C10: every iteration of the fitting algorithms, as seen by an attached logger."""
import itertools
import os
import tempfile

import h5py
import numpy as np

from d_algebra import layout
from d_model import orthonormal
from rec import arr, arrs, grid, ints, num, rng_for, seed_global
from tenkit.decomposition.cmtf import CMTF_ALS
from tenkit.decomposition.cp import CP_ALS
from tenkit.decomposition.decompositions import KruskalTensor, Parafac2Tensor
from tenkit.decomposition.parafac2 import Parafac2_ALS


class Observer:
    """A logger that keeps a snapshot of the decomposition after every iteration."""
    def __init__(self, snapshot):
        self.snapshot = snapshot
        self.seen = []

    def log(self, decomposer):
        self.seen.append(self.snapshot(decomposer))

    def write_to_hdf5_group(self, h5group):
        pass


def kruskal_state(model, gauge=None):
    d = model.decomposition
    U = list(d.factor_matrices)
    if gauge:
        U[gauge[0]] = U[gauge[0]]/gauge[1]
    V = getattr(model, 'uncoupled_factor_matrices', None) or []
    return {'w': arr(d.weights), 'U': arrs(U), 'V': arrs([v/gauge[1] for v in V] if gauge else V)}


# The same problem in other units: with the data and one factor matrix multiplied by a power of two (and the ridge
# penalties adapted) every quantity is exactly the same number in the new unit.  The specification sees the numbers
# in the old unit, in which its 16 decimals are precise.
def gauged(flags_free, power):
    return (flags_free[0], 2.0**power)


def gauge_ridge(ridge, gauge):
    return None if ridge is None else [x if n == gauge[0] else x*gauge[1]**2 for n, x in enumerate(ridge)]


def pf_state(model, unit=1):
    d = model.decomposition
    return {'A': arr(d.A/unit), 'B': arr(d.blueprint_B), 'C': arr(d.C), 'P': arrs(d.projection_matrices)}


def problem(X, nn, orth, ridge, Ys=(), at=()):
    n = X.ndim
    return {'X': arr(X), 'Y': arrs(Ys), 'at': [int(a) + 1 for a in at], 'nn': [bool(x) for x in nn or [False]*n],
            'orth': [bool(x) for x in orth or [False]*n], 'ridge': [num(x) for x in ridge or [0]*n]}


def settings(nn, orth, ridge):
    kw = {'convergence_tol': 0}
    if nn is not None:
        kw['non_negativity_constraints'] = list(nn)
    if orth is not None:
        kw['orthonormality_constraints'] = list(orth)
    if ridge is not None:
        kw['ridge_penalties'] = list(ridge)
    return kw


def steps(r, p, first, seen, certify_first=True, monotone_first=True):
    for i, after in enumerate(seen):
        before = first if i == 0 else seen[i - 1]
        if before is None:
            continue
        r.emit('iteration', before=before, after=after, certify=bool(i or certify_first),
               monotone=bool(i or monotone_first), **p)


def late(r, kind, label, X, R, rest=(), nn=None, orth=None, ridge=None, its=12, inner=None, key=0):
    """A run that is taken up at a late iteration, although it is far from having converged."""
    make = {'cp': CP_ALS, 'cmtf': CMTF_ALS, 'pf2': Parafac2_ALS}[kind]
    shown = pf_state if kind == 'pf2' else kruskal_state
    kw = dict(init='random', convergence_tol=0, **{k: v for k, v in settings(nn, orth, ridge).items() if k != 'convergence_tol'})
    if kind == 'pf2':
        kw.update(cp_updates_per_it=inner or 5, print_frequency=-1)
    else:
        kw.update(rel_loss_tol=0)
    obs = Observer(shown)
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, 'run.h5')
        seed_global(r.seed, 'late', kind, label, key)
        _, exc = r.call(make(R, checkpoint_path=path, checkpoint_frequency=1, **kw).fit, X, *rest, max_its=1)
        r.emit('call', exc=exc, seen=1, wanted=1)
        if exc:
            return
        with h5py.File(path, 'a') as h5:
            h5.move('checkpoint_00000', f'checkpoint_{label:05d}')
            h5.attrs['checkpoint_its'] = [label]
            h5.attrs['final_iteration'] = label
        model = make(R, loggers=[obs], **kw)
        _, exc = r.call(lambda: (model.fit(X, *rest, max_its=0), model.load_checkpoint(path)))
    first = shown(model) if not exc else None
    if not exc:
        _, exc = r.call(model.continue_fit, max_its=label + 1 + its)
    r.emit('call', exc=exc, seen=len(obs.seen), wanted=its)
    if exc:
        return
    if kind == 'pf2':
        for before, after in zip([first] + obs.seen, obs.seen):
            r.emit('pf_iteration', slices=arrs(X), nn=[bool(x) for x in nn or [0]*3], orth=[bool(x) for x in orth or [0]*3],
                   ridge=[num(x) for x in ridge or [0]*3], inner=inner or 5, before=before, after=after, compute=True)
    else:
        steps(r, problem(X, nn, orth, ridge, *rest), first, obs.seen, certify_first=kind == 'cp' or not (orth and any(orth)),
              monotone_first=ridge is None)


LATE = [26, 40, 89, 492, 995, 64, 121, 248]


# --------------------------------------------------------------------------------------- C07, C08
def initial(rng, shape, R, nn, orth, weights, integers=False, shared=False):
    """A starting point; weights other than one are only given where every mode is free to take them."""
    U = []
    for n, s in enumerate(shape):
        if orth and orth[n]:
            U.append(orthonormal(rng, s, R))
        elif nn and nn[n]:
            U.append(rng.uniform(.2, 1.5, (s, R)))
        else:
            U.append(rng.standard_normal((s, R)))
        if rng.integers(4) == 0:
            U[-1] = layout(rng, U[-1])
        elif integers and not (orth and orth[n]):
            U[-1] = np.rint(3*U[-1]).astype(int) + np.eye(s, R, dtype=int)
        for m in range(n):      # one array is the starting point of several modes
            if shared and U[m].shape == U[n].shape and all((f or [0]*9)[m] == (f or [0]*9)[n] for f in (nn, orth)):
                U[n] = U[m]
    return KruskalTensor(U, weights)


def _cp(r, rng, X, R, nn=None, orth=None, ridge=None, its=3, how='precomputed', weights=None, split=0, power=0, shared=False):
    p = problem(X, nn, orth, ridge)
    gauge = gauged([n for n in range(X.ndim) if not (nn and nn[n]) and not (orth and orth[n])] or [0], power) if power else None
    shown = (lambda m: kruskal_state(m, gauge)) if gauge else kruskal_state
    obs = Observer(shown)
    if gauge:
        X, ridge = X*gauge[1], gauge_ridge(ridge, gauge)
    model = CP_ALS(R, init='random' if how == 'random' else how, loggers=[obs], rel_loss_tol=0, **settings(nn, orth, ridge))
    unit = weights is None
    if how == 'precomputed':
        start = initial(rng, X.shape, R, nn, orth, weights, integers=rng.integers(3) == 0, shared=shared)
        first = {'w': arr(start.weights), 'U': arrs(start.factor_matrices), 'V': []}
        if gauge:
            start.factor_matrices[gauge[0]] = start.factor_matrices[gauge[0]]*gauge[1]
        _, exc = r.call(model.fit, X, max_its=its, initial_decomposition=start)
    else:
        seed_global(r.seed, X.shape, R)
        _, exc = r.call(model.fit, X, max_its=0)
        first = shown(model) if not exc else None
        if not exc:
            _, exc = r.call(model.continue_fit, max_its=its)
    r.emit('call', exc=exc, seen=len(obs.seen), wanted=its)
    if exc:
        return
    steps(r, p, first, obs.seen, certify_first=True, monotone_first=unit or ridge is None)
    last = obs.seen[-1] if obs.seen else first
    for k in range(split):
        obs.seen.clear()
        _, exc = r.call(model.continue_fit, max_its=its + k + 1)
        r.emit('call', exc=exc, seen=len(obs.seen), wanted=1)
        if exc:
            return
        steps(r, p, last, obs.seen)
        last = obs.seen[-1] if obs.seen else last


def data(rng, shape, kind='noise', R=2):
    if kind == 'int':
        return rng.integers(-4, 5, shape)
    X = initial(rng, shape, R, None, None, None).construct_tensor()
    if kind == 'positive':
        return np.abs(X) + rng.uniform(0, .5, shape)
    X = X + .3*rng.standard_normal(shape)
    if kind == 'layout':
        return layout(rng, X)
    if kind == 'large':
        return X*100
    if kind == 'small':
        return X*.01
    if kind == 'zero_slice':
        X[0] = 0
    return X


def C07(r):
    shapes = [(3, 4), (4, 3, 2), (3, 3, 3), (2, 5, 4), (6, 2, 3), (2, 3, 2, 3), (3, 2, 2, 2, 2), (5, 4, 6), (1, 4, 3), (4, 1, 3), (2, 2, 3, 2, 2, 2)]
    ridges = [None, 'all', 'some', 'tiny', 'zero']
    kinds = ['noise', 'int', 'layout', 'positive', 'large', 'zero_slice', 'small']
    n = 0
    for rep in range(2 if not r.thorough else 10):
        for shape in shapes:
            for ridge in ridges:
                n += 1
                rng = rng_for('C07', r.seed, n)
                # ranks that every partial problem determines well
                bound = min(int(np.prod(shape))//s for s in shape)
                R = int(rng.integers(1, min(3, bound) + 1))
                lam = {None: None, 'all': [.5 + .3*i for i in range(len(shape))], 'zero': [0]*len(shape),
                       'some': [0 if i % 2 else 1.5 for i in range(len(shape))], 'tiny': [1e-3]*len(shape)}[ridge]
                how = ['precomputed', 'random', 'precomputed', 'svd'][n % 4]
                if how == 'svd' and R > min(shape):
                    how = 'random'
                weights = [None, grid(rng, R, 3) + .5, None, rng.uniform(.2, 5, R)][(n // 2) % 4] if how == 'precomputed' else None
                X = data(rng, shape, kinds[n % len(kinds)], R)
                r.scenario(f'cp{len(shape)}_{ridge}', _cp, rng, X, R, ridge=lam, its=3, how=how, weights=weights, split=n % 3)
    for k in range(3):
        rng = rng_for('C07long', r.seed, k)
        r.scenario('long', _cp, rng, data(rng, (5, 4, 3), 'noise', 2), 2, ridge=[None, [.1, .2, .3], [0, 2., 0]][k], its=15 if not r.thorough else 60)
    for k in range(4 if not r.thorough else 20):
        rng = rng_for('C07shared', r.seed, k)
        X = data(rng, [(4, 4, 3), (3, 3, 3), (3, 4, 3), (3, 3, 2, 3)][k % 4], ['noise', 'int'][k % 2], 2)
        r.scenario('shared', _cp, rng, X, 2, ridge=[None, [.1, .2, .3, .1][:X.ndim]][k % 2], weights=[None, rng.uniform(.2, 3, 2)][k//2 % 2], split=1, shared=True)
    # more components than a partial problem has equations, and starting points without full rank
    for k in range(4):
        rng = rng_for('C07deg', r.seed, k)
        X = data(rng, (4, 3, 2) if k % 2 else (3, 3), 'noise', 2)

        def degenerate(r):
            R = 3
            start = initial(rng, X.shape, R, None, None, None)
            if k < 2:
                start.factor_matrices[1][:, 1] = start.factor_matrices[1][:, 0]
                start.factor_matrices[-1][:, 1] = start.factor_matrices[-1][:, 0]
            else:
                start.factor_matrices[-1][:, 2] = 0
            p = problem(X, None, None, None)
            obs = Observer(kruskal_state)
            first = {'w': arr(start.weights), 'U': arrs(start.factor_matrices), 'V': []}
            model = CP_ALS(R, init='precomputed', loggers=[obs], rel_loss_tol=0, convergence_tol=0)
            _, exc = r.call(model.fit, X, max_its=1, initial_decomposition=start)
            r.emit('call', exc=exc, seen=len(obs.seen), wanted=1)
            steps(r, p, first, obs.seen)
        r.scenario('degenerate', degenerate)
    for k in range(8 if not r.thorough else 60):
        rng = rng_for('C07unit', r.seed, k)
        shape = [(4, 3, 3), (4, 5), (3, 2, 3, 2), (3, 4, 4)][k % 4]
        r.scenario('unit', _cp, rng, data(rng, shape, kinds[k % len(kinds)], 2), 2, ridge=[None, None, [.3]*len(shape), [.5, 0] + [.1]*(len(shape) - 2)][k//2 % 4],
                   its=3, weights=[None, rng.uniform(.2, 5, 2)][k % 2], split=1, power=[-30, 30, -20, 40][k//2 % 4])
    for k in range(2 if not r.thorough else 16):
        rng = rng_for('C07late', r.seed, k)
        shape = [(4, 3, 3), (3, 4, 2)][k % 2]
        r.scenario('late', late, 'cp', LATE[(k + 2*r.seed) % 8] if k else LATE[0], data(rng, shape, 'noise', 2), 2, ridge=[None, [.1, 0, .2]][k//2 % 2], key=k)
    rng = rng_for('C07big', r.seed)
    r.scenario('big', _cp, rng, data(rng, (15, 12, 10), 'noise', 4), 4, its=2)
    r.scenario('big', _cp, rng, data(rng, (6, 5, 4, 5), 'noise', 3), 3, ridge=[.1, 0, .2, .3], its=2)


def C08(r):
    n = 0
    shapes = {2: [(4, 3), (3, 5)], 3: [(4, 3, 3), (3, 5, 4), (5, 4, 2)], 4: [(3, 2, 3, 2)]}
    for rep, order in itertools.product(range(2 if not r.thorough else 4), (2, 3, 4)):
        for flags in itertools.product('fno', repeat=order):     # free, non-negative, orthonormal
            if set(flags) <= {'f'} or 'f' not in flags and 'n' not in flags:
                continue
            if order == 4 and not r.thorough and n % 4:
                n += 1
                continue
            for ridge in ((None, 'some') if order == 3 or r.thorough else ([None, 'some'][n % 2],)):
                n += 1
                rng = rng_for('C08', r.seed, flags, ridge, rep)
                shape = shapes[order][n % len(shapes[order])]
                nn, orth = [f == 'n' for f in flags], [f == 'o' for f in flags]
                R = int(rng.integers(1, 3)) if order == 2 or 'o' in flags else int(rng.integers(1, 4))
                R = min([R] + [s for s, f in zip(shape, flags) if f == 'o'] + [int(np.prod(shape))//s for s in shape])
                lam = None if ridge is None else [0 if i == n % order else .1 + .2*i for i in range(order)]
                X = data(rng, shape, ['noise', 'positive', 'int', 'layout', 'zero_slice'][n % 5], R)
                how = ['precomputed', 'random', 'svd'][n % 3]
                weights = rng.uniform(.2, 3, R) if how == 'precomputed' and n % 2 else None
                if how == 'svd' and ('n' in flags or R > min(shape)):
                    how = 'random'
                r.scenario(''.join(flags) + ('_ridge' if ridge else ''), _cp, rng, X, R,
                           nn=nn if 'n' in flags or n % 2 else None, orth=orth if 'o' in flags or n % 2 else None,
                           ridge=lam, its=2 if order > 2 else 3, how=how, weights=weights, split=n % 2)
    # non-negative solutions with many active constraints, and long runs
    for k in range(4):
        rng = rng_for('C08long', r.seed, k)
        X = data(rng, (4, 5, 3), 'noise' if k % 2 else 'positive', 3) - (.5 if k == 2 else 0)
        r.scenario('long', _cp, rng, X, 2, nn=[True]*3 if k < 2 else [True, False, False], orth=None if k < 2 else [False, True, False],
                   ridge=None if k % 2 else [.1]*3, its=10 if not r.thorough else 40, how='random')

    for k in range(2 if not r.thorough else 16):
        rng = rng_for('C08late', r.seed, k)
        flags = ['nfn', 'fon', 'nnn', 'off'][(k + k//4) % 4]
        r.scenario('late', late, 'cp', LATE[(k + 2*r.seed) % 8] if k else LATE[0], data(rng, (4, 3, 3), ['noise', 'positive'][k % 2], 2), 2,
                   (), [f == 'n' for f in flags], [f == 'o' for f in flags], [None, [.1, 0, .2]][k//2 % 2], key=k)
    for k in range(6 if not r.thorough else 40):
        rng = rng_for('C08unit', r.seed, k)
        flags = ['fno', 'fon', 'nfn', 'off', 'foo', 'nfo'][k % 6]
        X = data(rng, (4, 3, 3), ['noise', 'positive'][k % 2], 2)
        r.scenario('unit', _cp, rng, X, 2, nn=[f == 'n' for f in flags], orth=[f == 'o' for f in flags], ridge=[None, [.3, .2, .4]][k//2 % 2],
                   its=2, weights=[None, rng.uniform(.2, 3, 2)][k % 2], split=1, power=[30, 20, 40][k % 3] if 'n' in flags else [-30, 30][k//3 % 2])

    for k, flags in enumerate(['nnn', 'nnf', 'oof', 'ono', 'ooo', 'nfn']):
        rng = rng_for('C08shared', r.seed, k)
        X = data(rng, [(4, 4, 3), (3, 3, 3), (3, 4, 3)][k % 3], ['noise', 'positive'][k % 2], 2)
        r.scenario('shared', _cp, rng, X, 2, nn=[f == 'n' for f in flags], orth=[f == 'o' for f in flags], split=1, shared=True)

    def both(r, order, mode, ridge):
        rng = rng_for('C08both', order, mode)
        X = data(rng, (3,)*order, 'noise', 2)
        flags = [i == mode for i in range(order)]

        def go():
            CP_ALS(2, max_its=2, non_negativity_constraints=flags, orthonormality_constraints=flags, ridge_penalties=ridge).fit(X)
        _, exc = r.call(go)
        r.emit('reject', exc=exc)
    for order in (2, 3, 4):
        for mode in range(order):
            r.scenario('both', both, order, mode, None if mode % 2 else [.1]*order)


# --------------------------------------------------------------------------------------------- C09
def _pf2(r, rng, Xs, R, nn, orth, ridge, inner, how, its=2, as_array=False, split=0, compute=True, integers=0, power=0):
    unit = 2.0**power
    X = [x*unit for x in Xs] if power else Xs
    if as_array:
        X = np.ascontiguousarray(np.stack(X).transpose(1, 2, 0))
    shown = lambda m: pf_state(m, unit)
    obs = Observer(shown)
    kw = settings(nn, orth, gauge_ridge(ridge, (0, unit)))
    model = Parafac2_ALS(R, init=how, loggers=[obs], print_frequency=-1, **({'cp_updates_per_it': inner} if inner else {}), **kw)
    start = None
    if how == 'precomputed':
        def scale(n):
            f = rng.uniform(.3, 1.4, (n, R))
            return f
        A = orthonormal(rng, Xs[0].shape[0], R) if orth and orth[0] else scale(Xs[0].shape[0])
        C = orthonormal(rng, len(Xs), R) if orth and orth[2] else scale(len(Xs))
        B, P = rng.uniform(.2, 1, (R, R)) + np.eye(R), [orthonormal(rng, x.shape[1], R) for x in Xs]
        if integers:        # bit 0, 1, 2, 3: A, B, C, P
            A, B, C = [np.rint(2*f).astype(int) if integers >> k & 1 and not (orth and orth[k]) else f for k, f in enumerate((A, B, C))]
            P = [np.eye(len(p), R, dtype=int) if integers & 8 else p for p in P]
        if integers & 16:   # one array in several places
            P = [P[0] if p.shape == P[0].shape else p for p in P]
            C = A if C.shape == A.shape else C
            start = Parafac2Tensor(A, B if B.shape != A.shape else A, C, P)
        else:
            start = Parafac2Tensor(*[layout(rng, f) for f in (A*unit if power else A, B, C)], [layout(rng, p) for p in P])
    seed_global(r.seed, 'pf2', R, len(Xs))
    _, exc = r.call(model.fit, X, max_its=0, initial_decomposition=start)
    if exc:
        r.emit('call', exc=exc, seen=0, wanted=0)
        return
    last = shown(model)
    for k in range(split + 1):
        obs.seen.clear()
        total = its + k
        _, exc = r.call(model.continue_fit, max_its=total)
        r.emit('call', exc=exc, seen=len(obs.seen), wanted=its if k == 0 else 1)
        if exc:
            return
        for after in obs.seen:
            r.emit('pf_iteration', slices=arrs(Xs), nn=[bool(x) for x in nn or [0]*3], orth=[bool(x) for x in orth or [0]*3],
                   ridge=[num(x) for x in ridge or [0]*3], inner=inner or 5, before=last, after=after, compute=compute)
            last = after


def pf_data(rng, I, widths, R, kind='noise'):
    K = len(widths)
    A, C, B = rng.uniform(.3, 1.5, (I, R)), rng.uniform(.5, 2, (K, R)), rng.standard_normal((R, R)) + np.eye(R)
    out = []
    for k, J in enumerate(widths):
        P = orthonormal(rng, J, R)
        x = A*C[k] @ (P @ B).T + .2*rng.standard_normal((I, J))
        if kind == 'unstructured':
            x = rng.standard_normal((I, J))
        if kind == 'int':
            x = np.rint(3*x).astype([int, float][k % 2])
        if kind == 'whole':
            x = np.rint(3*x).astype(int)
        if kind == 'large':
            x = 50*x
        if kind == 'tiny_slice' and k == len(widths) - 1:
            x = 1e-5*x
        if kind == 'zero_slice' and k == 0:
            x = 0*x
        if kind == 'same' and k and widths[k] == widths[k - 1]:
            x = out[-1]
        out.append(layout(rng, x) if kind == 'layout' else x)
    return out


def C09(r):
    n = 0
    combos = [(a, b, c) for a in 'fno' for b in 'fn' for c in 'fno']
    for rep in range(1 if not r.thorough else 6):
        for flags in combos + [('f', 'f', 'f')]*14:
            n += 1
            rng = rng_for('C09', r.seed, n)
            R = [2, 1, 3, 2][n % 4]
            K = max(2, R) if 'o' == flags[2] else int(rng.integers(1, 4)) if n % 5 == 0 else int(rng.integers(2, 5))
            I = max(R, 3) + n % 3
            regular = n % 3 == 0
            widths = [R + 1 + n % 2]*K if regular else [int(x) for x in rng.integers(R, R + 4, K)]
            if 'o' not in flags:
                R = min(R, I*1)
            nn = [f == 'n' for f in flags] if 'n' in flags else None
            orth = [f == 'o' for f in flags] if 'o' in flags else None
            ridge = None if n % 2 else [.3, .2, .4] if n % 4 else [0, .5, 0]
            how = ['random', 'precomputed', 'svd', 'precomputed'][n % 4]
            if how == 'svd' and (R > I or 'n' in flags):
                how = 'random'
            inner = [1, 1, None, 2][n % 4] if not rep % 2 else [2, None, 1, 3][n % 4]
            Xs = pf_data(rng, I, widths, R, ['noise', 'int', 'layout', 'large', 'unstructured', 'whole', 'noise'][n % 7])
            r.scenario('pf2_' + ''.join(flags) + ('_ridge' if ridge else ''), _pf2, rng, Xs, R, nn, orth, ridge, inner, how,
                       its=3, as_array=regular and n % 2 == 0, split=n % 3)
    for k in range(1, 16):
        rng = rng_for('C09integers', r.seed, k)
        Xs = pf_data(rng, 4, [3, 4, 3], 2, ['noise', 'int', 'whole'][k % 3])
        r.scenario('integer_start', _pf2, rng, Xs, 2, [None, [True, False, True]][k // 2 % 2], None, [None, None, [.1, .1, .1]][k % 3], 1,
                   'precomputed', its=2, split=k % 2, integers=k)
    for k in range(8 if not r.thorough else 40):
        rng = rng_for('C09slices', r.seed, k)
        nn = [[False, False, True], None, [True]*3, None][k % 4]
        r.scenario('slices', _pf2, rng, pf_data(rng, 4 + k % 2, [3, 4, 5], 2, ['tiny_slice', 'zero_slice'][k // 2 % 2]), 2, nn, None,
                   [None, None, [.1, .1, .1]][k % 3], 1, ['random', 'precomputed'][k % 2], its=3, split=k % 2)
    for k in range(3 if not r.thorough else 12):        # one and the same array is several slices
        rng = rng_for('C09same', r.seed, k)
        r.scenario('same', _pf2, rng, pf_data(rng, 4, [[4, 4, 3], [3, 3, 3], [5, 3, 3, 4, 4]][k % 3], 2, 'same'), 2, [None, [True, False, True]][k//2 % 2], None,
                   None, [1, None][k % 2], ['precomputed', 'random'][k % 2], its=2, split=1)
    for k in range(6 if not r.thorough else 24):
        rng = rng_for('C09shared', r.seed, k)
        Xs = pf_data(rng, [4, 3, 2][k % 3], [[4, 4, 3], [3, 3, 3], [3, 4, 3, 4]][k % 3], 2, ['noise', 'unstructured'][k//3 % 2])
        r.scenario('shared', _pf2, rng, Xs, 2, [None, [True, False, True]][k//2 % 2], None, [None, None, [.1, .2, .3]][k % 3], [1, None][k % 2],
                   'precomputed', its=2, split=1, integers=16)
    for k in range(4 if not r.thorough else 12):
        rng = rng_for('C09inner', r.seed, k)
        r.scenario('inner', _pf2, rng, pf_data(rng, 4, [[3, 4, 3], [3, 3]][k % 2], 2), 2, [None, [True, False, True]][k//2 % 2], None, [None, [.1, .2, .3]][k % 2],
                   [6, 8, 7, 11][k % 4], ['random', 'precomputed'][k//2 % 2], its=2)
    for k in range(2 if not r.thorough else 12):
        rng = rng_for('C09late', r.seed, k)
        r.scenario('late', late, 'pf2', LATE[(k + 2*r.seed) % 8] if k else LATE[0], pf_data(rng, 4, [3, 4, 3], 2, ['noise', 'unstructured'][k % 2]), 2, (),
                   [None, None, [True, False, True]][k % 3], None, [None, [.1, .1, .1]][k % 2], inner=1 + k//2 % 2, key=k)
    for k in range(2):
        rng = rng_for('C09long', r.seed, k)
        r.scenario('long', _pf2, rng, pf_data(rng, 5, [4, 6, 3, 5], 2), 2, None, None, [None, [.1, .1, .1]][k], None, 'random',
                   its=12 if not r.thorough else 60, compute=False)
    for k in range(6 if not r.thorough else 30):
        rng = rng_for('C09unit', r.seed, k)
        nn = [None, [False, False, True], None][k % 3]
        r.scenario('unit', _pf2, rng, pf_data(rng, 4, [3, 4, 3], 2), 2, nn, [None, None, [False, False, True]][k % 3], [None, [.1, .2, .3]][k//3 % 2],
                   [1, None][k % 2], 'precomputed', its=2, split=1, compute=False, power=[30, 40][k % 2] if nn else [-30, 30, -20][k % 3])
    rng = rng_for('C09cp', r.seed)
    r.scenario('cp_init', _pf2, rng, pf_data(rng, 5, [4, 4, 4], 2), 2, None, None, None, 1, 'cp', its=3, as_array=True)
    rng = rng_for('C09big', r.seed)
    r.scenario('big', _pf2, rng, pf_data(rng, 12, [10, 14, 8, 11, 9], 3), 3, None, None, None, 1, 'svd', its=2)


# --------------------------------------------------------------------------------------------- C10
def _cmtf(r, rng, X, Ys, at, R, nn=None, orth=None, ridge=None, its=3, how='random', weights=None, split=1, transform=False, power=0, shared=False):
    p = problem(X, nn, orth, ridge, Ys, at)
    gauge = gauged([0], power) if power else None       # the first mode is not coupled then
    unit = 2.0**power
    shown = (lambda m: kruskal_state(m, gauge)) if gauge else kruskal_state
    obs = Observer(shown)
    if gauge:
        X, Ys, ridge = X*unit, [y*unit for y in Ys], gauge_ridge(ridge, gauge)
    model = CMTF_ALS(R, init=how, loggers=[obs], rel_loss_tol=0, **settings(nn, orth, ridge))
    start = initial(rng, X.shape, R, nn, orth, weights, shared=shared) if how == 'precomputed' else None
    if gauge and start is not None:
        start.factor_matrices[0] = start.factor_matrices[0]*unit
    seed_global(r.seed, X.shape, R)
    last = None
    for k in range(split + 1):
        obs.seen.clear()
        pairs = None
        if k == 0 and transform:
            out, exc = r.call(model.fit_transform, X, Ys, at, max_its=its, initial_decomposition=start)
            if not exc:
                dec, pairs = out
        elif k == 0:
            _, exc = r.call(model.fit, X, Ys, at, max_its=its, initial_decomposition=start)
        else:
            _, exc = r.call(model.continue_fit, max_its=its + k)
        r.emit('call', exc=exc, seen=len(obs.seen), wanted=its if k == 0 else 1)
        if exc:
            return
        steps(r, p, last, obs.seen, certify_first=not (orth and any(orth)), monotone_first=ridge is None)
        # afterwards every factor has unit columns and the weights hold the size
        d = model.decomposition
        state = {'w': arr(d.weights/unit), 'U': arrs(d.factor_matrices), 'V': arrs([v/unit for v in model.uncoupled_factor_matrices])}
        if pairs is None:
            pairs = [[u, v] for u, v in zip(model.coupled_factor_matrices, model.uncoupled_factor_matrices)]
        else:
            state['U'], state['w'] = arrs(dec.factor_matrices), arr(dec.weights/unit)
        r.emit('returned', before=obs.seen[-1] if obs.seen else state, after=state, pairs=[arrs([q[0], q[1]/unit] if gauge else q) for q in pairs],
               Yhat=arrs([y/unit for y in model.reconstructed_coupled_matrices] if gauge else model.reconstructed_coupled_matrices), **p)
        last = state


def coupled(rng, X, at, kind='noise'):
    Ys = []
    for mode in at:
        Y = rng.standard_normal((X.shape[mode], int(rng.integers(1, 6))))
        if kind == 'positive':
            Y = np.abs(Y)
        if kind == 'int':
            Y = np.rint(2*Y).astype([float, int][mode % 2])
        Ys.append(layout(rng, Y) if kind == 'layout' else Y)
    # now and then one matrix is given twice
    if len(set(at)) < len(at) and rng.integers(2):
        i, j = [m for m in range(len(at)) if at.count(at[m]) > 1][:2]
        if at[i] == at[j]:
            Ys[j] = Ys[i]
    return Ys


def C10(r):
    n = 0
    couplings = [(0,), (1,), (2,), (0, 1), (2, 0), (0, 0), (1, 1, 2), (0, 1, 2), (), (2, 2, 2), (1, 0, 1, 1)]
    for rep in range(1 if not r.thorough else 6):
        for at in couplings:
            for constraint in ('free', 'nn_all', 'nn_coupled', 'nn_other', 'orth_other', 'ridge'):
                n += 1
                rng = rng_for('C10', r.seed, n)
                shape = [(4, 3, 3), (3, 4, 2), (5, 3, 4)][n % 3]
                R = [2, 1, 3][n % 3] if constraint != 'orth_other' else 2
                free = [m for m in range(3) if m not in at]
                nn = orth = ridge = None
                if constraint == 'nn_all':
                    nn = [True]*3
                elif constraint == 'nn_coupled':
                    nn = [m in at for m in range(3)]
                elif constraint == 'nn_other':
                    nn = [m not in at for m in range(3)]
                elif constraint == 'orth_other':
                    if not free:
                        continue
                    orth = [m == free[0] for m in range(3)]
                    if shape[free[0]] < R:
                        continue
                elif constraint == 'ridge':
                    ridge = [.3, 0, .7]
                X = data(rng, shape, ['noise', 'positive', 'int', 'layout'][n % 4], R)
                Ys = coupled(rng, X, at, ['noise', 'positive', 'int', 'layout'][(n // 2) % 4])
                how = ['random', 'precomputed', 'svd'][n % 3]
                if how == 'svd' and (R > min(shape) or nn):
                    how = 'random'
                weights = rng.uniform(.3, 2, R) if n % 2 and how == 'precomputed' else None
                r.scenario(f"{''.join(map(str, at))}_{constraint}", _cmtf, rng, X, Ys, list(at), R, nn, orth, ridge,
                           its=2 + n % 2, how=how, weights=weights, split=n % 3, transform=n % 2 == 0)
    for k, (shape, at) in enumerate([((3, 2, 3, 2), (1, 3)), ((4, 3), (0,)), ((4, 5), (0, 1)), ((2, 3, 2, 2), (2,))]):
        rng = rng_for('C10o', r.seed, k)
        X = data(rng, shape, 'noise', 2)
        r.scenario(f'order{len(shape)}', _cmtf, rng, X, coupled(rng, X, at), list(at), 2, its=3, split=1, transform=k % 2 == 0)
    for k in range(6 if not r.thorough else 40):
        rng = rng_for('C10unit', r.seed, k)
        at = [(1,), (2,), (1, 2), (2, 2)][k % 4]
        X = data(rng, (4, 3, 3), ['noise', 'positive', 'large'][k % 3], 2)
        nn = [None, [True]*3, [False, True, False]][k//2 % 3]
        r.scenario('unit', _cmtf, rng, X, coupled(rng, X, at, ['noise', 'positive'][k % 2]), list(at), 2, nn, None, [None, [.3, 0, .7]][k % 2], its=3,
                   how=['precomputed', 'random'][k//2 % 2], split=1, transform=k % 2 == 0, power=[20, 30, 40][k % 3] if nn or k//2 % 2 else [-10, 30][k % 2])
    for k in range(4 if not r.thorough else 20):
        rng = rng_for('C10shared', r.seed, k)
        at, nn = [(0,), (1,), (0, 2), (2, 2)][k % 4], [None, [True]*3][k//2 % 2]
        X = data(rng, [(4, 4, 3), (3, 3, 3), (3, 4, 3)][k % 3], ['noise', 'positive'][k//2 % 2], 2)
        r.scenario('shared', _cmtf, rng, X, coupled(rng, X, at), list(at), 2, nn, None, [None, [.1, .2, .3]][k % 2], how='precomputed',
                   weights=[None, rng.uniform(.3, 2, 2)][k % 2], split=1, transform=k % 2 == 0, shared=True)
    for k in range(2 if not r.thorough else 16):
        rng = rng_for('C10late', r.seed, k)
        X, at = data(rng, (4, 3, 3), 'noise', 2), [(0, 2), (1,), (1, 1)][k % 3]
        r.scenario('late', late, 'cmtf', LATE[(k + 2*r.seed) % 8] if k else LATE[0], X, 2, (coupled(rng, X, at), list(at)),
                   [None, None, [True]*3][k % 3], None, [None, [.1, 0, .2]][k//2 % 2], key=k)
    rng = rng_for('C10long', r.seed)
    X = data(rng, (5, 4, 3), 'noise', 2)
    r.scenario('long', _cmtf, rng, X, coupled(rng, X, (0, 2)), [0, 2], 2, its=12 if not r.thorough else 60, split=3)
    X = data(rng, (12, 10, 9), 'noise', 3)
    r.scenario('big', _cmtf, rng, X, coupled(rng, X, (1,)), [1], 3, its=2, split=1)
