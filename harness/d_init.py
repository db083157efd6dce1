"""Scenarios for C17: what a model starts from."""
import os
import tempfile

import numpy as np

from d_als import coupled, data, initial, pf_data
from d_model import orthonormal
from rec import arr, arrs, num, rng_for, seed_global
from tenkit.decomposition.cmtf import CMTF_ALS
from tenkit.decomposition.cp import CP_ALS
from tenkit.decomposition.decompositions import KruskalTensor, Parafac2Tensor
from tenkit.decomposition.parafac2 import Parafac2_ALS

CASES = [str.lower, str.upper, str.title, lambda s: s, str.swapcase]


def kt_state(d):
    return {'w': arr(d.weights), 'U': arrs(d.factor_matrices)}


def pf_state(d):
    return {'A': arr(d.A), 'B': arr(d.blueprint_B), 'C': arr(d.C), 'P': arrs(d.projection_matrices)}


NONE_KT = {'w': arr(None), 'U': []}
NONE_PF = {'A': arr(None), 'B': arr(None), 'C': arr(None), 'P': []}


def kruskal(r, key, cls, scheme, shape, R, nn=None, orth=None, weighted=False, kind='noise', case=0):
    rng = rng_for('C17', key)
    X = data(rng, shape, kind, min(R, 2))
    extra = []
    if cls is CMTF_ALS:
        at = [int(rng.integers(len(shape)))]
        extra = [coupled(rng, X, at), at]
    kw = {}
    if nn is not None:
        kw['non_negativity_constraints'] = nn
    if orth is not None:
        kw['orthonormality_constraints'] = orth
    n = len(shape)
    fields = dict(X=arr(X), rank=R, nn=nn or [False]*n, orth=orth or [False]*n, scheme=scheme, given=NONE_KT, rescaled=cls is CMTF_ALS)
    seed_global(key)
    with tempfile.TemporaryDirectory() as tmp:
        start, how = None, scheme
        if scheme in ('precomputed', 'checkpoint'):
            start = initial(rng, shape, R, nn, orth, rng.uniform(.5, 2, R) if weighted else None)
            fields['given'] = kt_state(start)
        if scheme == 'checkpoint':
            # a file with several checkpoints, of which the latest counts
            path = os.path.join(tmp, ['start.h5', 'Start 1.H5', 'RANDOM.hdf5', 'svd'][int(rng.integers(4))])
            m = cls(R, init='precomputed', checkpoint_path=path, checkpoint_frequency=1, convergence_tol=0, rel_loss_tol=0, **kw)
            seen = []

            class Keep:
                def log(self, model):
                    seen.append(kt_state(model.decomposition))

                def write_to_hdf5_group(self, g):
                    pass
            m.loggers = [Keep()]
            _, exc = r.call(m.fit, X, *extra, max_its=int(rng.integers(1, 4)), initial_decomposition=start)
            if exc:
                r.emit('start', exc=exc, after=NONE_KT, **fields)
                return
            fields['given'] = seen[-1]
            how, start = ('from_checkpoint', path) if rng.integers(2) else (path, None)
        if os.path.sep not in how:
            how = CASES[int(rng.integers(len(CASES)))](how)
        model = cls(R, init=how, **kw)
        _, exc = r.call(model.fit, X, *extra, max_its=0, initial_decomposition=start)
        r.emit('start', exc=exc, after=NONE_KT if exc else kt_state(model.decomposition), **fields)


def graded(r, key, cls):
    """Data with components of very different sizes."""
    rng = rng_for('C17graded', key)
    shape = [(5, 4, 6), (4, 5), (4, 4, 5, 4)][int(rng.integers(3))]
    R = int(rng.integers(2, 4))
    U = [orthonormal(rng, s, R) for s in shape]
    w = 10.0**-np.cumsum([0, *rng.uniform(2, 4.2, R - 1)])
    X = KruskalTensor([u.copy() for u in U], w*10.0**rng.integers(-2, 3)).construct_tensor()
    extra = [coupled(rng, X, [0]), [0]] if cls is CMTF_ALS else []
    model = cls(R, init='svd')
    _, exc = r.call(model.fit, X, *extra, max_its=0)
    r.emit('known_start', exc=exc, directions=arrs(U), after=NONE_KT if exc else kt_state(model.decomposition))


def parafac2(r, key, scheme, I, widths, R, as_array=False, nn=None, case=0, kind='noise'):
    rng = rng_for('C17pf', key)
    Xs = pf_data(rng, I, widths, R, kind)
    X = np.ascontiguousarray(np.stack(Xs).transpose(1, 2, 0)) if as_array else Xs
    M = sum(np.asarray(x, float) @ np.asarray(x, float).T for x in Xs)
    fields = dict(slices=arrs(Xs), rank=R, scheme=scheme, given=NONE_PF, separator=num(np.linalg.eigvalsh(M)[::-1][R - 1]))
    seed_global(key)
    with tempfile.TemporaryDirectory() as tmp:
        start, how = None, scheme
        if scheme in ('precomputed', 'checkpoint'):
            start = Parafac2Tensor(rng.uniform(.2, 1, (I, R)), rng.uniform(.2, 1, (R, R)) + np.eye(R),
                                   rng.uniform(.2, 1, (len(Xs), R)), [orthonormal(rng, w, R) for w in widths])
            fields['given'] = pf_state(start)
        if scheme == 'checkpoint':
            path = os.path.join(tmp, ['start.h5', 'Start 1.H5', 'RANDOM.hdf5', 'svd'][int(rng.integers(4))])
            m = Parafac2_ALS(R, init='precomputed', checkpoint_path=path, checkpoint_frequency=1, convergence_tol=0, print_frequency=-1)
            _, exc = r.call(m.fit, X, max_its=int(rng.integers(1, 3)), initial_decomposition=start)
            if exc:
                r.emit('pf_start', exc=exc, after=NONE_PF, independent=True, **fields)
                return
            fields['given'] = pf_state(m.decomposition)
            how, start = ('from_checkpoint', path) if rng.integers(2) else (path, None)
        if os.path.sep not in how:
            how = CASES[int(rng.integers(len(CASES)))](how)
        model = Parafac2_ALS(R, init=how, print_frequency=-1)
        _, exc = r.call(model.fit, X, max_its=0, initial_decomposition=start)
        after, independent = NONE_PF, True
        if not exc:
            after = pf_state(model.decomposition)
            P = model.decomposition.projection_matrices
            if len(P) > 1:      # changing one projection leaves the others alone
                k = int(rng.integers(len(P)))
                before = [np.array(p) for p in P]
                P[k][...] = -P[k]
                independent = all(bool((p == q).all()) for i, (p, q) in enumerate(zip(P, before)) if i != k)
        r.emit('pf_start', exc=exc, after=after, independent=independent, **fields)


# ------------------------------------------------------------------------------------------ rejections
def reject_kruskal(r, cls, key):
    rng = rng_for('C17rej', key)
    order = 2 + key % 3
    shape = tuple(int(x) for x in rng.integers(2, 5, order))
    R = int(rng.integers(1, 3))
    X = data(rng, shape, 'noise', R)
    extra = [coupled(rng, X, [0]), [0]] if cls is CMTF_ALS else []

    def attempt(how, start=None, rank=R):
        for its in (1, 0):
            model = cls(rank, init=how)
            _, exc = r.call(model.fit, X, *extra, max_its=its, initial_decomposition=start)
            r.emit('reject', exc=exc)

    def start(shape, rank=R):
        return initial(rng, shape, rank, None, None, None)
    attempt('precomputed', start(shape, R + 1))
    attempt('PRECOMPUTED', start(shape), R + 1)
    if R > 1:
        attempt('precomputed', start(shape, R - 1))
    for n in range(order):
        for d in (1, -1):
            attempt('precomputed', start(tuple(s + d*(i == n) for i, s in enumerate(shape))))
    attempt('precomputed', start(shape + (1,)))
    attempt('precomputed', start(shape + (2,)))
    if order > 2:
        attempt('precomputed', start(shape[:-1]))
        attempt('precomputed', start(shape[1:]))
    if len(set(shape)) > 1 and shape != shape[::-1]:
        attempt('precomputed', start(shape[::-1]))
    for rank in (min(shape) + 1, min(shape) + 2, max(shape) + 1):
        attempt('svd', rank=rank)
        attempt('SVD', rank=rank)
    for how in ('nonsense', '', 'svd ', 'random_init', 'cp', 'from checkpoint', 'no/such/file.h5', 'checkpoint'):
        attempt(how)


def reject_pf(r, key):
    rng = rng_for('C17rejpf', key)
    R, K, I = 2, int(rng.integers(2, 4)), int(rng.integers(2, 5))
    widths = [int(x) for x in rng.integers(2, 5, K)] if key % 2 else [3]*K
    Xs = pf_data(rng, I, widths, R)
    X = np.ascontiguousarray(np.stack(Xs).transpose(1, 2, 0)) if not key % 2 and key % 4 else Xs

    def attempt(how, start=None, rank=R):
        model = Parafac2_ALS(rank, init=how, print_frequency=-1)
        _, exc = r.call(model.fit, X, max_its=1, initial_decomposition=start)
        r.emit('reject', exc=exc)

    def start(I=I, widths=widths, K=None, R=R):
        K = len(widths) if K is None else K
        return Parafac2Tensor(rng.uniform(.2, 1, (I, R)), np.eye(R), rng.uniform(.2, 1, (K, R)), [orthonormal(rng, w, R) for w in widths])
    attempt('precomputed', start(I=I + 1))
    attempt('precomputed', start(I=I - 1))
    attempt('precomputed', start(widths=widths + [3]))
    attempt('precomputed', start(widths=widths[:-1]))
    attempt('precomputed', start(widths=widths + [3], K=K))
    attempt('precomputed', start(widths=widths[:-1], K=K))
    attempt('precomputed', start(K=K + 1))
    for k in range(K):
        attempt('Precomputed', start(widths=[w + (i == k) for i, w in enumerate(widths)]))
    attempt('precomputed', start(R=1))
    attempt('precomputed', start(), 1)
    attempt('svd', rank=I + 1)
    attempt('SVD', rank=I + 3)
    for how in ('nonsense', '', 'svd ', 'cp_als', 'no/such/file.h5', 'checkpoint'):
        attempt(how)


def C17(r):
    shapes = [(3, 4), (4, 3, 3), (2, 3, 4), (5, 2, 2), (3, 2, 2, 3), (2, 2, 2, 2, 2), (7, 2, 3), (1, 3, 3), (12, 3)]
    n = 0
    for rep in range(1 if not r.thorough else 12):
        for cls in (CP_ALS, CMTF_ALS):
            for shape in shapes:
                for scheme in ('random', 'svd', 'precomputed', 'checkpoint'):
                    n += 1
                    rng = rng_for('C17set', r.seed, n)
                    order = len(shape)
                    R = int(rng.integers(1, 4))
                    kind = ['noise', 'int', 'layout', 'large', 'small', 'zero_slice'][n % 6]
                    nn = orth = None
                    if scheme == 'svd':
                        R = min(R, *shape) if n % 2 else min(shape)
                        if kind == 'zero_slice' and shape[0] == 1:
                            kind = 'noise'
                    else:
                        flags = [int(x) for x in rng.integers(0, 2, order)]
                        if rng.integers(2):
                            nn = [bool(f) for f in flags]
                            if kind in ('zero_slice',):
                                kind = 'positive'
                        elif rng.integers(2) and cls is CP_ALS:
                            orth = [bool(f) and s >= R for f, s in zip(flags, shape)]
                            if all(orth):
                                orth[0] = False
                    weighted = bool(rng.integers(2))
                    r.scenario(f'{cls.__name__}_{scheme}', kruskal, (r.seed, n), cls, scheme, shape, R, nn, orth, weighted, kind, n)
        for scheme in ('random', 'svd', 'cp', 'precomputed', 'checkpoint'):
            for v in range(6 if scheme != 'svd' else 14):
                n += 1
                rng = rng_for('C17pfset', r.seed, n)
                R = 1 + v % 3
                K, I = int(rng.integers(1, 5)), max(R, int(rng.integers(2, 6)))
                same = scheme == 'cp' or v % 2 == 0
                widths = [R + 2]*K if same else [int(x) for x in rng.integers(R, R + (3 if v < 6 else 7), K)]
                if v >= 6:
                    I, widths = R + v % 5, widths + [R, R + 6]
                    same = False
                if scheme == 'cp':
                    K = max(K, 2)
                    widths = [R + 2]*K
                r.scenario(f'PF2_{scheme}', parafac2, (r.seed, n), scheme, I, widths, R, as_array=same and bool(rng.integers(2)), case=n,
                           kind=['noise', 'int', 'layout', 'large'][n % 4])
    for i in range(8 if not r.thorough else 60):
        r.scenario('graded', graded, (r.seed, i), [CP_ALS, CMTF_ALS][i % 2])
    for i in range(6 if not r.thorough else 30):
        r.scenario('reject_cp', reject_kruskal, CP_ALS, i)
        r.scenario('reject_cmtf', reject_kruskal, CMTF_ALS, 100 + i)
        r.scenario('reject_pf2', reject_pf, i)
