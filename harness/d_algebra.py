"""Scenarios for C01, C03 and C04."""
import itertools

import numpy as np

from rec import arr, arrs, exact, grid, ints, num, rng_for, seed_global
from tenkit import base
from tenkit.decomposition.decompositions import KruskalTensor


def layout(rng, a):
    """The same values in another memory layout."""
    k = rng.integers(6)
    if k == 0:
        return np.asfortranarray(a)
    if k == 3:
        order = [int(x) for x in rng.permutation(a.ndim)]
        return np.ascontiguousarray(a.transpose(order)).transpose(np.argsort(order))
    if k == 4:
        return np.ascontiguousarray(a[tuple(slice(None, None, -1) for _ in a.shape)])[tuple(slice(None, None, -1) for _ in a.shape)]
    if k == 1 and a.ndim == 2:
        return np.ascontiguousarray(a.T).T
    if k == 2:
        big = np.zeros([2*s for s in a.shape])
        view = big[tuple(slice(None, None, 2) for _ in a.shape)]
        view[...] = a
        return view
    return a


# ------------------------------------------------------------------------------------------- C01
def _construct(r, rng, sizes, rank, weighting, integer=True, relayout=False, power=0):
    U = [grid(rng, (s, rank)) if integer else rng.standard_normal((s, rank)) for s in sizes]
    if relayout:
        U = [layout(rng, u) for u in U]
    w = None
    if weighting == 'any':
        w = grid(rng, rank, 4) * .5
    elif weighting == 'list':
        w = [float(x) for x in grid(rng, rank, 4)]
    elif weighting == 'int':
        w = rng.integers(-3, 4, rank)
    elif weighting == 'near_one':
        w = 1 + rng.uniform(-1, 1, rank)*8e-6
    elif weighting == 'zero':
        w = np.zeros(rank)
    Uin, win = arrs(U), arr(w if w is not None else np.ones(rank))

    if power:       # the same tensor with its size moved between the weights and a factor matrix
        U[0], w = U[0]*2.0**power, np.asarray(w)*2.0**-power

    def go():
        kt = KruskalTensor([u.copy() if not relayout else u for u in U], w) if w is not None else KruskalTensor(U)
        return kt, kt.construct_tensor()
    res, exc = r.call(go)
    kt, out = res if res else (None, None)
    r.emit('construct', U=Uin, w=win, weighted=w is not None, out=arr(out), exc=exc,
           shape=ints(kt.shape) if kt else [], rank=int(kt.rank) if kt else -1,
           wout=arr(kt.weights*2.0**power if kt else None))


def C01(r):
    for order in (2, 3, 4):
        for sizes in itertools.product((1, 2, 3), repeat=order):
            if order == 4 and sum(sizes) % (1 if r.thorough else 3):
                continue
            rng = rng_for('C01', r.seed, sizes)
            r.scenario(f'small{order}', lambda r: [
                _construct(r, rng, sizes, int(rng.integers(1, 4)), wt) for wt in ('none', 'any')])

    def mixed(r):
        rng = rng_for('C01mixed', r.seed)
        for i in range(40 if not r.thorough else 200):
            order = int(rng.integers(2, 6))
            sizes = [int(x) for x in rng.integers(1, 7 if order < 4 else 5, order)]
            _construct(r, rng, sizes, int(rng.integers(1, 6)), ['none', 'any', 'list', 'int', 'zero', 'near_one'][i % 6],
                       integer=i % 2 == 0, relayout=i % 3 == 0)
    r.scenario('mixed', mixed)

    def moved(r):
        rng = rng_for('C01moved', r.seed)
        for i in range(12 if not r.thorough else 100):
            sizes = [int(x) for x in rng.integers(1, 5, int(rng.integers(2, 5)))]
            _construct(r, rng, sizes, int(rng.integers(1, 5)), ['any', 'list', 'int'][i % 3], integer=i % 2 == 0, power=[33, -33, 60, -20][i % 4])
    r.scenario('moved', moved)
    # sizes at which an implementation could switch algorithm
    big = [(40, 50), (17, 19, 23), (64, 3, 33), (2, 3, 129, 2), (3, 2, 2, 3, 2, 2), (1, 1, 257), (130, 2, 2), (9, 8, 7, 6)]
    if r.thorough:
        big += [(30, 40, 50), (300, 20), (11, 12, 13, 6), (5, 1, 600), (2,)*9]
    for sizes in big:
        rng = rng_for('C01big', r.seed, sizes)
        for rank in ((1, 7) if len(sizes) < 4 else (3,)) + ((12,) if sizes == (40, 50) else ()):
            r.scenario('big', lambda r: _construct(r, rng, sizes, rank, 'any', integer=False))

    def reject(r):
        rng = rng_for('C01reject', r.seed)
        for order in (2, 3, 4, 5):
            for bad in range(order):
                for delta in (1, -1, 2):
                    U = [grid(rng, (3, 3 + (delta if n == bad else 0))) for n in range(order)]
                    _, exc = r.call(lambda: KruskalTensor(U))
                    r.emit('reject', exc=exc, what=f'columns {bad}/{order}/{delta}')
            for n in (1, 2, 4, 6):
                for order2 in (list, np.array):
                    U = [grid(rng, (3, 3)) for _ in range(order)]
                    _, exc = r.call(lambda: KruskalTensor(U, order2([1.]*n)))
                    r.emit('reject', exc=exc, what=f'{n} weights')
    r.scenario('reject', reject)


# ------------------------------------------------------------------------------------------- C03
def _unfold_all(r, X, Xin):
    N = X.ndim
    for mode in range(-N, N):
        M, exc = r.call(base.unfold, X, mode)
        r.emit('unfold', X=Xin, mode=mode, out=arr(M), exc=exc)
        if not exc:
            Y, exc = r.call(base.fold, M, mode, [tuple, list][mode % 2](X.shape))
            r.emit('fold_unfold', X=Xin, out=arr(Y), exc=exc)


def _fold_all(r, rng, sizes):
    N = len(sizes)
    for mode in range(-N, N):
        M = grid(rng, (sizes[mode], int(np.prod(sizes)) // sizes[mode]), 9)
        out, exc = r.call(base.fold, layout(rng, M), mode, shape=list(sizes))
        r.emit('fold', M=arr(M), mode=mode, shape=ints(sizes), out=arr(out), exc=exc)


def _products(r, rng, sizes, rank, integer=True):
    gen = (lambda s: grid(rng, s)) if integer else rng.standard_normal
    U = [layout(rng, gen((s, rank))) for s in sizes]
    if integer:      # integers of different types and single precision represent the same numbers
        U = [u.astype([float, int, np.float32, np.int8][int(rng.integers(4))]) for u in U]
    elif rng.integers(2):   # integers beside real numbers
        U = [grid(rng, u.shape).astype(int) if rng.integers(2) else u for u in U]
    Uin = arrs(U)
    N = len(sizes)
    for skip in [None] + (list(range(-N, N)) if N > 1 else []):
        out, exc = r.call(base.khatri_rao, *U, skip=skip)
        r.emit('khatri_rao', U=Uin, skips=skip is not None, skip=0 if skip is None else skip, out=arr(out), exc=exc)
    if N >= 2:
        out, exc = r.call(base.khatri_rao_binary, U[0], U[1])
        r.emit('khatri_rao', U=Uin[:2], skips=False, skip=0, out=arr(out), exc=exc)
        X = layout(rng, gen(tuple(sizes)))
        if integer and rng.integers(3) == 0:
            X = X.astype([int, np.float32][int(rng.integers(2))])
        Xin = arr(X)
        for mode in range(-N, N):
            out, exc = r.call(base.matrix_khatri_rao_product, X, [list, tuple][mode % 2](U), mode)
            r.emit('mttkrp', X=Xin, U=Uin, mode=mode, out=arr(out), exc=exc)
        _unfold_all(r, X, Xin)
        _fold_all(r, rng, sizes)


def _kron(r, rng, shapes):
    U = [layout(rng, grid(rng, s).astype(int) if rng.integers(3) == 0 else rng.standard_normal(s)) for s in shapes]
    out, exc = r.call(base.kron, *U)
    r.emit('kron', U=arrs(U), out=arr(out), exc=exc)
    if len(U) == 2:
        out, exc = r.call(base.kron_binary, *U)
        r.emit('kron', U=arrs(U), out=arr(out), exc=exc)
        u, v = U[0].ravel(), U[1].ravel()
        out, exc = r.call(base.kron_binary_vectors, u, v)
        r.emit('kron_vectors', u=arr(u), v=arr(v), out=arr(out), exc=exc)


def _flatten(r, rng, sizes, rank):
    U = [layout(rng, rng.standard_normal((s, rank))) for s in sizes]
    flat, exc = r.call(base.flatten_factors, U)
    r.emit('flatten', U=arrs(U), out=arr(flat), exc=exc)
    if not exc:
        back, exc = r.call(base.unflatten_factors, flat, rank, [list, tuple][rank % 2](sizes))
        r.emit('unflatten', U=arrs(U), out=arrs(back) if back is not None else [], exc=exc)


def C03(r):
    for order in (2, 3, 4):
        for sizes in itertools.product((1, 2, 3), repeat=order):
            if not r.thorough and (order == 4 and (sum(sizes)*7 + sizes[0]) % 6 or order == 3 and sum(sizes) % 2):
                continue
            rng = rng_for('C03', r.seed, sizes)
            r.scenario(f'small{order}', lambda r: _products(r, rng, sizes, int(rng.integers(1, 4))))
    shapes = [(4, 5, 6), (6, 2, 5), (5,), (7, 2), (2, 3, 2, 3, 2), (3, 4, 2, 5), (1, 6, 4), (2, 2, 2, 2, 2, 2)]
    for k, sizes in enumerate(shapes*2):
        rng = rng_for('C03b', r.seed, sizes, k)
        r.scenario('medium', lambda r: _products(r, rng, sizes, int(rng.integers(1, 6)), integer=False))
    for sizes, rank in [((33, 17), 9), ((13, 11, 9), 5), ((70, 2, 3), 2), ((3, 70, 2), 2), ((2, 3, 70), 2), ((5, 6, 7, 4), 3)] + (
            [((20, 21, 22), 11), ((3, 4, 5, 6, 7), 2)] if r.thorough else []):
        rng = rng_for('C03c', r.seed, sizes)
        r.scenario('big', lambda r: _products(r, rng, sizes, rank))

    def tall(r):            # many rows
        rng = rng_for('C03tall', r.seed)
        for sizes, rank in [((1100, 2), 2), ((2, 1030), 1), ((34, 33), 2), ((2, 260, 3), 2), ((1030, 2, 1), 1)]:
            U = [rng.standard_normal((s, rank)) for s in sizes]
            out, exc = r.call(base.khatri_rao, *U)
            r.emit('khatri_rao', U=arrs(U), skips=False, skip=0, out=arr(out), exc=exc)
            X = rng.standard_normal(sizes)
            for mode in range(len(sizes)):
                out, exc = r.call(base.matrix_khatri_rao_product, X, U, mode)
                r.emit('mttkrp', X=arr(X), U=arrs(U), mode=mode, out=arr(out), exc=exc)
                M, exc = r.call(base.unfold, X, mode)
                r.emit('unfold', X=arr(X), mode=mode, out=arr(M), exc=exc)
    r.scenario('tall', tall)

    def krons(r):
        rng = rng_for('C03kron', r.seed)
        for n in (1, 2, 3, 4):
            for _ in range(6):
                _kron(r, rng, [tuple(int(x) for x in rng.integers(1, 4, 2)) for _ in range(n)])
        for _ in range(4):
            _kron(r, rng, [tuple(int(x) for x in rng.integers(2, 9, 2)) for _ in range(2)])
    r.scenario('kron', krons)

    def flats(r):
        rng = rng_for('C03flat', r.seed)
        for i in range(20):
            _flatten(r, rng, [int(x) for x in rng.integers(1, 9, int(rng.integers(1, 6)))], int(rng.integers(1, 6)))
        for sizes, rank in [([200, 3], 2), ([2, 130, 70], 3), ([1, 1, 500], 1), ([33]*7, 4)]:
            _flatten(r, rng, sizes, rank)
    r.scenario('flatten', flats)
    for sizes in [(5, 4, 3), (2, 3, 4, 5), (6, 7)]:      # every order of the modes in memory
        rng = rng_for('C03mem', r.seed, sizes)
        for order in itertools.permutations(range(len(sizes))):
            X = np.ascontiguousarray(rng.standard_normal([sizes[o] for o in order])).transpose(np.argsort(order))
            U = [rng.standard_normal((s, 2)) for s in sizes]

            def sc(r):
                _unfold_all(r, X, arr(X))
                for mode in range(-len(sizes), len(sizes)):
                    out, exc = r.call(base.matrix_khatri_rao_product, X, U, mode)
                    r.emit('mttkrp', X=arr(X), U=arrs(U), mode=mode, out=arr(out), exc=exc)
            r.scenario('memory', sc)


# ------------------------------------------------------------------------------------------- C04
def _low_rank(rng, n, m, k):
    return rng.standard_normal((n, k)) @ rng.standard_normal((k, m)) if k else np.zeros((n, m))


def _solvers(r, rng, n, m, p, k, consistent, integer=False):
    A = grid(rng, (n, m)) if integer else _low_rank(rng, n, m, min(k, n, m))
    if rng.random() < .2 and n > 1:
        A[int(rng.integers(n))] = 0                       # an unknown that does not matter
    if rng.random() < .2 and n > 1:
        A[-1] = A[0]                                      # collinear unknowns
    A *= 10.0 ** int(rng.integers(-2, 3))
    X0 = rng.standard_normal((p, n))
    B = X0 @ A if consistent else rng.standard_normal((p, m))
    if rng.random() < .1:
        B[0] = 0
    A, B = layout(rng, A), layout(rng, B)
    Ain, Bin = arr(A), arr(B)
    zero = num(0)
    out, exc = r.call(base.rightsolve, A, B)
    r.emit('rightsolve', A=Ain, B=Bin, out=arr(out), exc=exc, consistent=bool(consistent), **{'lambda': zero})
    out, exc = r.call(base.non_negative_rightsolve, A, B)
    r.emit('non_negative_rightsolve', A=Ain, B=Bin, out=arr(out), exc=exc, consistent=False, **{'lambda': zero})
    for pen in (float(10.0 ** rng.integers(-3, 3)), float(rng.uniform(.01, 3))):
        # the square root of the penalty is used: the penalty itself is what the certificate needs
        out, exc = r.call(base.add_rightsolve_ridge(base.rightsolve, pen), A, B)
        r.emit('rightsolve', A=Ain, B=Bin, out=arr(out), exc=exc, consistent=False, **{'lambda': num(pen)})
        out, exc = r.call(base.add_rightsolve_ridge(base.non_negative_rightsolve, pen), A, B)
        r.emit('non_negative_rightsolve', A=Ain, B=Bin, out=arr(out), exc=exc, consistent=False, **{'lambda': num(pen)})


def _nonneg_consistent(r, rng, n, m, p):
    A = np.abs(rng.standard_normal((n, m)))
    X0 = np.maximum(rng.standard_normal((p, n)), 0)
    B = X0 @ A
    out, exc = r.call(base.non_negative_rightsolve, A, B)
    r.emit('non_negative_rightsolve', A=arr(A), B=arr(B), out=arr(out), exc=exc, consistent=True, **{'lambda': num(0)})
    b = B[0]
    out, exc = r.call(base.non_negative_rightsolve, A, b)
    r.emit('non_negative_rightsolve', A=arr(A), B=arr(b[None]), out=arr(out), exc=exc, consistent=True, **{'lambda': num(0)})
    b = rng.standard_normal(m)
    out, exc = r.call(base.non_negative_rightsolve, A, b)
    r.emit('non_negative_rightsolve', A=arr(A), B=arr(b[None]), out=arr(out), exc=exc, consistent=False, **{'lambda': num(0)})


def _orthogonal(r, rng, m, n, q, k):
    """A X = B with A m x n and B m x q; the rank of the problem is at most k."""
    A = rng.standard_normal((m, n))
    B = rng.standard_normal((m, q))
    how = int(rng.integers(4))
    if how == 0:
        A = _low_rank(rng, m, n, min(k, m, n))
    elif how == 1:
        B = _low_rank(rng, m, q, min(k, m, q))
    elif how == 2 and n > 1:
        A[:, 0] = 0
    out, exc = r.call(base.orthogonal_solve, layout(rng, A), layout(rng, B))
    r.emit('orthogonal_solve', A=arr(A), B=arr(B), out=arr(out), exc=exc)
    out, exc = r.call(base.orthogonal_rightsolve, A.T, B.T)
    r.emit('orthogonal_rightsolve', A=arr(A.T), B=arr(B.T), out=arr(out), exc=exc)


def C04(r):
    reps = 3 if not r.thorough else 20
    for n, m in itertools.product((1, 2, 3, 5), (1, 2, 4, 6)):
        def sc(r, n=n, m=m):
            rng = rng_for('C04', r.seed, n, m)
            for i in range(reps):
                _solvers(r, rng, n, m, int(rng.integers(1, 5)), int(rng.integers(0, 6)), i % 2 == 0, integer=i % 3 == 2)
        r.scenario('solvers', sc)

    def conditioned(r):
        rng = rng_for('C04cond', r.seed)
        for i in range(16 if not r.thorough else 80):
            n = int(rng.integers(2, 6))
            m = n + int(rng.integers(0, 4))
            u, v = np.linalg.qr(rng.standard_normal((n, n)))[0], np.linalg.qr(rng.standard_normal((m, n)))[0]
            s = np.sort(10.0 ** -rng.uniform(0, 10, n))[::-1]
            s[0] = 1
            A = u * s @ v.T * 10.0 ** int(rng.integers(-1, 3))
            X0 = rng.standard_normal((int(rng.integers(1, 5)), n))
            B = X0 @ A
            out, exc = r.call(base.rightsolve, A, B)
            r.emit('unique', X0=arr(X0), out=arr(out), exc=exc)
    r.scenario('conditioned', conditioned)

    def precision(r):       # small integers, which single precision represents, with dependent rows
        rng = rng_for('C04f32', r.seed)
        for i in range(20 if not r.thorough else 100):
            n, m, p = (int(x) for x in rng.integers(2, 6, 3))
            A = rng.integers(-3, 4, (n, m))
            A[-1] = A[0] - (A[1] if n > 2 else 0)
            B = rng.integers(-2, 3, (p, n)) @ A if i % 2 else rng.integers(-3, 4, (p, m))
            out, exc = r.call(base.rightsolve, A.astype(np.float32), B.astype(np.float32))
            r.emit('rightsolve_single', A=arr(A), B=arr(B), out=arr(out), exc=exc)
    r.scenario('precision', precision)

    def units(r):           # both sides in other units have the same orthonormal solutions
        rng = rng_for('C04units', r.seed)
        for i in range(12 if not r.thorough else 60):
            m, n = int(rng.integers(2, 7)), int(rng.integers(1, 5))
            A, B = rng.standard_normal((m, n)), rng.standard_normal((m, n + int(rng.integers(0, 3))))
            u, v = 2.0**-int(rng.integers(5, 40)), 2.0**int(rng.integers(-40, 20))
            out, exc = r.call(base.orthogonal_solve, A*u, B*v)
            r.emit('orthogonal_solve', A=arr(A), B=arr(B), out=arr(out), exc=exc)
            out, exc = r.call(base.orthogonal_rightsolve, A.T*u, B.T*v)
            r.emit('orthogonal_rightsolve', A=arr(A.T), B=arr(B.T), out=arr(out), exc=exc)
    r.scenario('units', units)

    def nn(r):
        rng = rng_for('C04nn', r.seed)
        for _ in range(12 if not r.thorough else 80):
            _nonneg_consistent(r, rng, *(int(x) for x in rng.integers(1, 7, 3)))
    r.scenario('non-negative', nn)

    def big(r):
        rng = rng_for('C04big', r.seed)
        for n, m, p in [(12, 40, 9), (8, 8, 30), (20, 7, 5), (3, 300, 4), (9, 130, 64)]:
            _solvers(r, rng, n, m, p, n, False)
            _solvers(r, rng, n, m, p, max(1, n - 2), True)
    r.scenario('big', big)
    for n, m, p in [(24, 60, 2), (40, 44, 1), (18, 18, 3)]:
        rng = rng_for('C04many', r.seed, n)
        r.scenario('many', lambda r: (_solvers(r, rng, n, m, p, n, False), _solvers(r, rng, n, m, p, n - 1, True)))

    for n, q in itertools.product((1, 2, 3, 4), (1, 2, 3, 4, 6)):
        def sc(r, n=n, q=q):
            rng = rng_for('C04o', r.seed, n, q)
            for i in range(4 if not r.thorough else 20):
                _orthogonal(r, rng, int(rng.integers(1, 7)), n, q, int(rng.integers(0, 3)))
        r.scenario('orthogonal', sc)

    def obig(r):
        rng = rng_for('C04ob', r.seed)
        for m, n, q in [(30, 6, 40), (5, 8, 12), (40, 3, 70), (9, 9, 9)]:
            _orthogonal(r, rng, m, n, q, 2)
    r.scenario('orthogonal big', obig)
