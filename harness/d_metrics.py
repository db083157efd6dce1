"""Scenarios for C18 (factor match scores), C19 (signs) and C20 (diagnostics)."""
import numpy as np

from d_algebra import layout
from d_model import orthonormal
from rec import arr, arrs, exact, grid, ints, num, rng_for
from tenkit import base, metrics, utils
from tenkit.decomposition.decompositions import EvolvingTensor, KruskalTensor, Parafac2Tensor

HOW = ['min', 'mean']


def factors(rng, sizes, R, spread=1):
    """Columns of quite different lengths, none of them tiny."""
    out = []
    for s in sizes:
        U = rng.standard_normal((s, R)) + .3
        U = U/np.linalg.norm(U, axis=0)*10.0**rng.uniform(-spread, spread, R)
        out.append(U)
    return out


def perms(p):
    return [int(i) + 1 for i in p] if p is not None else []


# --------------------------------------------------------------------------------------------- C18
def emit_fms(r, U, V, w, v, counted, how, fn, same=False):
    out, exc = r.call(fn)
    score, perm = out if out is not None else (None, None)
    r.emit('fms', U=arrs(U), V=arrs(V), w=arr(w), v=arr(v), counted=counted, how=how, score=arr(score), perm=perms(perm), same=same, exc=exc)
    return score


def emit_separate(r, U, V, how, fn, same=False):
    out, exc = r.call(fn)
    scores, ps = out if out is not None else ([], [])
    r.emit('separate', U=arrs(U), V=arrs(V), how=how, scores=[arr(s) for s in scores], perms=[perms(p) for p in ps], same=same, exc=exc)


def related(rng, U, E, noise):
    """Estimated factors: the true ones, noisy, permuted, rescaled, sign flipped, with extra components."""
    R = U[0].shape[1]
    p = rng.permutation(E)
    out = []
    for u in U:
        full = np.concatenate([u, rng.standard_normal((u.shape[0], E - R))], axis=1) if E > R else u
        full = full + noise*np.linalg.norm(full, axis=0)/np.sqrt(len(full))*rng.standard_normal(full.shape)
        out.append(full[:, p]*rng.choice([-1., 1], E))
    return out


def functions(r, key, order, R, E, noise, how, counted, kind='float', unit=1):
    rng = rng_for('C18', key)
    sizes = [int(x) for x in rng.integers(2, 6, order)]
    U = factors(rng, sizes, R)
    V = related(rng, U, E, noise) if noise is not None else factors(rng, sizes, E)
    if kind == 'int':
        U, V = [np.rint(2*u).astype(int) + (np.abs(np.rint(2*u)).sum(0) == 0) for u in U], [np.rint(2*u).astype(int) + (np.abs(np.rint(2*u)).sum(0) == 0) for u in V]
    elif kind == 'layout':
        U, V = [layout(rng, u) for u in U], [layout(rng, u) for u in V]
    elif kind == 'tuple':
        U, V = tuple(U), tuple(V)
    elif kind == 'collinear':        # every assignment scores high
        U = [np.abs(rng.standard_normal((s, 1))) + .5 + 10.0**-[rng.uniform(1, 2), rng.uniform(2, 3)][int(rng.integers(2))]*rng.standard_normal((s, R)) for s in sizes]
        V = related(rng, U, R, 1e-5)
        E = R
        if not rng.integers(3):
            V = U
    elif kind in ('disjoint', 'axes'):     # some or all components share nothing
        sizes = [2*max(E, R) for _ in sizes]
        eye = np.eye(sizes[0])
        shift = max(E, R) if kind == 'disjoint' else 1
        pu, pv = rng.permutation(R), rng.permutation(E)
        U = [eye[:, :R][:, pu]*rng.uniform(.5, 2) for _ in sizes]
        V = [np.roll(eye, shift*(i == 0), axis=0)[:, :E][:, pv]*rng.uniform(.5, 2) for i, _ in enumerate(sizes)]
    elif kind == 'scales':
        U = [u*10.0**rng.uniform(-1.5, 1.5, R) for u in U]
        V = related(rng, U, E, noise or 0)
        if counted:
            V[0] = V[0]*10.0**rng.uniform(-.3, .3, E)
    one, many = np.ones(R), np.ones(E)
    U0, V0 = U, V
    if unit != 1:       # both count in another unit, which no score depends on (not a tiny one: normalising adds 1e-15 to every norm)
        n = int(rng.integers(order))
        U, V = ([f*unit if i == n else f for i, f in enumerate(F)] for F in (U, V))
    kw = {} if counted and how == 'min' else {'weight_penalty': counted, 'fms_reduction': how}
    emit_fms(r, U0, V0, one, many, counted, how, lambda: metrics.factor_match_score(U, V, **kw))
    emit_separate(r, U0, V0, how, lambda: metrics.separate_mode_factor_match_score(U, V, **({} if how == 'min' else {'fms_reduction': how})))
    if order == 3:      # the PARAFAC2 variant on factor lists compares the modes that do not evolve
        U3, V3 = [U[0], [U[1]]*3, U[2]], [V[0], [V[1]]*3, V[2]]
        emit_fms(r, [U0[0], U0[2]], [V0[0], V0[2]], one, many, counted, how, lambda: metrics.factor_match_score_parafac2(U3, V3, **kw))
    if noise == 0 and E == R:
        emit_fms(r, U0, U0, one, one, counted, how, lambda: metrics.factor_match_score(U, U, **kw), same=True)


def kruskal(r, key, order, R, how, counted, noise, unit=1):
    rng = rng_for('C18kt', key)
    sizes = [int(x) for x in rng.integers(2, 6, order)]
    U, w = factors(rng, sizes, R, .5), rng.uniform(.3, 3, R)*rng.choice([-1, 1], R)
    V, v = related(rng, U, R, noise), rng.uniform(.3, 3, R)
    a, b = KruskalTensor([u.copy() for u in U], w*unit), KruskalTensor([x.copy() for x in V], v*unit)
    kw = dict(weight_penalty=counted, fms_reduction=how)

    def score(x, y):
        return lambda: x.factor_match_score(y, **kw)
    base_score = emit_fms(r, U, V, w, v, counted, how, score(a, b))
    emit_fms(r, V, U, v, w, counted, how, score(b, a))
    emit_fms(r, U, U, w, w, counted, how, score(a, KruskalTensor([u.copy() for u in U], w*unit)), same=True)
    emit_separate(r, U, V, how, lambda: a.seperate_mode_factor_match_score(b, fms_reduction=how))
    emit_separate(r, U, U, how, lambda: a.seperate_mode_factor_match_score(a, fms_reduction=how), same=True)
    # symmetries of one of the two
    for what in range(6):
        F, x = [np.array(q) for q in V], np.array(v)
        if what == 0:
            p = rng.permutation(R)
            F, x = [q[:, p] for q in F], x[p]
        elif what == 1:
            s = rng.choice([-1., 1], (order, R))
            F = [q*t for q, t in zip(F, s)]
        elif what == 2:
            c = 10.0**rng.uniform(-1, 1, R)
            i, j = rng.permutation(order)[:2]
            F[i], F[j] = F[i]*c, F[j]/c
        elif what == 3:
            c = 10.0**rng.uniform(-1, 1, R)
            F[int(rng.integers(order))] *= c
            x = x/c
        elif what == 4:
            x = -x
        elif not counted:
            F[int(rng.integers(order))] *= 10.0**rng.uniform(-1, 1, R)
            x = x*10.0**rng.uniform(-1, 1, R)
        moved = KruskalTensor(F, x*unit)
        for pair in ((a, moved), (moved, a)):
            out, exc = r.call(lambda: pair[0].factor_match_score(pair[1], **kw)[0])
            r.emit('symmetry', before=arr(base_score), after=arr(out), exc=exc)
        if what == 2:
            b2 = KruskalTensor([np.array(q) for q in V], v*unit)
            b2.normalize_components()
            out, exc = r.call(lambda: a.factor_match_score(b2, **kw)[0])
            r.emit('symmetry', before=arr(base_score), after=arr(out), exc=exc)


def pf2(r, key, R, how, counted, noise, irregular, evolving):
    rng = rng_for('C18pf', key)
    K = int(rng.integers(1, 4))
    widths = [int(x) for x in rng.integers(R, R + 3, K)] if irregular else [R + 1]*K
    A, C = factors(rng, [int(rng.integers(2, 5)), K], R, .3)
    B = rng.standard_normal((R, R)) + np.eye(R)
    Ps = [orthonormal(rng, J, R) for J in widths]

    def make(A, B, C, Ps):
        if evolving:
            return EvolvingTensor(A, [P @ B for P in Ps], C)
        return Parafac2Tensor(A, B, C, Ps)
    p, s = rng.permutation(R), rng.choice([-1., 1], R)
    A2, B2, C2 = ((f + noise*rng.standard_normal(f.shape))[:, p]*t for f, t in ((A, s), (B, 1), (C, s)))
    x, y = make(A, B, C, Ps), make(A2, B2, C2, Ps)

    def flat(A, B, C, Ps):
        return [A, np.concatenate([P @ B for P in Ps]), C]
    U, V = flat(A, B, C, Ps), flat(A2, B2, C2, Ps)
    if any((np.linalg.norm(f, axis=0) < 1e-2).any() for f in U + V):
        return
    one = np.ones(R)
    kw = dict(weight_penalty=counted, fms_reduction=how)
    first = emit_fms(r, U, V, one, one, counted, how, lambda: x.factor_match_score(y, **kw))
    emit_fms(r, V, U, one, one, counted, how, lambda: y.factor_match_score(x, **kw))
    emit_fms(r, U, U, one, one, counted, how, lambda: x.factor_match_score(make(A, B, C, Ps), **kw), same=True)
    emit_separate(r, U, V, how, lambda: x.separate_mode_factor_match_score(y, fms_reduction=how))
    c = 10.0**rng.uniform(-.5, .5, R)*rng.choice([-1., 1], R)
    for moved in (make(A2*c, B2, C2/c, Ps), make(A2, B2*c, C2/c, Ps), make(A2/c, B2*c, C2, Ps)):
        out, exc = r.call(lambda: x.factor_match_score(moved, **kw)[0])
        r.emit('symmetry', before=arr(first), after=arr(out), exc=exc)
    if evolving and len(set(widths)) == 1:
        # against a Kruskal tensor, whose second factor is the same for all slices
        D = rng.standard_normal((widths[0], R))
        kt = KruskalTensor([A2.copy(), D.copy(), C2.copy()])
        emit_separate(r, U, [A2, np.concatenate([D]*K), C2], how, lambda: x.separate_mode_factor_match_score(kt, fms_reduction=how))


def many(r, key, R, E, how, swaps):
    """Many components, of which some pairs are alike: the best way to match them is not the obvious one."""
    rng = rng_for('C18many', key)
    sizes = [int(x) for x in rng.integers(3, 5, int(rng.integers(1, 4)))]
    U = [rng.standard_normal((s, R)) for s in sizes]
    V = related(rng, U, E, [.3, 1.][swaps])
    if swaps:           # matching greedily, or for the sum, is not matching for the smallest
        V = [v + .7*np.roll(v, 1, axis=1) for v in V]
    one, other = np.ones(R), np.ones(E)
    emit_fms(r, U, V, one, other, False, how, lambda: metrics.factor_match_score(U, V, weight_penalty=False, fms_reduction=how))
    emit_separate(r, U, V, how, lambda: metrics.separate_mode_factor_match_score(U, V, fms_reduction=how))


def C18(r):
    n = 0
    for rep in range(1 if not r.thorough else 25):
        for order in (2, 3, 4):
            for R, E in ((1, 1), (2, 2), (3, 3), (1, 3), (2, 3), (2, 4), (3, 4), (4, 4), (1, 2)):
                for noise in (None, 0, .1, 1):
                    n += 1
                    if not r.thorough and n % 2:
                        continue
                    how, counted = HOW[(n // 2) % 2], bool((n // 4) % 2)
                    r.scenario('functions', functions, (r.seed, n), order, R, E, noise, how, counted, ['float', 'float', 'int', 'layout', 'tuple'][n % 5])
        for order in (2, 3, 4):
            for R in (1, 2, 3, 4):
                for how in HOW:
                    for counted in (True, False):
                        n += 1
                        r.scenario('kruskal', kruskal, (r.seed, n), order, R, how, counted, [.1, .6, .02][n % 3])
        for R in (1, 2, 3):
            for how in HOW:
                for counted in (True, False):
                    for irregular in (True, False):
                        n += 1
                        r.scenario('evolving' if n % 2 else 'parafac2', pf2, (r.seed, n), R, how, counted, [.1, .5][n // 2 % 2], irregular, bool(n % 2))
    for i in range(32 if not r.thorough else 240):
        kind = ['collinear', 'disjoint', 'axes', 'scales'][i % 4]
        R = 1 + (i//4 + 1) % 4
        r.scenario(kind, functions, (r.seed, kind, i), 1 + i % 5, R, R + (i % 3 == 0 and kind != 'collinear'), None, HOW[(i // 2) % 2], bool(i//4 % 2), kind)
    for i in range(10 if not r.thorough else 100):      # assignments that hardly differ
        r.scenario('ties', functions, (r.seed, 'ties', i), 3, 2 + i % 3, 2 + i % 3, None, HOW[i//2 % 2], bool(i//3 % 2), 'collinear')
    for i in range(16 if not r.thorough else 160):
        unit, R = 2.0**[-14, 40, -12, 60, 20][i % 5], 1 + i % 3
        r.scenario('unit', functions, (r.seed, 'unit', i), 2 + i % 3, R, R + i % 2, [.1, .5, 0][i % 3] if i % 2 == 0 else .2, HOW[i//2 % 2], bool(i//4 % 2) or i < 4, 'float', unit)
        r.scenario('unit', kruskal, (r.seed, 'unitk', i), 2 + i % 3, R, HOW[i//2 % 2], bool(i//4 % 2) or i < 4, [.1, .4][i % 2], unit)
    r.scenario('big', functions, (r.seed, 'big'), 3, 5, 6, .3, 'min', True)
    r.scenario('big', functions, (r.seed, 'big2'), 3, 6, 6, .3, 'mean', False)
    for i in range(6 if not r.thorough else 24):
        r.scenario('big', functions, (r.seed, 'crowd', i), 1 + i % 3, 5 + (i + 1) % 2, 6, [None, 1][i % 2], HOW[i//2 % 2], bool(i % 2), ['float', 'collinear'][i//3 % 2] if (i + 1) % 2 else 'float')

    for i in range(4 if not r.thorough else 20):
        R = [7, 6, 7, 5][i % 4] if i < 16 else 8
        r.scenario('many', many, (r.seed, i), R, max(R, 7), HOW[i % 2], i//2 % 2)

    def bad(r):
        rng = rng_for('C18bad')
        U = factors(rng, (3, 4, 2), 2)
        kt = KruskalTensor(U)
        for how in ('max', 'Min', None, 'median'):
            for f in (lambda: metrics.factor_match_score(U, U, fms_reduction=how), lambda: metrics.separate_mode_factor_match_score(U, U, fms_reduction=how),
                      lambda: metrics.factor_match_score_parafac2([U[0], [U[1]], U[2]], [U[0], [U[1]], U[2]], fms_reduction=how),
                      lambda: kt.factor_match_score(kt, fms_reduction=how)):
                _, exc = r.call(f)
                r.emit('reject', exc=exc)
    r.scenario('bad_reduction', bad)


# --------------------------------------------------------------------------------------------- C19
def conditioned(rng, n, R):
    Q = orthonormal(rng, n, R)
    return Q @ (np.eye(R) + .4*rng.standard_normal((R, R)))*rng.uniform(.5, 2)


def kruskal_signs(r, key, sizes, R, kind, unit=1):
    rng = rng_for('C19', key)
    U = [conditioned(rng, s, R) for s in sizes]
    w = rng.uniform(.5, 2, R)
    if kind == 'unit':
        U = [np.eye(s)[:, rng.permutation(s)[:R]]*rng.choice([-1., 1], R) for s in sizes]
    if any(np.linalg.cond(u) > 30 for u in U):
        return
    flips = rng.choice([-1., 1], (len(sizes), R))
    X = KruskalTensor([u*f for u, f in zip(U, flips)], w).construct_tensor()
    if kind == 'noise':
        X = X + rng.standard_normal(X.shape)
    elif kind == 'pure_noise':
        X = rng.standard_normal(X.shape)
    elif kind in ('int', 'unit'):
        X = rng.integers(-2, 3, X.shape)
        U = [np.rint(2*u) for u in U] if kind == 'int' else U
        if any(np.linalg.matrix_rank(u) < R or np.linalg.cond(u) > 30 for u in U):
            return
    elif kind == 'zero':
        X = X*0
    elif kind == 'balanced':
        X = X - X[:, ::-1] if rng.integers(2) else np.concatenate([X[..., :1], -X[..., :1]], axis=-1)
        if X.shape != tuple(sizes):
            U[-1] = U[-1][:1].repeat(2, axis=0)*np.array([[1.], [-1.]]) if R == 1 else U[-1]
            if U[-1].shape[0] != 2:
                return
    elif kind == 'small':
        X = X*1e-3
    elif kind == 'large':
        X = X*1e3
    elif kind == 'layout':
        X, U = layout(rng, X + .1), [layout(rng, u) for u in U]
    kt = KruskalTensor([np.array(u) for u in U] if kind != 'layout' else U, w)
    signs, exc = r.call(kt.get_signs, X*unit)
    scores, exc2 = r.call(kt.get_sign_scores, X*unit)
    if unit != 1 and scores is not None:     # squares of coefficients
        scores = [s/unit**2 for s in scores]
    signs = [] if signs is None else signs
    flipped, exc3 = r.call(lambda: KruskalTensor([u*s for u, s in zip(U, signs)], w).construct_tensor())
    r.emit('signs', X=arr(X), U=arrs(U), w=arr(w), signs=arrs(signs), scores=arrs(scores if scores is not None else []), flipped=arr(flipped), exc=exc or exc2 or exc3)
    for n in range(len(U)):
        M = base.unfold(X, n)
        out, exc = r.call(utils.get_signs, np.array(U[n]), M*unit)
        s, sc = out if out is not None else (None, None)
        sc = sc/unit**2 if unit != 1 and sc is not None else sc
        r.emit('matrix_signs', F=arr(U[n]), M=arr(M), data=True, signs=arr(s), scores=arr(sc), exc=exc)


def known_signs(r, key):
    """Columns that are almost, but not quite, parallel."""
    rng = rng_for('C19known', key)
    n, R, m = int(rng.integers(3, 7)), int(rng.integers(2, 4)), int(rng.integers(1, 5))
    F = orthonormal(rng, n, R)
    F = F[:, :1] + 10.0**-rng.uniform(4.3, 5.3)*F @ np.triu(np.ones((R, R)), 0)
    C = rng.integers(-4, 5, (R, m)).astype(float)
    M = F @ C
    out, exc = r.call(utils.get_signs, F.copy(), M.copy())
    s, sc = out if out is not None else (None, None)
    r.emit('known_signs', F=arr(F), C=arr(C), M=arr(M), signs=arr(s), scores=arr(sc), exc=exc)


def matrix_signs(r, key, n, R, kind):
    rng = rng_for('C19m', key)
    F = rng.standard_normal((n, R))
    if kind == 'int':
        F = rng.integers(-2, 3, (n, R))
    elif kind == 'balanced':
        F = np.concatenate([np.rint(2*F), -np.rint(2*F)])
    elif kind == 'small_sum':
        F = np.concatenate([np.rint(8*F), -np.rint(8*F), rng.choice([-1., 1], (1, R))*2.0**-rng.integers(0, 8)])[rng.permutation(2*n + 1)]
    elif kind == 'small':
        F = F*1e-4
    out, exc = r.call(utils.get_signs, F.copy(), None)
    s, sc = out if out is not None else (None, None)
    r.emit('matrix_signs', F=arr(F), M=arr(np.zeros((1, 1))), data=False, signs=arr(s), scores=arr(sc), exc=exc)


def majority(r, key, kind):
    rng = rng_for('C19maj', key)
    R = int(rng.integers(1, 4))
    U = []
    for i in range(int(rng.integers(1, 5))):
        s = int(rng.integers(1, 7))
        F = rng.standard_normal((s, R))
        F += .05*np.sign(F)
        if kind == 'int':
            F = rng.integers(-1, 2, (s, R))
        elif kind == 'ties':
            F = np.sign(F)*rng.uniform(.1, 2, F.shape)*rng.integers(0, 2, F.shape)
        elif kind == 'even':
            F = np.concatenate([np.abs(F), -np.abs(F)*rng.uniform(.2, 3)])[rng.permutation(2*s)]
        elif kind == 'skew':        # one large entry against the majority
            F = -np.abs(F)
            F[rng.integers(s)] = 50
        if kind == 'zero_column' and i % 2 == 0:
            F[:, 0] = 0
        U.append(layout(rng, F) if kind == 'layout' else F)
    before = [exact(u) for u in U]
    out, exc = r.call(utils.flip_factors, U)
    F, s = out if out is not None else ([], [])
    r.emit('majority', U=arrs(U), out=arrs(F), signs=arrs(s), norms=[], normalised=False, kept=before == [exact(u) for u in U], exc=exc)
    out, exc = r.call(utils.prepare_for_comparison, U)
    F, s, norms = out if out is not None else ([], [], [])
    r.emit('majority', U=arrs(U), out=arrs(F), signs=arrs(s), norms=arrs(norms), normalised=True, kept=before == [exact(u) for u in U], exc=exc)


def C19(r):
    n = 0
    kinds = ['noise', 'pure_noise', 'int', 'zero', 'layout', 'exact', 'balanced', 'unit', 'small', 'large']
    for rep in range(2 if not r.thorough else 40):
        for sizes in ((3, 4), (4, 3, 3), (3, 5, 4), (3, 2, 4, 3), (2, 3, 2, 2, 3), (2, 2), (6, 4, 3), (4, 2, 2)):
            for kind in kinds:
                n += 1
                rng = rng_for('C19n', r.seed, n)
                R = int(rng.integers(1, min(sizes) + 1))
                if kind == 'balanced':
                    R = 1 if rng.integers(2) else R
                r.scenario('signs_' + kind, kruskal_signs, (r.seed, n), sizes, R, kind, 2.0**[-30, 30][n//3 % 2] if n % 3 == 0 and kind not in ('int', 'layout') else 1)
    for i in range(30 if not r.thorough else 400):
        rng = rng_for('C19r', r.seed, i)
        r.scenario('matrix', matrix_signs, (r.seed, i), int(rng.integers(1, 7)), int(rng.integers(1, 5)), ['float', 'int', 'balanced', 'small_sum', 'small'][i % 5])
    for i in range(12 if not r.thorough else 100):
        r.scenario('almost_parallel', known_signs, (r.seed, i))
    for i in range(70 if not r.thorough else 800):
        kind = ['float', 'int', 'ties', 'even', 'skew', 'zero_column', 'layout'][i % 7]
        r.scenario('majority_' + kind, majority, (r.seed, i), kind)


# --------------------------------------------------------------------------------------------- C20
def emit_core(r, X, U, w, normalized, fn, exact_fit=False, slices=None, P=None):
    sizes = np.abs(w)*np.prod([np.linalg.norm(u, axis=0) for u in U], axis=0)
    value, exc = r.call(fn)
    r.emit('core', X=arr(X), U=arrs(U), w=arr(w), root=arr(np.cbrt(sizes)), normalized=normalized, value=arr(value), exact=exact_fit,
           projected=slices is not None, slices=arrs(slices or []), P=arrs(P or []), exc=exc)


def core(r, key, sizes, R, kind, normalized, unit=1):
    rng = rng_for('C20', key)
    U = [conditioned(rng, s, R) for s in sizes]
    if any(np.linalg.cond(u) > 20 for u in U):
        return
    w = rng.uniform(.5, 2, R)
    if kind != 'even':
        scale = 10.0**rng.uniform(-.6, .6, (3, R))
        U = [u*s for u, s in zip(U, scale)]
    if kind == 'orthonormal':
        U, w = [orthonormal(rng, s, R) for s in sizes], np.ones(R)
    X = KruskalTensor(U, w).construct_tensor()
    if kind == 'noise' or kind == 'orthonormal':
        X = X + .3*np.linalg.norm(X)/np.sqrt(X.size)*rng.standard_normal(X.shape)
    elif kind == 'other':
        X = rng.standard_normal(X.shape)
    elif kind == 'int':
        X = np.rint(X*3).astype(int)
        if not X.any():
            return
    elif kind == 'layout':
        X, U = layout(rng, X), [layout(rng, u) for u in U]
    X0, w0, w = X, w, w*unit
    X = X*unit if unit != 1 else X      # the core does not depend on the unit
    fit = kind in ('exact', 'even', 'layout')
    kw = {'normalized': True} if normalized else {}
    kt = KruskalTensor([np.array(u) for u in U] if kind != 'layout' else [u.copy(order='K') for u in U], w)
    emit_core(r, X0, U, w0, normalized, lambda: kt.core_consistency(X, **kw), fit)
    Uw = [U[0], U[1], U[2]*w]
    emit_core(r, X0, [U[0], U[1], U[2]*w0], np.ones(R), normalized, lambda: metrics.core_consistency(X, *Uw, **kw), fit)
    kt.normalize_components()
    emit_core(r, X0, kt.factor_matrices, kt.weights/unit, normalized, lambda: kt.core_consistency(X, **kw), fit)
    c = 10.0**rng.uniform(-.3, .3, R)
    moved = KruskalTensor([U[0]*c, U[1], U[2]], w/c)
    emit_core(r, X0, moved.factor_matrices, moved.weights/unit, normalized, lambda: moved.core_consistency(X, **kw), fit)


def core_pf2(r, key, R, widths, fit, as_array, unit=1):
    rng = rng_for('C20pf', key)
    K, I = len(widths), R + int(rng.integers(0, 3))
    A, B, C = conditioned(rng, I, R), conditioned(rng, R, R), conditioned(rng, K, R)
    if any(np.linalg.cond(u) > 20 for u in (A, B, C)):
        return
    Ps = [orthonormal(rng, J, R) for J in widths]
    Xs = [A*C[k] @ (P @ B).T + (0 if fit else .3*rng.standard_normal((I, P.shape[0]))) for k, P in enumerate(Ps)]
    X = [x*unit for x in Xs] if unit != 1 else Xs
    X = np.stack(X) if as_array else X
    emit_core(r, np.zeros((1, 1, 1)), [A, B, C], np.ones(R), False, lambda: metrics.core_consistency_parafac2(X, Ps, A*unit, B, C), fit, Xs, Ps)


def diagnostics(r, key):
    rng = rng_for('C20d', key)
    R = int(rng.integers(1, 4))
    sizes = [int(x) for x in rng.integers(R, R + 4, int(rng.integers(2, 5)))]
    U = [conditioned(rng, s, R)*10.0**rng.uniform(-1, 1, R) for s in sizes]
    U = [u if np.linalg.cond(u/np.linalg.norm(u, axis=0)) < 20 else np.eye(*u.shape) for u in U]

    def emit(what, fn, **kw):
        value, exc = r.call(fn)
        r.emit('diagnostic', what=what, value=arr(value), exc=exc, **kw)
    F = U[0]
    emit('leverage', lambda: metrics.leverage(F), F=arr(F))
    emit('leverage', lambda: metrics.leverage(F*2.0**[50, -50][key[-1] % 2]), F=arr(F))
    # the same space, whatever the sizes of the columns
    emit('leverage', lambda: metrics.leverage(F*2.0**rng.choice([-16, 0, 16], R)), F=arr(F))
    G = np.rint(3*F).astype(int)
    if np.linalg.matrix_rank(G) == R and np.linalg.cond(G) < 30:
        emit('leverage', lambda: metrics.leverage(G), F=arr(G))
    w = rng.uniform(-2, 2, R)
    emit('degeneracy', lambda: KruskalTensor(U, w).degeneracy(), U=arrs(U))
    K = int(rng.integers(1, 4))
    Bs = [rng.standard_normal((int(rng.integers(2, 5)), R)) for _ in range(K)]
    C = rng.standard_normal((K, R)) + np.sign(rng.standard_normal((K, R)))*.3
    emit('degeneracy', lambda: EvolvingTensor(F, Bs, C).degeneracy(), U=arrs([F, np.concatenate(Bs), C]))
    B = rng.standard_normal((R, R)) + np.eye(R)
    Ps = [orthonormal(rng, R + k, R) for k in range(K)]
    emit('degeneracy', lambda: Parafac2Tensor(F, B, C, Ps).degeneracy(), U=arrs([F, np.concatenate([P @ B for P in Ps]), C]))
    shape = tuple(int(x) for x in rng.integers(1, 5, int(rng.integers(1, 5))))
    unit = 2.0**[0, 40, 0, -40][key[-1] % 4]
    X, Y = rng.standard_normal(shape)*10.0**rng.integers(-1, 2), rng.standard_normal(shape)
    if key[-1] % 3 == 0:
        X, Y = np.rint(3*X).astype(int), np.rint(3*Y).astype(int)
        X[(0,)*len(shape)] = 2
    if key[-1] % 4 == 1:
        X, Y = layout(rng, X), layout(rng, Y)
    if key[-1] == 5:        # many elements
        Z = rng.standard_normal((12, 9, 6)) + .5
        emit('explained', lambda: metrics.percent_explained(Z, .8*Z + .1), X=arr(Z), Y=arr(.8*Z + .1))
        V = rng.integers(0, 2, Z.shape)
        emit('completion', lambda: metrics.tensor_completion_score(Z, .8*Z + .1, V), X=arr(Z), Y=arr(.8*Z + .1), W=ints(V.ravel()))
        L = conditioned(rng, 520, 2)
        emit('leverage', lambda: metrics.leverage(L), F=arr(L))
    emit('explained', lambda: metrics.percent_explained(X*unit, Y*unit), X=arr(X), Y=arr(Y))
    emit('explained', lambda: metrics.percent_explained(X*unit, X*unit), X=arr(X), Y=arr(X))
    emit('explained', lambda: metrics.percent_explained(X*unit, 0*X), X=arr(X), Y=arr(0*X))
    W = rng.integers(0, 2, shape)
    W[(0,)*len(shape)] = 0
    if X[W == 0].any():
        Wx = [W, W.astype(float), W.astype(bool)][key[-1] % 3]
        emit('completion', lambda: metrics.tensor_completion_score(X*unit, Y*unit, Wx), X=arr(X), Y=arr(Y), W=ints(W.ravel()))
        Y2 = np.where(W == 1, Y, X)
        emit('completion', lambda: metrics.tensor_completion_score(X*unit, Y2*unit, Wx), X=arr(X), Y=arr(Y2), W=ints(W.ravel()))
        Y3 = np.where(W == 0, Y, X)
        emit('completion', lambda: metrics.tensor_completion_score(X*unit, Y3*unit, Wx), X=arr(X), Y=arr(Y3), W=ints(W.ravel()))


def C20(r):
    n = 0
    for rep in range(2 if not r.thorough else 40):
        for sizes in ((3, 4, 5), (4, 3, 3), (2, 3, 2), (5, 5, 4), (3, 3, 3), (6, 2, 4)):
            for kind in ('exact', 'noise', 'other', 'even', 'int', 'layout', 'orthonormal'):
                n += 1
                rng = rng_for('C20n', r.seed, n)
                r.scenario('core_' + kind, core, (r.seed, n), sizes, int(rng.integers(1, min(sizes) + 1)), kind, n % 3 == 0,
                           unit=1 if n % 2 or kind in ('int', 'layout') else 2.0**[-14, 40, 30, -12][n//2 % 4])
        n += 1
        r.scenario('core_big', core, (r.seed, n), [(10, 9, 7), (3, 12, 16)][rep % 2], 3 - rep % 2, ['noise', 'exact'][rep//2 % 2], rep % 2 == 1)
        for i in range(12):
            n += 1
            rng = rng_for('C20p', r.seed, n)
            R = 1 + i % 3
            K = R + int(rng.integers(0, 2))
            widths = [R + 1]*K if i % 2 else [int(x) for x in rng.integers(R, R + 3, K)]
            r.scenario('core_pf2', core_pf2, (r.seed, n), R, widths, i % 4 < 2, i % 2 == 1, 1 if i % 3 else 2.0**[-14, 40][i//3 % 2])
    for i in range(40 if not r.thorough else 600):
        r.scenario('diagnostics', diagnostics, (r.seed, i))

    def wrong_order(r):
        rng = rng_for('C20bad')
        for sizes in ((3, 4), (2, 3, 2, 2)):
            kt = KruskalTensor([rng.standard_normal((s, 2)) for s in sizes])
            _, exc = r.call(kt.core_consistency, rng.standard_normal(sizes))
            r.emit('reject', exc=exc)
    r.scenario('wrong_order', wrong_order)
