"""Scenarios for C24: sequences of calls on a pool of objects, generated by TLC from spec/Heap.tla.

After every call the contents of every object of the pool are recorded."""
import copy
import hashlib
import os
import tempfile

import h5py
import numpy as np

from d_model import orthonormal
from rec import exact, rng_for, seed_global
from tenkit import base, metrics, utils
from tenkit.decomposition.cmtf import CMTF_ALS
from tenkit.decomposition.cp import CP_ALS
from tenkit.decomposition.decompositions import EvolvingTensor, KruskalTensor, Parafac2Tensor
from tenkit.decomposition.parafac2 import Parafac2_ALS

SHAPE, R = (4, 3, 3), 2
LARGE = (40, 36, 30)
VARIANTS = ['plain', 'fortran', 'strided', 'single', 'integer', 'array', 'positive', 'tuple', 'special', 'zeros']


def lay(variant, a):
    if variant == 'fortran':
        return np.asfortranarray(a)
    if variant == 'strided':
        big = np.full([2*s for s in a.shape], 7.)
        view = big[tuple(slice(None, None, 2) for _ in a.shape)]
        view[...] = a
        return view
    if variant == 'single':
        return a.astype(np.float32)
    if variant == 'integer':
        return np.rint(3*a).astype(int)
    if variant == 'positive':
        return np.abs(a)
    return a


def digest(x):
    """All contents of an object, as text."""
    if isinstance(x, (list, tuple)):
        return type(x).__name__ + '(' + ','.join(digest(y) for y in x) + ')'
    if isinstance(x, dict):
        return 'dict(' + ','.join(f'{k}:{digest(v)}' for k, v in sorted(x.items())) + ')'
    if isinstance(x, KruskalTensor):
        return 'kruskal' + digest([*x.factor_matrices, x.weights])
    if isinstance(x, Parafac2Tensor):
        return 'pf2' + digest([x.A, x.blueprint_B, x.C, *x.projection_matrices])
    if isinstance(x, EvolvingTensor):
        return 'evolving' + digest([x.A, [x.B[k] for k in range(len(x.B))], x.C])
    if hasattr(x, 'continue_fit'):
        return 'model' + digest([getattr(x, 'decomposition', None), getattr(x, 'uncoupled_factor_matrices', None),
                                 int(getattr(x, 'current_iteration', -1))])
    if x is None or isinstance(x, (str, bool)):
        return repr(x)
    return exact(x)


def short(x):
    return hashlib.sha256(digest(x).encode()).hexdigest()[:16]


class Pool:
    def __init__(self, rng, variant, tmp):
        self.rng, self.variant, self.tmp = rng, variant, tmp
        self.shape = shape = LARGE if variant == 'large' else SHAPE
        g = rng.standard_normal
        I, wide = shape[0], [50, 40, 36] if variant == 'large' else [3, 5, 2]
        self.objects, self.kinds = {}, {}

        def X():
            return lay(variant, g(shape) + .5)

        def F():
            fs = [lay(variant, g((s, R)) + .2) for s in shape]
            if variant == 'integer':
                fs[0][0] += 5
            return tuple(fs) if variant == 'tuple' else fs

        def S():
            if variant == 'array':
                return lay(variant, g((3, 4, 3)))
            out = [lay(variant, g((I, J))) for J in ([3, 3, 3] if variant == 'tuple' else wide)]
            return out

        def P():
            widths = [3, 3, 3] if variant in ('array', 'tuple') else wide
            return Parafac2Tensor(rng.uniform(.2, 1, (I, R)), rng.uniform(.2, 1, (R, R)) + np.eye(R), rng.uniform(.2, 1, (3, R)),
                                  [orthonormal(rng, J, R) for J in widths])

        def K():
            return KruskalTensor([rng.uniform(.2, 1.5, (s, R)) for s in shape], rng.uniform(.5, 2, R) if rng.integers(2) else None)

        n = g((R, R))
        n = n @ n.T + np.eye(R)
        mats = [lay(variant, g((shape[m], 3))) for m in (0, 2)]
        settings = {'non_negativity_constraints': [False, False, bool(rng.integers(2))], 'ridge_penalties': [0, .1, .2]} if rng.integers(2) \
            else {'orthonormality_constraints': [True, False, False]}
        todo = [('X', X()), ('X', X()), ('F', F()), ('F', F()), ('N', lay(variant, n)), ('W', rng.integers(0, 2, shape).astype(float)),
                ('S', S()), ('S', S()), ('M', [mats, [0, 2]]), ('K', K()), ('K', K()), ('P', P()), ('P', P()), ('A', settings)]
        if variant == 'special':     # missing and infinite values, zero columns
            for a in (todo[1][1], todo[3][1][0], todo[7][1][1]):
                at = rng.integers(a.size, size=3)
                a.ravel()[at] = [np.nan, [np.inf, -0., np.nan][int(rng.integers(3))], -0.]
            todo[3][1][1][:, 0] = 0
        if variant == 'zeros':
            for a in (todo[1][1], todo[3][1][1], todo[7][1][1], todo[5][1]):
                a[...] = 0
        for i, (k, o) in enumerate(todo):
            self.put(i + 1, k, o)
        for i, k, fit in ((15, 'CP', lambda m: m.fit(self.get(1), max_its=1)),
                          (16, 'CM', lambda m: m.fit(self.get(1), *self.get(9), max_its=1)),
                          (17, 'PF', lambda m: m.fit(self.get(7), max_its=1))):
            m = self.model(k, 'random', i)
            fit(m)
            self.put(i, k, m)

    def model(self, kind, init, i, **kw):
        cls = {'CP': CP_ALS, 'CM': CMTF_ALS, 'PF': Parafac2_ALS}[kind]
        if kind == 'PF':
            kw['print_frequency'] = -1
        return cls(R, init=init, convergence_tol=0, max_its=2, checkpoint_path=os.path.join(self.tmp, f'c{i}.h5'), checkpoint_frequency=1000, **kw)

    def put(self, i, kind, obj):
        self.objects[i], self.kinds[i] = obj, kind

    def get(self, i):
        return self.objects[i]

    def contents(self):
        return {str(i): short(o) for i, o in self.objects.items()}


def measures(m):
    return [m.SSE, m.MSE, m.RMSE, m.loss, m.explained_variance]


class Ops:
    """The operations, named as in spec/Heap.tla."""

    def __init__(self, pool, rng):
        self.p, self.rng, self.n = pool, rng, 0

    def mode(self):
        return int(self.rng.integers(3))

    def perm(self):
        return [(0, 1), (1, 0)][int(self.rng.integers(2))]

    def path(self):
        self.n += 1
        return os.path.join(self.p.tmp, f'o{self.n}.h5')

    # algebra
    def unfold(self, X): self.m = self.mode(); self.unfolded = getattr(self, 'unfolded', {}); u = base.unfold(X, self.m); self.unfolded[id(u)] = (self.m, X.shape); return u
    def fold(self, U): return base.fold(U, *self.unfolded[id(U)])
    def khatri_rao(self, F): return base.khatri_rao(*F)
    def khatri_rao_skip(self, F): return base.khatri_rao(*F, skip=self.mode())
    def khatri_rao_binary(self, F): return base.khatri_rao_binary(F[0], F[2])
    def kron(self, F): return base.kron(*F)
    def kron_binary(self, F): return base.kron_binary(F[1], F[2])
    def mttkrp(self, X, F): return base.matrix_khatri_rao_product(X, F, self.mode())
    def flatten(self, F): return base.flatten_factors(F)
    def unflatten(self, V): return base.unflatten_factors(V, R, self.pool.shape)
    def rightsolve(self, N, F): return base.rightsolve(N, F[self.mode()])
    def nn_rightsolve(self, N, F): return base.non_negative_rightsolve(N, F[self.mode()])
    def orth_rightsolve(self, N, F): return base.orthogonal_rightsolve(N, F[self.mode()])
    def orth_solve(self, F, G): return base.orthogonal_solve(F[0], G[0])
    def ridge_rightsolve(self, N, F): return base.add_rightsolve_ridge(base.rightsolve, .3)(N, F[self.mode()])
    def ridge_nn_rightsolve(self, N, F): return base.add_rightsolve_ridge(base.non_negative_rightsolve, .3)(N, F[self.mode()])
    # utils
    def flip_factors(self, F): return utils.flip_factors(F)
    def pca_loadings(self, U): return utils.get_pca_loadings(U, R)
    def permute(self, F): return utils.permute_factors(self.perm(), F)
    def permute_weights(self, F): return utils.permute_factors_and_weights(self.perm(), F, np.array([1., 2.]))[0]
    def normalize_factor(self, F): return utils.normalize_factor(F[self.mode()])
    def normalize_factors(self, F): return utils.normalize_factors(F)[0]
    def prepare(self, F): return utils.prepare_for_comparison(F)[0]
    def signs(self, F, X): m = self.mode(); return utils.get_signs(F[m], base.unfold(X, m))
    def signs_plain(self, F): return utils.get_signs(F[self.mode()], None)
    # scores
    def fms(self, F, G): return metrics.factor_match_score(F, G, fms_reduction=['min', 'mean'][self.rng.integers(2)])
    def fms_unweighted(self, F, G): return metrics.factor_match_score(F, G, weight_penalty=False)
    def fms_separate(self, F, G): return metrics.separate_mode_factor_match_score(F, G)
    def fms_pf2(self, F, G): return metrics.factor_match_score_parafac2(F, G, weight_penalty=False)
    def completion(self, X, Y, W): return metrics.tensor_completion_score(X, Y, W)
    def explained(self, X, Y): return metrics.percent_explained(X, Y)
    def core(self, X, F): return metrics.core_consistency(X, *F)
    def core_normalized(self, X, F): return metrics.core_consistency(X, *F, normalized=True)
    def core_pf2(self, S, P): return metrics.core_consistency_parafac2(S, P.projection_matrices, P.A, P.blueprint_B, P.C)
    def leverage(self, F): return metrics.leverage(F[self.mode()])
    # decompositions
    def kruskal(self, F): return KruskalTensor(list(F))
    def kruskal_weights(self, F): return KruskalTensor(list(F), np.array([1., 2.]))
    def k_tensor(self, K): return K.construct_tensor()
    def k_fms(self, K, L): return K.factor_match_score(L)
    def k_separate(self, K, L): return K.seperate_mode_factor_match_score(L)
    def k_signs(self, K, X): return K.get_signs(X)
    def k_sign_scores(self, K, X): return K.get_sign_scores(X)
    def k_degeneracy(self, K): return K.degeneracy()
    def k_core(self, K, X): return K.core_consistency(X)
    def k_single(self, K): return K.get_single_component_decomposition(int(self.rng.integers(R)))
    def k_store(self, K): K.store(self.path())
    def k_reload(self, K): return self.reload(K)
    def k_normalize(self, K): K.normalize_components(**({} if self.rng.integers(2) else {'update_weights': False}))
    def k_reset(self, K): K.reset_weights()
    def evolving(self, K): return EvolvingTensor.from_kruskaltensor(K)
    def e_tensor(self, E): return E.construct_tensor()
    def e_slices(self, E): return [list(E.construct_slices()), E.construct_slice(1)]
    def e_degeneracy(self, E): return E.degeneracy()
    def e_fms(self, E, D): return E.factor_match_score(D, weight_penalty=False)
    def e_store(self, E): E.store(self.path())
    def p_slices(self, P): return P.construct_slices()
    def p_slice(self, P): return P.construct_slice(1)
    def p_tensor(self, P): return P.construct_tensor()
    def p_degeneracy(self, P): return P.degeneracy()
    def p_fms(self, P, Q): return P.factor_match_score(Q, weight_penalty=False)
    def p_single(self, P): return P.get_single_component_decomposition(int(self.rng.integers(R)))
    def p_parts(self, P): return [P.A, P.C, [P.B[k] for k in range(3)], P.D, P.projection_matrices]
    def p_store(self, P): P.store(self.path())
    def p_reload(self, P): return self.reload(P)

    def reload(self, D):
        path = self.path()
        D.store(path)
        return type(D).from_file(path)

    # models; whether the model starts from given components is set before fitting
    def fit(self, model, how, init, *args, **kw):
        model.init = init
        if os.path.exists(model.checkpoint_path):
            os.remove(model.checkpoint_path)
        getattr(model, how)(*args, **kw)

    def cp_new(self, A): self.n += 1; return self.p.model('CP', 'random', 100 + self.n, **A)
    def cp_fit(self, m, X): self.fit(m, 'fit', ['random', 'svd'][self.rng.integers(2)], X)
    def cp_fit_from(self, m, X, K): self.fit(m, 'fit', 'precomputed', X, initial_decomposition=K)
    def cp_transform(self, m, X): self.fit(m, 'fit_transform', 'random', X)
    def cp_continue(self, m): m.continue_fit(max_its=m.current_iteration + 1)
    def cp_measures(self, m): return measures(m)
    def cp_reconstructed(self, m): return m.reconstructed_X
    def cp_decomposition(self, m): return m.decomposition
    def cp_checkpoint(self, m): self.quietly(m)
    def cp_load(self, m, X): m.set_target(X); m.load_checkpoint(m.checkpoint_path); m.continue_fit(max_its=m.current_iteration + 1)
    def cmtf_new(self, A): self.n += 1; return self.p.model('CM', 'random', 100 + self.n, **A)
    def cmtf_fit(self, m, X, M): self.fit(m, 'fit', ['random', 'svd'][self.rng.integers(2)], X, *M)
    def cmtf_fit_from(self, m, X, M, K): self.fit(m, 'fit', 'precomputed', X, *M, initial_decomposition=K)
    def cmtf_transform(self, m, X, M): self.fit(m, 'fit_transform', 'random', X, *M)
    def cmtf_continue(self, m): m.continue_fit(max_its=m.current_iteration + 1)
    def cmtf_measures(self, m): return [m.SSE, m.MSE, m.RMSE, m.loss, m.reconstructed_X, m.reconstructed_coupled_matrices]
    def cmtf_decomposition(self, m): return m.decomposition
    def cmtf_checkpoint(self, m): self.quietly(m)
    def pf2_new(self, A): self.n += 1; return self.p.model('PF', 'random', 100 + self.n, **A)
    def pf2_fit(self, m, S): self.fit(m, 'fit', ['random', 'svd', 'parafac'][self.rng.integers(2)], S)
    def pf2_fit_from(self, m, S, P): self.fit(m, 'fit', 'precomputed', S, initial_decomposition=P)
    def pf2_transform(self, m, S): self.fit(m, 'fit_transform', 'random', S)
    def pf2_continue(self, m): m.continue_fit(max_its=m.current_iteration + 1)
    def pf2_measures(self, m): return [m.SSE, m.MSE, m.RMSE, m.loss, m.explained_variance, m.reconstructed_X]
    def pf2_projected(self, m): return m.projected_X
    def pf2_decomposition(self, m): return m.decomposition
    def pf2_checkpoint(self, m): self.quietly(m)

    def quietly(self, m):
        if os.path.exists(m.checkpoint_path):
            os.remove(m.checkpoint_path)
        m.store_checkpoint()


def signature():
    """Argument kinds as written in the specification (the order of the calls is all that depends on it)."""
    import re
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', 'Heap.tla')
    out = {}
    for m in re.finditer(r'^ +(\w+) *\|-> (?:Op|Pure)\(<<([^>]*)>>, "([^"]*)"', open(path).read(), re.M):
        out[m.group(1)] = (re.findall(r'"(\w+)"', m.group(2)), m.group(3))
    return out


SIG = signature()


def _history(r, calls, rng, variant):
    """calls: (operation, argument ids or None for the newest objects, id of the result)"""
    with tempfile.TemporaryDirectory() as tmp:
        seed_global('heap', r.seed)
        pool = Pool(rng, variant, tmp)
        ops = Ops(pool, rng)
        r.emit('pool', after=pool.contents(), kinds={str(i): k for i, k in pool.kinds.items()})
        for name, args, res in calls:
            kinds, gives = SIG[name]
            actual = []
            for n, k in enumerate(kinds):
                ids = [i for i in pool.objects if pool.kinds[i] == k]
                if not ids:
                    break
                actual.append(args[n] if args and pool.kinds.get(args[n]) == k else ids[-1] if not args else ids[int(rng.integers(len(ids)))])
            if len(actual) < len(kinds):
                continue
            before_model = [pool.get(a) for a in actual]
            out, exc = r.call(getattr(ops, name), *before_model)
            res_id = 0
            if not exc and gives != '-':
                res_id = res or max(pool.objects) + 1
                pool.put(res_id, gives, out)
            r.emit('use', fn=name, msg=r.last_error if exc else '', args=actual, res=res_id, exc=exc, kinds=[pool.kinds[a] for a in actual], after=pool.contents())


def C24(r):
    lines = open(os.path.join(os.environ['VERIF_WORK'], 'behaviours.txt')).read().splitlines()
    for i, line in enumerate(lines):
        calls = []
        for tok in line.split():
            name, args, res = tok.split(':')
            calls.append((name, [int(a) for a in args.split(',') if a], int(res)))
        v = VARIANTS[i % len(VARIANTS)]
        r.scenario(v, _history, calls, rng_for('C24', r.seed, i), v)
    # every operation on every kind of data
    for i, v in enumerate(VARIANTS):
        for k in range(1 if not r.thorough else 5):
            rng = rng_for('C24all', r.seed, v, k)
            names = list(SIG)
            if k:
                rng.shuffle(names)
            r.scenario('all_' + v, _history, [(n, None, 0) for n in names], rng, v)
    # sizes at which an implementation could keep its own memory, everything twice
    r.scenario('all_large', _history, [(n, None, 0) for n in list(SIG)*2], rng_for('C24large', r.seed), 'large')
