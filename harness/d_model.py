"""Scenarios for C02, C05 and C23."""
import itertools

import numpy as np

from d_algebra import layout
from rec import arr, arrs, grid, ints, num, rng_for, seed_global
from tenkit import utils
from tenkit.decomposition.decompositions import EvolvingTensor, KruskalTensor, Parafac2Tensor
from tenkit.decomposition.parafac2 import Parafac2_ALS


# ------------------------------------------------------------------------------------------- C02
def state(kt, unit=1):
    return {'w': arr(kt.weights/unit), 'U': arrs(kt.factor_matrices)}


def away(a):
    """Entries not so small that their squares are lost in 16 decimals."""
    return a + np.where(a < 0, -.05, .05)


def _history(r, rng, sizes, rank, kind, ops, unit=1):
    state_ = lambda kt: state(kt, unit)     # weights and tensors counted in another unit
    if kind == 'int':
        U = [rng.integers(-3, 4, (s, rank)) for s in sizes]
        w = rng.integers(1, 4, rank)
    else:
        U = [away(rng.standard_normal((s, rank))) * 10.0**rng.integers(-1, 2) for s in sizes]
        w = rng.standard_normal(rank)
        if kind == 'zero':
            U[int(rng.integers(len(U)))][:, int(rng.integers(rank))] = 0
            w[int(rng.integers(rank))] = 0
        if kind == 'layout':
            U = [layout(rng, u) for u in U]
        if kind == 'shared':        # one array is the factor matrix of two modes, or they overlap in memory
            if rng.integers(2):
                U[-1] = U[0]
            else:
                whole_ = away(rng.standard_normal((sizes[0] + sizes[-1], rank)))
                U[0], U[-1] = whole_[:sizes[0]], whole_[sizes[-1]:] if sizes[0] > 1 and rng.integers(2) else whole_[1:1 + sizes[-1]]
    given = {'w': arr(w), 'U': arrs(U)}
    kt, exc = r.call(KruskalTensor, U, w*unit if unit != 1 else w) if kind != 'noweights' else r.call(KruskalTensor, U)
    if kind == 'noweights':
        given['w'] = arr(np.ones(rank))
    r.emit('create', given=given, exc=exc, **(state_(kt) if kt else given))
    if kt is None:
        return
    for op in ops:
        if op in ('normalise', 'normalise_keep'):
            up = op == 'normalise'
            _, exc = r.call(kt.normalize_components, update_weights=up)
            r.emit('normalise', update=up, exc=exc, **state_(kt))
        elif op == 'reset':
            _, exc = r.call(kt.reset_weights)
            r.emit('reset', exc=exc, **state_(kt))
        elif op == 'single':
            c = int(rng.integers(rank))
            part, exc = r.call(kt.get_single_component_decomposition, c - rank * int(rng.integers(2)))
            r.emit('single', component=c + 1, exc=exc, part=state_(part) if part is not None else state_(kt),
                   rank=int(part.rank) if part is not None else 0, **state_(kt))
        elif op in ('part_normalise', 'part_keep', 'part_reset'):  # changes the part, not the whole
            c = int(rng.integers(rank))

            def change():
                part = kt.get_single_component_decomposition(c)
                if op == 'part_reset':
                    part.reset_weights()
                else:
                    part.normalize_components(update_weights=op == 'part_normalise')
                return part
            part, exc = r.call(change)
            r.emit(op, component=c + 1, exc=exc, part=state_(part) if part is not None else state_(kt), **state_(kt))
        elif op == 'parts':
            def parts():
                return [kt.get_single_component_decomposition(c).construct_tensor()/unit for c in range(rank)]
            out, exc = r.call(parts)
            r.emit('parts', parts=arrs(out or []), exc=exc, **state_(kt))
        elif op == 'tensor':
            out, exc = r.call(lambda: kt.construct_tensor()/unit)
            r.emit('tensor', out=arr(out), exc=exc, **state_(kt))


def C02(r):
    alphabet = ['normalise', 'normalise_keep', 'reset', 'single', 'parts']
    # every history of up to three operations
    i = 0
    for n in (1, 2, 3):
        for ops in itertools.product(alphabet, repeat=n):
            if n == 3 and not r.thorough and i % 2:
                i += 1
                continue
            kind = ['plain', 'zero', 'int', 'layout', 'noweights'][i % 5]
            rng = rng_for('C02', r.seed, ops)
            sizes = [int(x) for x in rng.integers(1, 5, int(rng.integers(2, 5)))]
            r.scenario(kind, _history, rng, sizes, int(rng.integers(1, 4)), kind, list(ops) + ['tensor'])
            i += 1
    for k in range(10 if not r.thorough else 100):
        rng = rng_for('C02long', r.seed, k)
        ops = [alphabet[int(j)] for j in rng.integers(0, 5, 12)] + ['parts', 'tensor']
        sizes = [int(x) for x in rng.integers(1, 8, int(rng.integers(2, 5)))]
        r.scenario('long', _history, rng, sizes, int(rng.integers(1, 6)), ['plain', 'zero', 'int', 'layout', 'noweights'][k % 5], ops)
    for k in range(8 if not r.thorough else 60):
        rng = rng_for('C02unit', r.seed, k)
        ops = [['normalise', 'normalise_keep', 'single', 'parts'][int(j)] for j in rng.integers(0, 4, 3)] + ['parts', 'tensor']
        sizes = [int(x) for x in rng.integers(1, 5, int(rng.integers(2, 5)))]
        r.scenario('unit', _history, rng, sizes, int(rng.integers(1, 4)), ['plain', 'zero', 'layout'][k % 3], ops, 2.0**[-40, 40, -20, 60][k % 4])
    for k in range(12 if not r.thorough else 100):  # single components are tensors of their own
        rng = rng_for('C02part', r.seed, k)
        ops = [[['part_normalise', 'part_keep', 'part_reset'], alphabet][int(j) % 2][int(j) // 2 % (5 if j % 2 else 3)] for j in rng.integers(0, 30, 5)]
        sizes = [int(x) for x in rng.integers(1, 5, int(rng.integers(2, 5)))]
        ops = [['part_normalise', 'part_keep', 'part_reset'][k % 3]] + ops + ['tensor']
        r.scenario('part', _history, rng, sizes, int(rng.integers(1, 4)), ['plain', 'zero', 'int', 'layout', 'noweights'][k % 5], ops)
    for k in range(8 if not r.thorough else 60):
        rng = rng_for('C02shared', r.seed, k)
        ops = [alphabet[int(j)] for j in rng.integers(0, 5, 3)]
        sizes = [int(x) for x in rng.integers(1, 5, int(rng.integers(2, 5)))]
        sizes[-1] = sizes[0]
        r.scenario('shared', _history, rng, sizes, int(rng.integers(1, 4)), 'shared', ['normalise', 'tensor'] + ops + ['tensor'])
    for sizes, rank in [((60, 30), 12), ((20, 17, 9), 6), ((3, 200, 2), 2), ((520, 2), 2), ((2, 1030), 1)]:
        rng = rng_for('C02big', r.seed, sizes)
        r.scenario('big', _history, rng, sizes, rank, 'plain', ['normalise', 'parts', 'single', 'tensor'])


# ------------------------------------------------------------------------------------------- C05
def evolving_event(r, kind, A, Bs, C, P, ten, warning):
    def go():
        out = {
            'slices': arrs(ten.construct_slices()), 'single': [arr(ten.construct_slice(k)) for k in range(len(C))],
            'Bk': [arr(ten.B[k]) for k in range(len(C))], 'Bend': [arr(ten.B[k - len(C)]) for k in range(len(C))],
            'Bin': [arr(B_k) for B_k in ten.B], 'Bcol': [arr(ten.B[k, :, r]) for k in range(len(C)) for r in range(ten.rank)] if kind == 'parafac2' else [], 'unfolded': arr(ten.B_unfolded),
            'Aout': arr(ten.A), 'Cout': arr(ten.C), 'shape': ints(ten.shape),
            'slice_shapes': [ints(s) for s in ten.slice_shapes], 'num_elements': int(ten.num_elements)}
        fm = ten.factor_matrices
        out['factors'] = [[arr(fm[0]), *[arr(fm[1][k]) for k in range(len(C))], arr(fm[2])],
                          [arr(ten[0]), *[arr(ten[1][k]) for k in range(len(C))], arr(ten[2])]]
        return out
    out, exc = r.call(go)
    T, texc = r.call(ten.construct_tensor)
    T2, again = r.call(ten.construct_tensor)
    r.emit('evolving', again=arr(T2), again_exc=again, kind=kind, A=arr(A), B=arrs(Bs), C=arr(C), P=arrs(P), warning=warning, exc=exc,
           tensor=arr(T), tensor_exc=texc, **(out or {}))


def whole(rng, M):
    """Sometimes integers instead."""
    return rng.integers(-3, 4, M.shape) if rng.integers(4) == 0 else layout(rng, M) if rng.integers(4) == 0 else M


def _evolving(r, rng, I, widths, R, warning, how):
    K = len(widths)
    gen = rng.standard_normal if K > 6 or K % 2 == 0 else lambda shape: grid(rng, shape)
    A, C = whole(rng, gen((I, R))), whole(rng, gen((K, R)))
    Bs = [whole(rng, rng.standard_normal((J, R))) for J in widths]
    B = np.array(Bs) if how == 'array' and len(set(widths)) == 1 else Bs
    if how == 'classmethod':
        ten, exc = r.call(EvolvingTensor.from_factor_matrices, [A, B, C])
        warning = True
    elif how == 'default':
        ten, exc = r.call(EvolvingTensor, A, B, C)
        warning = True
    else:
        ten, exc = r.call(EvolvingTensor, A, B, C, warning=warning)
    if ten is None:
        r.emit('evolving', exc=exc)
        return
    evolving_event(r, 'evolving', A, Bs, C, [], ten, warning)


def orthonormal(rng, n, k):
    Q = np.linalg.qr(rng.standard_normal((n, k)))[0][:, :k]
    return Q*rng.choice([-1., 1], Q.shape[1])


def _parafac2(r, rng, I, widths, R, warning):
    K = len(widths)
    gen = rng.standard_normal if K > 6 or K % 2 == 0 else lambda shape: grid(rng, shape)
    A, C, B = whole(rng, gen((I, R))), whole(rng, gen((K, R))), whole(rng, rng.standard_normal((R, R)))
    P = [orthonormal(rng, J, R) for J in widths]
    ten, exc = r.call(Parafac2Tensor, A, B, C, P, warning=warning)
    if ten is None:
        r.emit('evolving', exc=exc)
        return
    evolving_event(r, 'parafac2', A, [B], C, P, ten, warning)

    _components(r, ten, R, warning, A, B, C, P, lambda: None)


def _components(r, ten, R, warning, A, B, C, P, after):
    """What the single components construct, after something else has happened in between."""
    K = len(C)
    parts, exc = r.call(lambda: [ten.get_single_component_decomposition(c) for c in range(R)])
    after()
    out, why = r.call(lambda: [[arr(part.construct_slice(k)) for k in range(K)] for part in parts or []])
    whole_, texc = [], []
    for c in range(R):
        T, text = r.call(lambda c=c: parts[c].construct_tensor())
        whole_.append(arr(T))
        texc.append(text)
    r.emit('components', whole=whole_, whole_exc=texc, warning=warning, A=arr(A), B=arrs([B]), C=arr(C), P=arrs(P), comps=out or [], exc=exc or why)


def _fitted(r, rng, widths, R, key):
    """Components of a fitted tensor are tensors of their own, whatever the model does next."""
    Xs = [rng.standard_normal((4, J)) for J in widths]
    model = Parafac2_ALS(R, max_its=2, print_frequency=-1, convergence_tol=0)
    seed_global(r.seed, 'fitted', key)
    if key % 3:
        start = Parafac2Tensor(rng.uniform(.3, 1, (4, R)), np.eye(R), rng.uniform(.3, 1, (len(widths), R)), [orthonormal(rng, J, R) for J in widths])
        model.init = 'precomputed'
        _, exc = r.call(model.fit, Xs, initial_decomposition=start)
    else:
        _, exc = r.call(model.fit, Xs)
    if exc:
        r.emit('components', exc=exc)
        return
    ten = model.decomposition
    held = [ten.A.copy(), ten.blueprint_B.copy(), ten.C.copy(), [p.copy() for p in ten.projection_matrices]]
    _components(r, ten, R, bool(ten.warning), *held, lambda: r.call([model.continue_fit, model.fit][key % 2], *[[6], [Xs]][key % 2]))


def _convert(r, rng, sizes, R, weights):
    U = [whole(rng, rng.standard_normal((s, R))) for s in sizes]
    w = grid(rng, R, 4) * .5 if weights else None
    kt = KruskalTensor([u.copy() for u in U], w)
    w = arr(kt.weights)

    def go(again):
        ten = EvolvingTensor.from_kruskaltensor(kt, **({'allow_same_class': True} if again else {}))
        if again:
            ten = EvolvingTensor.from_kruskaltensor(ten, allow_same_class=True)
        if again == 2:      # what happens to the Kruskal tensor later does not concern what it was converted into
            kt.normalize_components()
            kt.reset_weights()
        return ten.construct_tensor(), ten.construct_slices()
    for again in range(3):
        out, exc = r.call(go, again)
        T, S = out if out else (None, [])
        r.emit('convert', w=w, U=arrs(U), tensor=arr(T), slices=arrs(S), exc=exc)


def C05(r):
    n = 0
    for K in (1, 2, 3):
        for widths in itertools.product((1, 2, 3), repeat=K):
            for R in (1, 2, 3):
                n += 1
                if not r.thorough and K == 3 and n % 3:
                    continue
                rng = rng_for('C05', r.seed, widths, R)
                r.scenario('evolving', _evolving, rng, int(rng.integers(1, 4)), widths, R, bool(n % 2),
                           ['list', 'array', 'default', 'classmethod'][n % 4])
                if min(widths) >= R:
                    r.scenario('parafac2', _parafac2, rng, int(rng.integers(1, 4)), widths, R, bool(n % 2))
    for k in range(14 if not r.thorough else 100):
        rng = rng_for('C05r', r.seed, k)
        K, R = int(rng.integers(1, 7)), int(rng.integers(1, 5))
        widths = [int(x) for x in rng.integers(R, R + 6, K)] if k % 3 else [R + 2]*K
        r.scenario('random', _evolving, rng, int(rng.integers(1, 8)), widths, R, bool(k % 2), ['list', 'array', 'default'][k % 3])
        r.scenario('random', _parafac2, rng, int(rng.integers(1, 8)), widths, R, bool(k % 2))
    for widths in [[3]*40, [5, 60, 7], [2 + i % 5 for i in range(25)]]:
        rng = rng_for('C05b', r.seed, len(widths))
        r.scenario('big', _evolving, rng, 6, widths, 2, False, 'list')
        r.scenario('big', _parafac2, rng, 6, widths, 2, False)
    for k in range(6 if not r.thorough else 40):
        rng = rng_for('C05fitted', r.seed, k)
        widths = [[3, 4, 3], [3, 3, 3], [5, 2], [4, 4]][k % 4]
        r.scenario('fitted', _fitted, rng, widths, 2, k)
    for k in range(16 if not r.thorough else 60):
        rng = rng_for('C05c', r.seed, k)
        r.scenario('convert', _convert, rng, [int(x) for x in rng.integers(1, 6, 3)], int(rng.integers(1, 5)), bool(k % 4))

    def reject(r):
        for order in (2, 4):
            kt = KruskalTensor([np.ones((2, 2))]*order)
            _, exc = r.call(EvolvingTensor.from_kruskaltensor, kt)
            r.emit('reject', exc=exc)
    r.scenario('reject', reject)


# ------------------------------------------------------------------------------------------- C23
def C23(r):
    def kruskal(r, k):
        rng = rng_for('C23', r.seed, k)
        seed_global('C23', r.seed, k)
        for order in (1, 2, 3, 4, 5, 6, 8):
            sizes = [int(x) for x in rng.integers(1 if k % 2 else 2, 8, order)]
            rank = int(rng.integers(1, 7))
            for method in ('normal', 'uniform', 'Uniform', 'NORMAL', None):
                kt, exc = r.call(KruskalTensor.random_init, [tuple, list][k % 2](sizes), rank, *([method] if method else []))
                r.emit('gen_kruskal', sizes=sizes, rank=rank, nonneg=(method or '').lower() == 'uniform', exc=exc,
                       U=arrs(kt.factor_matrices) if kt else [], w=arr(kt.weights if kt else None))
            _, exc = r.call(KruskalTensor.random_init, sizes, rank, 'gauss')
            r.emit('reject', exc=exc)
    for k in range(6 if not r.thorough else 30):
        r.scenario('kruskal', kruskal, k)
    for method in ('normal', 'uniform'):
        def large(r):
            seed_global('C23large', r.seed)
            kt, exc = r.call(KruskalTensor.random_init, (400, 2, 150), 12, method)
            r.emit('gen_kruskal', sizes=[400, 2, 150], rank=12, nonneg=method == 'uniform', exc=exc, U=arrs(kt.factor_matrices) if kt else [], w=arr(kt.weights if kt else None))
            out, exc = r.call(utils.create_random_uniform_factors if method == 'uniform' else utils.create_random_factors, (400, 2, 150), 12)
            r.emit('gen_factors', sizes=[400, 2, 150], rank=12, nonneg=method == 'uniform', exc=exc, U=arrs(out[0]) if out else [])
        r.scenario('large', large)
    r.scenario('kruskal', lambda r: [
        (lambda kt: r.emit('gen_kruskal', sizes=[300, 3, 40], rank=25, nonneg=False, U=arrs(kt.factor_matrices), w=arr(kt.weights)))
        (KruskalTensor.random_init((300, 3, 40), 25))])

    def parafac2(r, k):
        rng = rng_for('C23p', r.seed, k)
        seed_global('C23p', r.seed, k)
        rank, K, I = (int(x) for x in rng.integers(1, 6, 3))
        widths = [int(x) for x in rng.integers(rank, rank + 9, K)]
        if k % 8 == 7:
            K = 40
            widths = [int(x) for x in rng.integers(rank, rank + 4, K)]
        if k % 3 == 0:
            widths = [widths[0]]*K
        sizes1 = widths[0] if k % 3 == 0 else widths
        ten, exc = r.call(Parafac2Tensor.random_init, [[I, sizes1, K], (I, sizes1, K)][k % 2], rank)
        ok = ten is not None
        r.emit('gen_parafac2', sizes=[I, max(widths), K], widths=widths, rank=rank, exc=exc, A=arr(ten.A if ok else None),
               B=arr(ten.blueprint_B if ok else None), C=arr(ten.C if ok else None),
               P=arrs(ten.projection_matrices) if ok else [])
    for k in range(24 if not r.thorough else 120):
        r.scenario('parafac2', parafac2, k)

    def data(r, k):
        rng = rng_for('C23d', r.seed, k)
        seed_global('C23d', r.seed, k)
        sizes = [int(x) for x in rng.integers(2, 7, int(rng.integers(2, 5)))]
        if k % 7 == 6:
            sizes = [2]*7
        rank = int(rng.integers(1, 5))
        level = [0, .1, 1.5, 3][k % 4]
        for fn, nonneg in ((utils.create_data, False), (utils.create_non_negative_data, True)):
            out, exc = r.call(fn, sizes, rank, noise_factor=level)
            T, U, norms, noise = out if out is not None else (None, [], [], None)
            r.emit('gen_data', sizes=sizes, rank=rank, nonneg=nonneg, level=num(level), exc=exc, T=arr(T), U=arrs(U), noise=arr(noise))
        for fn, nonneg in ((utils.create_random_factors, False), (utils.create_random_uniform_factors, True)):
            out, exc = r.call(fn, sizes, rank)
            r.emit('gen_factors', sizes=sizes, rank=rank, nonneg=nonneg, exc=exc, U=arrs(out[0]) if out else [])
    for k in range(20 if not r.thorough else 100):
        r.scenario('data', data, k)
