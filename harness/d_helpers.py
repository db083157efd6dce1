"""Scenarios for C27: sequences of helper transformations, PCA loadings and iteration over checkpoint files."""
import itertools
import os
import tempfile

import h5py
import numpy as np

from d_algebra import layout
from d_session import TYPES, Problem, bits
from rec import arr, arrs, grid, rng_for
from tenkit import metrics, utils


def sequence(r, key, sizes, R, kind, ops):
    rng = rng_for('C27', key)
    U = [rng.standard_normal((s, R)) for s in sizes]
    if kind == 'int':
        U = [rng.integers(-3, 4, (s, R)) for s in sizes]
    elif kind == 'zero':
        U[int(rng.integers(len(U)))][:, int(rng.integers(R))] = 0
    elif kind == 'layout':
        U = [layout(rng, u) for u in U]
    elif kind == 'scales':
        U = [u/np.linalg.norm(u, axis=0)*10.0**rng.integers(-6, 4, R) for u in U]
    w = rng.integers(1, 5, R) if kind == 'int' else rng.standard_normal(R)
    r.emit('given', w=arr(w), U=arrs(U))
    for op in ops:
        if op == 'normalise':
            one = bool(rng.integers(2))
            out, exc = r.call(lambda: list(zip(*[utils.normalize_factor(u) for u in U]))) if one else r.call(utils.normalize_factors, U)
            F, norms = out if out is not None else ([], [])
            r.emit('normalise', out=arrs(F), norms=arrs(norms), exc=exc)
            if exc:
                return
            w = w*np.prod(np.concatenate([np.reshape(n, (1, -1)) for n in norms]), axis=0)
            U = [np.array(f) for f in F]
        else:
            perm = [int(x) for x in rng.permutation(R)]
            if op == 'subset':
                perm = perm[:max(1, R - 1)]
            given = [tuple, list, np.array][int(rng.integers(3))](perm)
            weighted = bool(rng.integers(3))
            if weighted:
                out, exc = r.call(utils.permute_factors_and_weights, given, U, w)
            else:
                out, exc = r.call(utils.permute_factors, given, U)
                out = (out, None)
            F, v = out if out is not None else ([], None)
            r.emit('permute', perm=[x + 1 for x in perm], weighted=weighted, out=arrs(F or []), w=arr(v if v is not None else 0.), exc=exc)
            if exc:
                return
            U, w, R = [np.array(f) for f in F], np.asarray(w)[perm], len(perm)


def undo(r, key, sizes, R, how):
    """Apply the permutation that the factor match score returns."""
    rng = rng_for('C27undo', key)
    U = [rng.standard_normal((s, R)) for s in sizes]
    r.emit('given', w=arr(np.ones(R)), U=arrs(U))
    perm = rng.permutation(R)
    V = [u[:, perm]*rng.choice([-1, 1], R)*rng.uniform(.5, 2, R) for u in U]

    def go():
        _, p = metrics.factor_match_score(U, V, weight_penalty=False, fms_reduction=how)
        return utils.permute_factors(p, V)
    out, exc = r.call(go)
    r.emit('undo', out=arrs(out if out is not None else []), exc=exc)


def loadings(r, key, n, m, rank, kind):
    rng = rng_for('C27pca', key)
    Y = rng.standard_normal((n, m))
    if kind == 'int':
        Y = grid(rng, (n, m))
    elif kind == 'deficient':
        Y = rng.standard_normal((n, 1)) @ rng.standard_normal((1, m))
    elif kind == 'layout':
        Y = layout(rng, Y)
    out, exc = r.call(utils.get_pca_loadings, Y, rank)
    r.emit('loadings', Y=arr(Y), rank=rank, out=arr(out), exc=exc)


def checkpoints(r, kind, key, start=0, n=6, frequency=1):
    rng = rng_for('C27cp', key)
    p = Problem(key, kind)
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, 'c.h5')
        seen = {}

        class Watch:
            def log(self, model):
                seen[model.current_iteration] = bits(model.decomposition)

            def write_to_hdf5_group(self, g):
                pass
        m = p.model(convergence_tol=0, rel_loss_tol=0, checkpoint_path=path, checkpoint_frequency=frequency, loggers=[Watch()])
        if kind != 'pf2':
            m.print_frequency = -1
        _, exc = r.call(p.fit, m, max_its=0, initial_decomposition=p.start())
        m.current_iteration = start
        stops = [start + n] if rng.integers(2) else [start + n//2, start + n]
        for stop in stops:
            if not exc:
                _, exc = r.call(m.continue_fit, max_its=stop)
        due = [i for i in range(start, start + n) if (i + 1) % frequency == 0 or i + 1 in stops]

        def go():
            with h5py.File(path, 'r') as h5:
                found = list(utils.iter_checkpoints(h5))
                return ([int(g.name.split('_')[-1]) for g in found],
                        [bits(type(m.decomposition).load_from_hdf5_group(g)) for g in found])
        out, exc2 = r.call(go)
        labels, found = out or ([], [])
        r.emit('checkpoints', labels=labels, expected=due, bits=found, expected_bits=[seen.get(i, ['not seen']) for i in due] if kind != 'cmtf' else found, exc=exc or exc2)


def C27(r):
    n = 0
    for ops in [o for k in (1, 2, 3) for o in itertools.product(['normalise', 'permute', 'subset'], repeat=k)]:
        for rep in range(2 if not r.thorough else 20):
            n += 1
            rng = rng_for('C27n', r.seed, n)
            sizes = [int(x) for x in rng.integers(1, 6, int(rng.integers(1, 5)))]
            kind = ['plain', 'int', 'zero', 'layout', 'scales'][n % 5]
            r.scenario('helpers_' + kind, sequence, (r.seed, n), sizes, int(rng.integers(1, 5)), kind, ops)
    for i in range(16 if not r.thorough else 200):
        rng = rng_for('C27u', r.seed, i)
        R = int(rng.integers(1, 5))
        r.scenario('undo', undo, (r.seed, i), [int(x) for x in rng.integers(2, 7, int(rng.integers(2, 4)))], R, ['min', 'mean'][i % 2])
    for i in range(40 if not r.thorough else 400):
        rng = rng_for('C27p', r.seed, i)
        a, b = (int(x) for x in rng.integers(1, 7, 2))
        r.scenario('pca', loadings, (r.seed, i), a, b, int(rng.integers(1, min(a, b) + 1)), ['plain', 'int', 'deficient', 'layout'][i % 4])
    for i, shape in enumerate([(40, 3), (3, 25), (12, 12)]):
        r.scenario('pca', loadings, (r.seed, 'big', i), *shape, 3, 'plain')
    for i in range(12 if not r.thorough else 60):
        kind = ['cp', 'pf2', 'cmtf'][i % 3]
        r.scenario('checkpoints', checkpoints, kind, (r.seed, i), [0, 7, 98, 9997, 99997, 999997][(i // 2) % 6], 6, [1, 2][i % 2])
