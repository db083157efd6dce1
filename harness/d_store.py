"""Scenarios for C06: histories of storing and loading, generated by TLC from spec/Store.tla."""
import os
import tempfile

import h5py
import numpy as np

from d_algebra import layout
from rec import arrs, exact, rng_for
from tenkit.decomposition.decompositions import EvolvingTensor, KruskalTensor, Parafac2Tensor

TYPES = {t.__name__: t for t in (KruskalTensor, EvolvingTensor, Parafac2Tensor)}


def values(x):
    """Text that identifies the shape and all entries (not the type they are stored in)."""
    return exact(np.asarray(x).astype(np.float64) + 0.0)


def parts(d):
    if isinstance(d, KruskalTensor):
        return [*d.factor_matrices, d.weights]
    if isinstance(d, Parafac2Tensor):
        return [d.A, d.blueprint_B, d.C, *d.projection_matrices]
    return [d.A, d.C, *[d.B[k] for k in range(len(d.B))]]


def value(d):
    if d is None:
        return {'type': 'none', 'rank': -1, 'warning': '', 'parts': [], 'shapes': ''}
    warning = '' if isinstance(d, KruskalTensor) else str(bool(d.warning))
    shapes = str([int(x) for x in d.shape])
    if not isinstance(d, KruskalTensor):
        shapes += str([[int(x) for x in s] for s in d.slice_shapes]) + str(bool(d.all_same_size)) + str(int(d.num_elements))
    return {'type': type(d).__name__, 'rank': int(d.rank), 'warning': warning, 'parts': [values(p) for p in parts(d)],
            'shapes': shapes}


def content(rng, shape, kind):
    a = rng.standard_normal(shape)
    if kind == 'special':
        flat = a.ravel()
        for i in range(0, flat.size, 2):
            flat[i] = [np.nan, np.inf, -np.inf, -0.0, 5e-324, 1.7e308, 1/3][int(rng.integers(7))]
    elif kind == 'single':
        a = a.astype(np.float32)
    elif kind == 'layout':
        a = layout(rng, a)
    elif kind == 'int':
        a = rng.integers(-5, 6, shape)
    elif kind == 'whole':       # integers that need all the bits of their type
        a = rng.integers(-2**53, 2**53, shape)
        a = a.astype(float) if rng.integers(2) else a
    return a


def build(rng, type_, kind, size=None):
    if kind == 'tall':          # matrices with many rows
        if type_ == 'KruskalTensor':
            return KruskalTensor([rng.standard_normal((s, 3)) for s in (150, 2, 400)], rng.standard_normal(3))
        A, C, mats = rng.standard_normal((700, 2)), rng.standard_normal((2, 2)), [rng.standard_normal((n, 2)) for n in (300, 5)]
        return EvolvingTensor(A, mats, C) if type_ == 'EvolvingTensor' else Parafac2Tensor(A, rng.standard_normal((2, 2)), C, mats)
    R = int(rng.integers(1, 4))
    if type_ == 'KruskalTensor':
        order = size or int(rng.integers(2, 5))
        return KruskalTensor([content(rng, (int(rng.integers(1, 5)) if order < 5 else 1 + int(rng.integers(2)), R), kind)
                              for _ in range(order)],
                             None if rng.integers(3) == 0 else content(rng, R, kind))
    K = size or int(rng.integers(1, 5))
    widths = rng.integers(R, R + 4, K) if rng.integers(2) else [R + 1]*K
    A, C = content(rng, (int(rng.integers(1, 5)), R), kind), content(rng, (K, R), kind)
    warning = bool(rng.integers(2))
    mats = [content(rng, (int(J), R), kind) for J in widths]
    if type_ == 'EvolvingTensor':
        B = np.array(mats) if len({len(m) for m in mats}) == 1 and rng.integers(2) else mats
        return EvolvingTensor(A, B, C, warning=warning)
    return Parafac2Tensor(A, content(rng, (R, R), kind), C, mats, warning=warning)


def modify(rng, d):
    for p in (d.factor_matrices if isinstance(d, KruskalTensor) else parts(d)):
        p[...] = rng.integers(-9, 9, p.shape)
    if isinstance(d, KruskalTensor):
        d.weights[...] = rng.integers(1, 9, d.weights.shape)


def small(d):
    return d is not None and all(p.size < 400 and np.isfinite(p).all() and np.abs(p).max(initial=0) < 1e3 for p in parts(d))


def tensors(d):
    return arrs([d.construct_tensor()] if isinstance(d, KruskalTensor) else d.construct_slices())


def _history(r, tokens, rng, kind, size=None):
    with tempfile.TemporaryDirectory() as tmp:
        obj, stored = {}, {}
        for tok in tokens:
            what, *args = tok.split(':')
            if what == 'type':
                d, exc = r.call(build, rng, args[1], kind, size)
                obj[args[0]] = d
                r.emit('new', obj=args[0], type=args[1], value=value(d), exc=exc)
                if d is None:
                    return
            elif what == 'modify':
                modify(rng, obj[args[0]])
                r.emit('modify', obj=args[0], value=value(obj[args[0]]))
            elif what == 'file':
                o, f = args
                if small(obj[o]):
                    stored[f, 'root'] = tensors(obj[o])
                _, exc = r.call(obj[o].store, os.path.join(tmp, f))
                r.emit('store_file', obj=o, file=f, exc=exc, value=value(obj[o]))
            elif what == 'group':
                o, f, g = args
                if small(obj[o]):
                    stored[f, g] = tensors(obj[o])

                def go():
                    with h5py.File(os.path.join(tmp, f), 'a') as h5:
                        obj[o].store_in_hdf5_group(h5.create_group(g))
                _, exc = r.call(go)
                r.emit('store_group', obj=o, file=f, group=g, exc=exc, value=value(obj[o]))
            elif what == 'load':
                o, f, g, t = args

                def go():
                    if g == 'root':
                        return TYPES[t].from_file(os.path.join(tmp, f))
                    with h5py.File(os.path.join(tmp, f), 'r') as h5:
                        return TYPES[t].load_from_hdf5_group(h5[g])
                d, exc = r.call(go)
                r.emit('load', obj=o, file=f, group=g, exc=exc, value=value(d), **{'as': t})
                if d is not None:
                    obj[o] = d
                    if small(d) and (f, g) in stored and len(stored[f, g]) < 50:
                        out, exc = r.call(tensors, d)
                        r.emit('tensors', a=stored[f, g], b=out or [], exc=exc)


def C06(r):
    kinds = ['plain', 'special', 'single', 'layout', 'int', 'whole']
    lines = open(os.path.join(os.environ['VERIF_WORK'], 'behaviours.txt')).read().splitlines()
    for i, line in enumerate(lines):
        kind = kinds[i % 6]
        r.scenario(kind, _history, line.split(), rng_for('C06', r.seed, i), kind)
    # every type read as every type, many parts
    for n, sizes in [('many', (11, 40)), ('thousand', (12, 1100))]:
        for t in TYPES:
            size = sizes[0] if t == 'KruskalTensor' else sizes[1]
            toks = [f'type:a:{t}', 'file:a:f', 'group:a:f:g', 'modify:a'] + [f'load:b:f:{g}:{u}' for g in ('root', 'g') for u in TYPES]
            r.scenario(n, _history, toks, rng_for('C06', r.seed, n, t), 'plain', size)
    for t in TYPES:
        toks = [f'type:a:{t}', 'file:a:f', 'group:a:f:g', 'load:b:f:root:' + t, 'load:c:f:g:' + t, 'modify:c', 'group:c:f:k', 'load:b:f:k:' + t]
        r.scenario('tall', _history, toks, rng_for('C06t', r.seed, t), 'tall')
    for t in TYPES:
        for k in range(6 if not r.thorough else 40):
            toks = [f'type:a:{t}', f'type:b:{t}', 'file:a:f', 'load:c:f:root:' + t, 'modify:a', 'load:c:f:root:' + t,
                    'modify:c', 'file:a:f', 'load:c:f:root:' + t, 'file:c:h', 'load:b:h:root:' + t, 'group:b:h:k', 'load:c:h:k:' + t]
            r.scenario('single_object', _history, toks, rng_for('C06s', r.seed, t, k), kinds[k % 6])
