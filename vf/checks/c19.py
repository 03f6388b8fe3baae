"""C19: reductions and reshape against numpy on the dense model."""
import itertools

import numpy as np

from vf import sparse
from vf.api import call, close, equal, refused, require

ID = 'C19'
PHASES = [dict(variant='none', timeout=300,
               count=dict(quick=6400, thorough=200000))]
RULE = ('Random event arrays are reduced with sum, max, min and mean over '
        'every subset of axes (also named, also as lists, also with a '
        'requested dtype), before and after random reshapes; each result is '
        'compared with numpy on an independent dense model. Non-trivial: the '
        'array has an event.')
REQUIRED = ['op:sum', 'op:max', 'op:min', 'op:mean', 'axes:scan', 'axes:frame',
            'axes:all', 'axes:mixed', 'dtype', 'empty-position', 'reshape',
            'multi-frame', 'full-position', 'named', 'ravel_scans',
            'reshape-refused', 'large-frame', 'large-scan', 'large-frames', 'large-huge', 'negative-axis', 'large-huge-frames',
            'flat-data', 'narrow', 'narrow-overflow']
DT = ['uint32', 'int64', 'uint64', 'float64', 'float32', 'int32']


def factorings(n, k):
    if k == 1:
        return [(n,)]
    return [(d, n // d) for d in range(1, n + 1) if n % d == 0]


def gen(rng, i, tier, phase):
    case = dict(p=sparse.gen_params(rng, large=.008, 
                                     huge=sparse.huge(i, 3200)),
                rseed=int(rng.integers(1 << 30)))
    if rng.random() < .25 and case['p']['fps'] < 100:
        # every pixel fits, but not every sum of pixels
        case['dtype'] = str(rng.choice(['int8', 'uint8', 'int16', 'uint16',
                                        'int64', 'float32', 'float64']))
    return case


def reductions(a, model, rng, ctx, tagset):
    n = model.ndim
    sc, fr = a.scan_axes, a.frame_axes
    axes = [s for k in range(1, n + 1)
            for s in itertools.combinations(range(n), k)]
    todo = [None, 'scan', 'frame', sc, fr, axes[rng.integers(len(axes))],
            axes[rng.integers(len(axes))]]
    ops = ['sum', 'max', 'min', 'mean']
    if model.size > 50000 and model.shape[0] > 1:
        # these take seconds
        todo = [todo[k] for k in rng.permutation(len(todo))[:3]]
        ops = [ops[k] for k in rng.permutation(4)[:2]]
    for axis in todo:
        real = {None: tuple(range(n)), 'scan': sc, 'frame': fr}.get(axis, axis) \
            if not isinstance(axis, tuple) else axis
        arg = axis
        if isinstance(axis, tuple):
            if len(axis) == 1 and rng.random() < 0.5:
                arg = int(axis[0])
            elif rng.random() < 0.3:
                arg = list(axis)[::-1]
            if rng.random() < 0.2:
                arg = arg - n if isinstance(arg, int) else \
                    type(arg)(int(x) - n for x in arg)
                ctx.tag('negative-axis')
        if isinstance(axis, str):
            ctx.tag('named')
        ctx.tag('axes:scan' if real == sc else 'axes:frame' if real == fr
                else 'axes:all' if len(real) == n else 'axes:mixed')
        for op in ops:
            dt = None
            if rng.random() < 0.4:
                dt = str(rng.choice(DT[3:5] if op == 'mean' else DT))
            kw = {} if dt is None else {'dtype': np.dtype(dt)}
            got = call(op, getattr(a, op), arg, **kw)
            want = getattr(model, op)(axis=real)
            narrow = np.issubdtype(a.dtype, np.integer) and \
                model.sum(axis=real).max() > np.iinfo(a.dtype).max
            if narrow:
                ctx.tag('narrow-overflow')
            if narrow and op == 'sum' and dt is None:
                # documented: the sum has the type of the array
                continue
            if op == 'mean':
                close(op, got, want, rtol=1e-5, atol=1e-7,
                      detail=f'axis {arg!r}')
            else:
                equal(op, got, want, f'axis {arg!r} dtype {dt}')
            if dt is not None:
                require(np.asarray(got).dtype == np.dtype(dt), f'dtype:{op}',
                        f'{np.asarray(got).dtype} instead of {dt}, axis {arg}')
                ctx.tag('dtype')
            ctx.tag('op:' + op)
            ctx.count('reductions')


def run(case, ctx):
    from stempy.io import SparseArray
    p = case['p']
    rng = np.random.default_rng(case['rseed'])
    data = sparse.build(p)
    if p.get('large'):
        ctx.tag('large-' + p['large'])
    model = sparse.dense(data, p['scan'], p['frame'])
    kw = {}
    if case.get('dtype'):
        kw['dtype'] = np.dtype(case['dtype'])
        ctx.tag('narrow')
    a = SparseArray(sparse.flat(p, data, ctx), p['scan'], p['frame'],
                    allow_full_expand=True, **kw)
    before = sparse.lists(a.data)
    per = model.reshape(len(data), -1).sum(axis=1)
    if (per == 0).any():
        ctx.tag('empty-position')
    if (model.reshape(len(data), -1) > 0).all(axis=1).any():
        ctx.tag('full-position')
    if p['fps'] > 1:
        ctx.tag('multi-frame')
    reductions(a, model, rng, ctx, 'plain')
    require(sparse.lists(a.data) == before, 'purity:reductions',
            'a reduction changed the array')
    # reshape
    nd = int(rng.choice([1, 2]))
    s = factorings(int(np.prod(p['scan'])), nd)
    f = factorings(int(np.prod(p['frame'])), 2)
    shape = tuple(s[rng.integers(len(s))]) + tuple(f[rng.integers(len(f))])
    how = int(rng.integers(3))
    bad = list(shape)
    bad[int(rng.integers(len(bad)))] += 1
    old = a.shape
    refused('reshape', a.reshape, *bad)
    require(a.shape == old, 'reshape-refused', 'shape changed by a refusal')
    ctx.tag('reshape-refused')
    if how == 0:
        res = call('reshape', a.reshape, *shape)
    elif how == 1:
        res = call('reshape', a.reshape, shape)
    else:
        a.shape = shape
        res = a
    model2 = model.reshape(shape)
    require(res is a and a.shape == shape, 'reshape', f'{a.shape} {shape}')
    equal('reshape', sparse.dense(a.data, a.scan_shape, a.frame_shape), model2)
    equal('reshape.to_dense', call('to_dense', a.to_dense), model2)
    ctx.tag('reshape')
    reductions(a, model2, rng, ctx, 'reshaped')
    call('ravel_scans', a.ravel_scans)
    require(a.shape == (len(data),) + shape[-2:], 'ravel_scans', a.shape)
    equal('ravel_scans', call('to_dense', a.to_dense),
          model2.reshape((len(data),) + shape[-2:]))
    ctx.tag('ravel_scans')
    if model.any():
        ctx.nontrivial(p, shape)
