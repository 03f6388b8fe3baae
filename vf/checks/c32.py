"""C32: construction, settings and refusals of sparse arrays."""
import os
import warnings

import numpy as np

from vf import sparse
from vf.api import Violation, call, equal, refused, require

ID = 'C32'
PHASES = [dict(variant='none', count=dict(quick=6000, thorough=200000))]
RULE = ('SparseArrays with random settings (dtype, sparse_slicing, '
        'allow_full_expand, metadata; given directly or when a file is '
        'loaded) go through random histories of indexing, binning, reshaping, '
        'reductions, to_dense and calls that are refused; after every step '
        'the settings of the array and of what was derived from it are '
        'compared with the ones that were chosen, and the values with the '
        'dense model. Data that does not fit the shapes is offered to the '
        'constructor. Non-trivial: at least one event and one step.')
REQUIRED = ['denied-slice', 'denied-reduction', 'allowed-slice',
            'allowed-reduction', 'to_dense', 'loaded', 'constructed',
            'scan-axes', 'frame-axes', 'refused-dimensions',
            'refused-positions', 'refused-float', 'refused-last',
            'not-validated', 'inherited:slice', 'inherited:bin_frames',
            'inherited:bin_scans', 'inherited:in-place', 'reshape', 'ravel',
            'reshape-refused', 'shape-length-refused', 'metadata-own',
            'setting-changed']
ASSUMPTIONS = ['Reductions over exactly the scan axes or exactly the frame '
               'axes need no dense form of the whole array.']
DT = ['uint32', 'uint8', 'uint16', 'int64', 'uint64', 'float32', 'float64']
OPS = ['full', 'scan', 'frame', 'mixed', 'to_dense', 'slice', 'bin_frames',
       'bin_scans', 'bin_frames-in-place', 'bin_scans-in-place', 'reshape',
       'reshape-refused', 'ravel', 'bad-index', 'bad-bin', 'toggle']


def gen(rng, i, tier, phase):
    p = sparse.gen_params(rng)
    return dict(p=p, dtype=str(rng.choice(DT)), slicing=bool(rng.random() < .5),
                expand=bool(rng.random() < .4), meta=bool(rng.random() < .5),
                load=bool(rng.random() < .25) and len(p['scan']) == 2,
                bad=str(rng.choice(['dimensions', 'positions', 'shape',
                                    'float', 'last', 'bool', 'zero-d'])),
                ops=[[str(rng.choice(OPS)), int(rng.integers(1 << 31))]
                     for _ in range(int(rng.integers(1, 9)))],
                seed=int(rng.integers(1 << 31)))


def settings(a):
    return (np.dtype(a.dtype), bool(a.sparse_slicing),
            bool(a.allow_full_expand))


def denied(name, fn, *args, **kw):
    from stempy.io.sparse_array import FullExpansionDenied
    try:
        r = fn(*args, **kw)
    except FullExpansionDenied:
        return
    except Exception as e:
        raise Violation(f'wrong-exception:{name}',
                        f'{type(e).__name__}: {e}') from e
    raise Violation(f'not-denied:{name}', f'{name} returned an array of shape '
                    f'{np.shape(r)} although full expansion is not allowed')


def construct(case, data, ctx):
    from stempy.io import SparseArray
    p, bad = case['p'], case['bad']
    rng = np.random.default_rng(case['seed'])
    args = [data, p['scan'], p['frame']]
    if bad == 'dimensions':
        args[0] = data[:, :, None]
    elif bad == 'zero-d':
        args[0] = np.array(5)
    elif bad == 'positions':
        args[0] = np.concatenate([data, data[:1]]) if rng.random() < .5 \
            else data[:-1]
    elif bad == 'shape':
        args[1] = [p['scan'][0] + 1] + p['scan'][1:]
    else:
        other = data.copy()
        at = tuple(int(rng.integers(s)) for s in data.shape)
        if bad == 'last':
            at = (-1, -1)
        other[at] = other[at].astype(bool if bad == 'bool' else float)
        args[0] = other
    refused('constructor', SparseArray, *args)
    ctx.tag({'zero-d': 'refused-dimensions', 'shape': 'refused-positions',
             'bool': 'refused-float'}.get(bad, 'refused-' + bad))


def build(case, data, ctx):
    from stempy.io import (SparseArray, load_electron_counts,
                           save_electron_counts)
    p = case['p']
    kw = dict(dtype=np.dtype(case['dtype']), sparse_slicing=case['slicing'],
              allow_full_expand=case['expand'])
    if case['meta']:
        kw['metadata'] = {'a': 1, 'b': {'c': 'text'}}
    if case['load']:
        path = os.path.join(ctx.tmpdir(), 'a.h5')
        call('save', save_electron_counts, path,
             SparseArray(data, p['scan'], p['frame'], metadata={'z': 5}))
        a = call('from_hdf5', SparseArray.from_hdf5, path, **kw)
        os.unlink(path)
        require(a.metadata == kw.get('metadata', {'z': 5}), 'metadata',
                a.metadata)
        ctx.tag('loaded')
        return a
    if case['seed'] % 3 == 0:
        kw['validate'] = False
        ctx.tag('not-validated')
    a = call('constructor', SparseArray, sparse.flat(p, data, ctx), p['scan'],
             p['frame'], **kw)
    require(a.metadata == kw.get('metadata', {}), 'metadata', a.metadata)
    if not case['meta']:
        # every array has metadata of its own
        a.metadata['mine'] = 1
        b = SparseArray(data, p['scan'], p['frame'])
        require(b.metadata == {} and b.metadata is not a.metadata,
                'metadata-shared', b.metadata)
        ctx.tag('metadata-own')
    ctx.tag('constructed')
    return a


def wanted(model, dtype):
    return model.astype(dtype)


def run(case, ctx):
    warnings.simplefilter('ignore')
    p = case['p']
    data = sparse.build(p)
    model = sparse.dense(data, p['scan'], p['frame'])
    construct(case, data, ctx)
    a = build(case, data, ctx)
    want = (np.dtype(case['dtype']), case['slicing'], case['expand'])
    require(settings(a) == want, 'settings', f'{settings(a)} {want}')
    for name, seed in case['ops']:
        r = np.random.default_rng(seed)
        n = model.ndim
        op = str(r.choice(['sum', 'max', 'min', 'mean']))
        allowed = a.allow_full_expand
        got = None
        if name == 'full':
            key = [slice(None), Ellipsis, (slice(None),) * n,
                   (slice(None, None, -1),), np.ones(p['scan'], bool)
                   if list(a.scan_shape) == p['scan'] and len(p['scan']) == 1
                   else slice(0, None)][int(r.integers(5))]
            if a.sparse_slicing:
                continue
            k = key if isinstance(key, tuple) else (key,)
            if allowed:
                got = call('getitem', a.__getitem__, key)
                equal('getitem', got, wanted(model[k], a.dtype))
                require(got.dtype == a.dtype, 'dtype:getitem', got.dtype)
                ctx.tag('allowed-slice')
            else:
                denied('getitem', a.__getitem__, key)
                ctx.tag('denied-slice')
        elif name in ('scan', 'frame'):
            axis = a.scan_axes if name == 'scan' else a.frame_axes
            got = call(op, getattr(a, op), axis if r.random() < .5 else
                       tuple(int(x) for x in axis), np.int64 if op != 'mean'
                       else np.float64)
            w = getattr(model, op)(axis=axis)
            require(np.allclose(got, w, rtol=1e-5) and np.shape(got) ==
                    w.shape, f'value:{op}', f'axis {axis}')
            ctx.tag(name + '-axes')
        elif name == 'mixed':
            m = int(r.integers(1, n + 1))
            axis = tuple(sorted(int(x) for x in r.permutation(n)[:m]))
            if axis in (a.scan_axes, a.frame_axes):
                continue
            arg = None if len(axis) == n and r.random() < .5 else \
                axis[0] if len(axis) == 1 else axis
            if allowed:
                if want[0].kind == 'f' or want[0].itemsize >= 4:
                    got = call(op, getattr(a, op), arg)
                    w = getattr(model, op)(axis=axis)
                    require(np.allclose(got, w, rtol=1e-4) and
                            np.shape(got) == w.shape, f'value:{op}',
                            f'axis {axis}')
                    ctx.tag('allowed-reduction')
            else:
                denied(op, getattr(a, op), arg)
                ctx.tag('denied-reduction')
        elif name == 'to_dense':
            got = call('to_dense', a.to_dense)
            equal('to_dense', got, wanted(model, a.dtype))
            require(got.dtype == a.dtype, 'dtype:to_dense', got.dtype)
            ctx.tag('to_dense')
        elif name == 'slice':
            if not a.sparse_slicing:
                continue
            key = []
            for s in a.scan_shape + (a.frame_shape if r.random() < .5 else ()):
                lo = int(r.integers(s))
                key.append(slice(lo, int(r.integers(lo + 1, s + 1))))
            key = tuple(key)
            new = call('getitem', a.__getitem__, key)
            require(settings(new) == want, 'inherited:slice',
                    f'{settings(new)} {want}')
            require(settings(a) == want, 'source-settings:slice',
                    f'{settings(a)} {want}')
            a, model = new, model[key]
            ctx.tag('inherited:slice')
        elif name.startswith('bin'):
            method, inp = name[:-9] if name.endswith('-in-place') else name, \
                name.endswith('-in-place')
            if method == 'bin_scans' and len(a.scan_shape) == 1:
                continue
            shape = a.scan_shape if method == 'bin_scans' else a.frame_shape
            fs = [k for k in range(1, 8) if all(s % k == 0 for s in shape)]
            f = fs[int(r.integers(len(fs)))]
            new = call(method, getattr(a, method), f, in_place=inp)
            ax = (0, 1) if method == 'bin_scans' else (n - 2, n - 1)
            for x in ax:
                model = np.add.reduceat(model, np.arange(0, model.shape[x], f),
                                        axis=x)
            require(settings(new) == want, 'inherited:' + method,
                    f'{settings(new)} {want}')
            require((new is a) == inp, 'in-place', name)
            require(settings(a) == want, 'source-settings:' + method,
                    settings(a))
            a = new
            ctx.tag('inherited:' + ('in-place' if inp else method))
        elif name in ('reshape', 'reshape-refused', 'ravel'):
            before, id_ = a.shape, id(a.data)
            if name == 'ravel':
                call('ravel_scans', a.ravel_scans)
                model = model.reshape((-1,) + model.shape[-2:])
                ctx.tag('ravel')
            elif name == 'reshape':
                ns = int(np.prod(a.scan_shape))
                nf = a.frame_shape[0] * a.frame_shape[1]
                ds = [k for k in range(1, ns + 1) if ns % k == 0]
                df = [k for k in range(1, nf + 1) if nf % k == 0]
                x, y = ds[int(r.integers(len(ds)))], df[int(r.integers(len(df)))]
                new = ((x, ns // x) if r.random() < .6 else (ns,)) + \
                    (y, nf // y)
                how = int(r.integers(3))
                if how == 0:
                    call('reshape', a.reshape, *new)
                elif how == 1:
                    call('reshape', a.reshape, new)
                else:
                    a.shape = new
                model = model.reshape(new)
                ctx.tag('reshape')
            else:
                kind = int(r.integers(4))
                if kind == 0:
                    new = a.frame_shape
                    ctx.tag('shape-length-refused')
                elif kind == 1:
                    new = (1, 1) + a.shape[:2] + a.shape[2:]
                    if len(new) < 5:
                        new = (1,) * 5
                    ctx.tag('shape-length-refused')
                elif kind == 2:
                    # the product is right, but events would move between
                    # positions and frames
                    s = list(a.shape)
                    s[0], s[-1] = s[0] * s[-1], 1
                    new = tuple(s)
                    if a.shape[-1] == 1:
                        continue
                else:
                    s = list(a.shape)
                    s[int(r.integers(len(s)))] += 1
                    new = tuple(s)
                if r.random() < .5:
                    refused('reshape', a.reshape, *new)
                else:
                    refused('shape', setattr, a, 'shape', new)
                require(a.shape == before and id(a.data) == id_,
                        'changed-by-refusal', f'{before} {a.shape} {new}')
                ctx.tag('reshape-refused')
            require(settings(a) == want, 'settings:' + name, settings(a))
        elif name == 'bad-index':
            refused('getitem', a.__getitem__, (a.shape[0],))
        elif name == 'bad-bin':
            refused('bin_frames', a.bin_frames, max(a.frame_shape) + 1)
        elif name == 'toggle':
            if r.random() < .5:
                a.sparse_slicing = not a.sparse_slicing
            else:
                a.allow_full_expand = not a.allow_full_expand
            want = settings(a)
            ctx.tag('setting-changed')
        require(settings(a) == want, 'settings-after:' + name,
                f'{settings(a)} instead of {want}')
        require(a.shape == model.shape and a.ndim == model.ndim and
                a.num_scans == int(np.prod(model.shape[:-2])), 'shape',
                f'{a.shape} {model.shape} after {name}')
        require(a.num_frames_per_scan == a.data.shape[1] and
                a.scan_axes == tuple(range(n_scan := a.ndim - 2)) and
                a.frame_axes == (n_scan, n_scan + 1) and
                np.array_equal(a.scan_positions, np.arange(a.num_scans)),
                'derived-attributes', f'{a.num_frames_per_scan} {a.scan_axes} '
                f'{a.frame_axes} after {name}')
        ctx.count('steps')
    equal('end', sparse.dense(a.data, a.scan_shape, a.frame_shape), model)
    if model.any():
        ctx.nontrivial(p, case['ops'])
