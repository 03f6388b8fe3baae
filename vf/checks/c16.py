"""C16: electron count files round-trip."""
import os

import numpy as np

from vf import sparse
from vf.api import Violation, call, equal, require

ID = 'C16'
PHASES = [dict(variant='none', timeout=300,
               count=dict(quick=4000, thorough=120000))]
RULE = ('Random event arrays (2-D scans, non-square frames, several frames '
        'per position, all frames of equal length, empty frames) with random '
        'nested metadata are saved and loaded, with and without the flyback '
        'column, saved again from the loaded array, and compared event list '
        'by event list with the original. Non-trivial: at least one event.')
REQUIRED = ['multi-frame', 'empty-frame', 'equal-length', 'length-one',
            'nested-metadata', 'flyback-cropped', 'nonsquare-scan',
            'nonsquare-frame', 'resaved', 'binned-saved', 'all-empty',
            'large-frame', 'large-scan', 'large-frames', 'large-huge', 'large-huge-frames']
ASSUMPTIONS = ['Arrays have two scan dimensions (the file format stores Nx '
               'and Ny); metadata values are the types an HDF5 attribute can '
               'hold.']


def rand_value(rng):
    k = int(rng.integers(8))
    return [int(rng.integers(-1000, 1000)), float(rng.normal()),
            'text \u00e9 %d' % rng.integers(100), bool(rng.random() < 0.5),
            rng.normal(size=3).tolist(), rng.integers(0, 9, 4).tolist(),
            ['a', 'bc'], 2 ** 40 + int(rng.integers(100))][k]


def rand_meta(rng, depth=0):
    d = {}
    for k in range(int(rng.integers(0, 4))):
        d[f'k{k}'] = rand_value(rng)
    if depth < 3:
        for k in range(int(rng.integers(0, 3))):
            d[f'g{k}'] = rand_meta(rng, depth + 1)
    return d


def gen(rng, i, tier, phase):
    p = sparse.gen_params(rng, scan_dims=(2,), large=.02, 
                          huge=sparse.huge(i, 2000))
    p['dtype'] = str(rng.choice(['uint32', 'uint32', 'int64', 'uint16']))
    if p['frame'][0] * p['frame'][1] > 65536 and p['dtype'] == 'uint16':
        p['dtype'] = 'uint32'
    if rng.random() < 0.15:
        p['mode'] = 'equal'
    return dict(p=p, meta=rand_meta(rng), one=bool(rng.random() < 0.1),
                bin=bool(rng.random() < 0.2))


def same_value(a, b):
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and \
            set(a) == set(b) and all(same_value(a[k], b[k]) for k in a)
    x, y = np.asarray(a), np.asarray(b)
    if x.shape != y.shape:
        return False
    return bool(np.all(x == y))


def compare(name, b, lists, scan, frame, meta):
    require(tuple(b.scan_shape) == tuple(scan), f'shape:{name}',
            f'scan {b.scan_shape} instead of {scan}')
    require(tuple(b.frame_shape) == tuple(frame), f'shape:{name}',
            f'frame {b.frame_shape} instead of {frame}')
    sparse.check_wellformed(name, b)
    got = sparse.lists(b.data)
    if got != lists:
        for i, (x, y) in enumerate(zip(got, lists)):
            if x != y:
                raise Violation(f'events:{name}', f'position {i}: {x} instead '
                                f'of {y}')
        raise Violation(f'events:{name}', f'{len(got)} positions instead of '
                        f'{len(lists)}')
    require(same_value(b.metadata, meta), f'metadata:{name}',
            f'{b.metadata} instead of {meta}')


def run(case, ctx):
    from stempy.io import (SparseArray, load_electron_counts,
                           save_electron_counts)
    p = case['p']
    if p.get('large'):
        ctx.tag('large-' + p['large'])
    data = sparse.build(p)
    if case['one']:
        rng = np.random.default_rng(p['dseed'])
        for row in data:
            for k in range(len(row)):
                row[k] = rng.integers(0, int(np.prod(p['frame'])), 1).astype(
                    p['dtype'])
    scan, frame = list(p['scan']), list(p['frame'])
    a = SparseArray(data, scan, frame, metadata=case['meta'])
    if case['bin'] and scan[0] % 2 == 0 and scan[1] % 2 == 0:
        a = a.bin_scans(2)
        a.metadata = case['meta']
        scan = list(a.scan_shape)
        ctx.tag('binned-saved')
    lists = sparse.lists(a.data)
    lens = {len(x) for row in lists for x in row}
    ctx.tag(*[t for t, c in dict([
        ('multi-frame', p['fps'] > 1), ('empty-frame', 0 in lens),
        ('equal-length', len(lens) == 1 and lens != {0}),
        ('length-one', lens == {1}), ('all-empty', lens == {0}),
        ('nonsquare-scan', scan[0] != scan[1]),
        ('nonsquare-frame', frame[0] != frame[1]),
        ('nested-metadata', any(isinstance(v, dict) and v
                                for v in case['meta'].values()))]).items()
        if c])
    d = ctx.tmpdir()
    path = os.path.join(d, 'a.h5')
    call('save_electron_counts', save_electron_counts, path, a)
    require(sparse.lists(a.data) == lists, 'purity:save')
    b = call('load_electron_counts', load_electron_counts, path)
    compare('load', b, lists, scan, frame, case['meta'])
    require(b.dtype == a.dtype, 'dtype')
    # saving what was loaded
    path2 = os.path.join(d, 'b.h5')
    call('save_electron_counts', save_electron_counts, path2, b)
    c = call('from_hdf5', SparseArray.from_hdf5, path2)
    compare('resaved', c, lists, scan, frame, case['meta'])
    ctx.tag('resaved')
    if scan[1] > 1:
        f = call('load_electron_counts(keep_flyback=False)',
                 load_electron_counts, path, keep_flyback=False)
        want = [x for i, x in enumerate(lists) if i % scan[1] != scan[1] - 1]
        compare('flyback', f, want, [scan[0], scan[1] - 1], frame,
                case['meta'])
        ctx.tag('flyback-cropped')
    ctx.count('event_lists', sum(len(r) for r in lists))
    if any(x for row in lists for x in row):
        ctx.nontrivial(case)
