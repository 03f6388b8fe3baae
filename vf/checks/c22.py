"""C22: sparse imaging helpers against their dense definitions."""
import math

import numpy as np

from vf import sparse
from vf.api import call, equal, refused, require

ID = 'C22'
PHASES = [dict(variant='none', count=dict(quick=24000, thorough=1000000))]
RULE = ('Random event arrays (non-square frames and scans, several frames per '
        'position, empty frames) go through radial_sum_sparse, '
        'virtual_darkfield, mask_real_space and calculate_sum_sparse with '
        'random centres, radii and masks; each result is compared with the '
        'same quantity computed from an independent dense model with exact '
        'integer distance tests. Non-trivial: the array has an event.')
REQUIRED = ['radial', 'radial-edge', 'vdf-one', 'vdf-many', 'vdf-1d-scan',
            'mask', 'mask-empty', 'sum', 'sum-repeated', 'nonsquare-frame', 'nonsquare-scan',
            'multi-frame', 'empty-frame', 'vdf-overlap', 'small-dtype',
            'large-frame', 'large-scan', 'large-frames', 'large-huge', 'large-huge-frames',
            'large-crowded', 'pixel-65536', 'ring-65536', 'vdf-65536']


def gen(rng, i, tier, phase):
    frame = None
    if rng.random() < 0.3:
        frame = [int(rng.integers(10, 40)), int(rng.integers(10, 40))]
    p = sparse.gen_params(rng, frame=frame, large=.015, 
                          huge=sparse.huge(i, 8000))
    if i % 8000 == 9:
        # more than 65536 events in a pixel, a ring and an aperture
        p.update(scan=[1, 1], frame=[[2, 3], [3, 2]][int(rng.integers(2))],
                 fps=95000, mode='dense', large='crowded')
    if rng.random() < 0.2 and p['frame'][0] * p['frame'][1] <= 30000:
        p['dtype'] = str(rng.choice(['uint16', 'int16']))
    h, w = p['frame']
    n = int(rng.integers(1, 4))
    case = dict(p=p, center=[int(rng.integers(-1, h + 1)),
                             int(rng.integers(-1, w + 1))],
                cx=rng.integers(-1, w + 1, n).tolist(),
                cy=rng.integers(-1, h + 1, n).tolist(),
                # squared radii are compared exactly: halves are exact too
                r=[float(x) for x in rng.choice([0.5, 1, 1.5, 2, 3, 5, 8, 60],
                                                n)],
                scalar=bool(rng.random() < 0.5),
                frac=float(rng.choice([0, 0.3, 0.7, 1])),
                mseed=int(rng.integers(1 << 30)))
    if p.get('large') == 'crowded':
        case.update(center=[1, 1], cx=[1], cy=[1], r=[2.], scalar=True,
                    frac=1.)
        case['mseed'] |= 1
    return case


def run(case, ctx):
    from stempy.image import (calculate_sum_sparse, mask_real_space,
                              radial_sum_sparse, virtual_darkfield)
    from stempy.io import SparseArray
    p = case['p']
    h, w = p['frame']
    data = sparse.build(p)
    a = SparseArray(data, p['scan'], p['frame'])
    before = sparse.lists(data)
    if p.get('large'):
        ctx.tag('large-' + p['large'])
    model = sparse.dense(data, p['scan'], p['frame'])
    rows, cols = np.mgrid[0:h, 0:w]
    if h != w:
        ctx.tag('nonsquare-frame')
    if p['fps'] > 1:
        ctx.tag('multi-frame')
    if any(len(x) == 0 for row in data for x in row):
        ctx.tag('empty-frame')
    if p['dtype'] in ('uint16', 'int16'):
        ctx.tag('small-dtype')
    two = len(p['scan']) == 2
    if two and p['scan'][0] != p['scan'][1]:
        ctx.tag('nonsquare-scan')
    # radial sum
    if two:
        cy, cx = case['center']
        d2 = (rows - cy) ** 2 + (cols - cx) ** 2
        nb = max(h, w) // 2
        want = np.zeros(tuple(p['scan']) + (nb,), dtype=np.int64)
        ring = np.array([math.isqrt(int(x)) for x in d2.ravel()])
        ring[(d2 == nb * nb).ravel()] = nb - 1      # numpy's closed last bin
        flat = model.reshape(tuple(p['scan']) + (-1,))
        for y, x in np.ndindex(*p['scan']):
            if nb:
                want[y, x] = np.bincount(ring, flat[y, x], nb)[:nb]
        got = call('radial_sum_sparse', radial_sum_sparse, a, (cy, cx))
        equal('radial_sum_sparse', got, want, f'centre {(cy, cx)}')
        ctx.tag('radial')
        if want.size and want.max() > 65535:
            ctx.tag('ring-65536')
        if (model[..., d2 == nb * nb]).any():
            ctx.tag('radial-edge')
    # virtual dark field
    n = 1 if case['scalar'] else len(case['cx'])
    want = np.zeros(p['scan'], dtype=np.int64)
    hit = np.zeros((h, w), dtype=int)
    for k in range(n):
        d2 = (rows - case['cy'][k]) ** 2 + (cols - case['cx'][k]) ** 2
        inside = d2 < case['r'][k] ** 2
        hit += inside
        want = want + model[..., inside].sum(axis=-1)
    if (hit > 1).any() and n > 1:
        ctx.tag('vdf-overlap')
    if case['scalar']:
        args = (case['cx'][0], case['cy'][0], case['r'][0])
        ctx.tag('vdf-one')
    else:
        args = (tuple(case['cx']), list(case['cy']), tuple(case['r']))
        ctx.tag('vdf-many')
    if not two:
        ctx.tag('vdf-1d-scan')
    got = call('virtual_darkfield', virtual_darkfield, a, *args)
    equal('virtual_darkfield', got, want, f'apertures {args}')
    if want.max() > 65535:
        ctx.tag('vdf-65536')
    # mask
    if two:
        rng = np.random.default_rng(case['mseed'])
        m = rng.random(p['scan']) < case['frac']
        mask = m if rng.random() < 0.5 else m.astype(int)
        keep = mask.copy()
        got = call('mask_real_space', mask_real_space, a, mask)
        equal('mask_real_space', got, model[m].sum(axis=0), f'mask {m}')
        require(np.array_equal(mask, keep), 'purity:mask_real_space')
        ctx.tag('mask' if m.any() else 'mask-empty')
        if p['scan'][0] != p['scan'][1]:
            refused('mask_real_space', mask_real_space, a, mask.T)
    # sum of event lists, each of one frame or of all frames of a position
    lists = np.empty(len(data), dtype=object)
    for k in range(len(data)):
        lists[k] = np.concatenate(data[k]) if case['mseed'] % 2 else data[k, 0]
        if len(np.unique(lists[k])) < len(lists[k]):
            ctx.tag('sum-repeated')
    got = call('calculate_sum_sparse', calculate_sum_sparse, lists, (h, w))
    want = sparse.dense(lists[:, None], [len(data)], (h, w)).sum(axis=0)
    equal('calculate_sum_sparse', got, want)
    if want.max() > 65535:
        ctx.tag('pixel-65536')
    ctx.tag('sum')
    require(sparse.lists(a.data) == before, 'purity', 'the array was changed')
    if model.any():
        ctx.nontrivial(case)
