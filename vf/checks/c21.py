"""C21: centre of mass of sparse data against exact rational arithmetic."""
import math
from fractions import Fraction
import warnings

import numpy as np

from vf import sparse
from vf.api import call, close, equal, refused, require

ID = 'C21'
PHASES = [dict(variant='none', count=dict(quick=8000, thorough=300000))]
RULE = ('Random event arrays with 2-D scans (square and non-square frames, '
        'power-of-two and odd sides, several frames per position, empty '
        'positions) go through com_sparse versions 0 and 1 with random crop '
        'radius / initial centre / replace_nans, and com_dense; every value '
        'is compared with the mean computed in exact rational arithmetic. '
        'Non-trivial: at least one position with events.')
REQUIRED = ['version0', 'version1', 'nonsquare', 'crop', 'crop+init', 'nocrop',
            'nan-kept', 'nan-replaced', 'cropped-away', 'dense', 'pow2',
            'all-empty', 'multi-frame', 'crop-tuple', 'refused',
            'large-frame', 'large-scan', 'large-frames', 'large-huge', 'large-huge-frames',
            'on-the-radius']
ASSUMPTIONS = ['Events whose distance to the centre of mass is within 1e-3 of '
               'the crop radius may fall on either side (float32 centres are '
               'part of the accepted algorithm); cases with such events are '
               'excluded from the comparison, unless the centre is a multiple '
               'of 1/8, which makes every step exact: events exactly on the '
               'radius then belong to the region.']


def gen(rng, i, tier, phase):
    frame = None
    if rng.random() < 0.35:
        frame = [int(rng.choice([1, 2, 4, 8, 16])), int(rng.choice([2, 4, 8]))]
    elif rng.random() < 0.15:
        frame = [int(rng.integers(20, 70)), int(rng.integers(20, 70))]
    p = sparse.gen_params(rng, scan_dims=(2,), frame=frame, large=.02,
                          huge=sparse.huge(i, 4000))
    h, w = p['frame']
    crop = None
    if rng.random() < 0.65:
        crop = float(rng.choice([0, 1, 2, 3, 5, 1.5, 2.25, 40]))
        if crop == int(crop):
            crop = int(crop)
        if rng.random() < 0.15:
            crop = [crop, max(0, crop - 1)][::int(rng.choice([1, -1]))]
    init = None
    if rng.random() < 0.4:
        init = [int(rng.integers(-1, h + 1)), int(rng.integers(-1, w + 1))]
        if rng.random() < 0.3:
            init = [init[0] + 0.5, init[1] - 0.25]
    return dict(p=p, crop=crop, init=init, replace=bool(rng.random() < 0.5))


def reference(data, frame, crop, init):
    """Per position (col, row) as Fractions or None; ambiguous flag."""
    out, amb, away, on = [], False, 0, 0
    if isinstance(crop, (list, tuple)):
        crop = max(crop)
    for row in data:
        ev = [divmod(int(e), frame[1]) for fr in row for e in fr]
        if not ev:
            out.append(None)
            continue
        n = len(ev)
        cr = Fraction(sum(r for r, _ in ev), n)
        cc = Fraction(sum(c for _, c in ev), n)
        exact = False
        if init is not None:
            cr, cc = Fraction(init[0]), Fraction(init[1])
            exact = True
        if crop is not None:
            keep = []
            lim = Fraction(crop)
            for r, c in ev:
                d2 = (r - cr) ** 2 + (c - cc) ** 2
                d = math.sqrt(d2)
                if not exact and abs(d - crop) < 1e-3:
                    if max(cr.denominator, cc.denominator) > 8 or \
                            (8 % cr.denominator or 8 % cc.denominator):
                        amb = True
                    elif d2 == lim * lim:
                        on += 1
                if d2 <= lim * lim:
                    keep.append((r, c))
            if not keep:
                away += 1
                out.append(None)
                continue
            ev = keep
            n = len(ev)
            cr = Fraction(sum(r for r, _ in ev), n)
            cc = Fraction(sum(c for _, c in ev), n)
        else:
            cr = Fraction(sum(r for r, _ in ev), n)
            cc = Fraction(sum(c for _, c in ev), n)
        out.append((cc, cr))
    return out, amb, away, on


def run(case, ctx):
    from stempy.image import com_dense, com_sparse
    from stempy.io import SparseArray
    warnings.simplefilter('ignore')
    p, crop, init = case['p'], case['crop'], case['init']
    if isinstance(crop, list):
        crop = tuple(crop)
        ctx.tag('crop-tuple')
    data = sparse.build(p)
    if p.get('large'):
        ctx.tag('large-' + p['large'])
    a = SparseArray(data, p['scan'], p['frame'])
    before = sparse.lists(data)
    ref, amb, away, on = reference(data, p['frame'], crop, init)
    full = reference(data, p['frame'], None, None)[0]
    if p['frame'][0] != p['frame'][1]:
        ctx.tag('nonsquare')
    if p['frame'][1] & (p['frame'][1] - 1) == 0:
        ctx.tag('pow2')
    if p['fps'] > 1:
        ctx.tag('multi-frame')
    ctx.tag('nocrop' if crop is None else 'crop' if init is None
            else 'crop+init')
    if on and not amb:
        ctx.tag('on-the-radius')
    if away:
        ctx.tag('cropped-away')
    if all(x is None for x in full):
        ctx.tag('all-empty')
    want = np.full((2, len(ref)), np.nan)
    for k, v in enumerate(ref):
        if v is not None:
            want[:, k] = float(v[0]), float(v[1])
    good = ~np.isnan(want[0])
    if case['replace'] and good.any() and not good.all():
        for k in range(2):
            want[k, ~good] = want[k, good].mean()
        ctx.tag('nan-replaced')
    elif not good.all():
        ctx.tag('nan-kept')
    want = want.reshape((2,) + tuple(p['scan']))
    if not amb:
        for version in (0, 1):
            got = call(f'com_sparse.v{version}', com_sparse, a, crop_to=crop,
                       init_center=init, replace_nans=case['replace'],
                       version=version)
            close(f'com_sparse.v{version}', got, want, rtol=2e-6, atol=2e-5)
            ctx.tag(f'version{version}')
            ctx.count('positions', len(ref))
            if good.any():
                ctx.nontrivial(p, crop, init, case['replace'], version)
        if crop is None and not init:
            got = call('com_sparse.default', com_sparse, a,
                       replace_nans=case['replace'])
            close('com_sparse.default', got, want, rtol=2e-6, atol=2e-5)
    else:
        ctx.tag('ambiguous-crop')
    # dense frames
    fr = sparse.dense(data, [len(data)], p['frame'])
    has = fr.reshape(len(fr), -1).any(axis=1)
    if has.any():
        got = call('com_dense', com_dense, fr[has])
        w = np.array([[float(x) for x in v] for v in full if v is not None]).T
        close('com_dense', got, w, rtol=1e-12, atol=1e-12)
        ctx.tag('dense')
        k = int(np.argmax(has))
        got = call('com_dense', com_dense, fr[k])
        close('com_dense', got, w[:, :1], rtol=1e-12, atol=1e-12)
    require(sparse.lists(a.data) == before, 'purity:com_sparse',
            'the array was changed')
    refused('com_sparse', com_sparse, a, version=2)
    ctx.tag('refused')
