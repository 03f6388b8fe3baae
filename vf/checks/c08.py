"""C08: annular STEM image pixels are exact ring sums of the raw frames."""
import numpy as np

from vf import counting, perturb, sources
from vf.api import call, equal, refused, require

ID = 'C08'
PHASES = [dict(variant='plain', count=dict(quick=4500, thorough=60000)),
          dict(variant='plain', perturb=True,
               count=dict(quick=900, thorough=20000))]
RULE = ('create_stem_images over array, HDF5, stream (v1, v3) and sector '
        'readers, raw arrays and h5py files holding random frames (1 to 40 '
        'pixels a side, or 576x576; values up to 65535), random lists of '
        'radii (adjacent, overlapping, empty, huge), centres inside, outside, '
        'negative, scans with absent and reordered positions, every block '
        'size; compared bit by bit with ring sums in exact integers. A second '
        'phase repeats this under schedule perturbation. Mismatched radii and '
        'missing scan dimensions must be refused. Non-trivial: an image that '
        'is not zero.')
REQUIRED = ['array', 'hdf5', 'stream1', 'stream3', 'sector', 'ndarray',
            'h5file', 'center-default', 'center-half-default',
            'center-outside', 'center-inside', 'non-square', 'odd-side',
            'absent', 'reordered', 'many-rings', 'full-ring', 'multi-block',
            'union', 'refusals', 'perturbed', 'scalar-radii', 'large-sum',
            'large-scan', 'large-many', 'large-wide']
ASSUMPTIONS = ['Every scan position occurs once in the data.']


def gen(rng, i, tier, phase):
    src = sources.gen(rng, max_side=41, min_side=1, big=3, large=.02,
                      crowd=True)
    h, w = src['side']
    r = max(h, w)
    k = int(rng.choice([1, 1, 2, 3, 6]))
    style = str(rng.choice(['random', 'chain', 'full']))
    if style == 'chain':
        e = sorted(int(x) for x in rng.integers(0, r + 3, k + 1))
        inner, outer = e[:-1], e[1:]
        # ... and their union
        inner.append(e[0])
        outer.append(e[-1])
    elif style == 'full':
        inner, outer = [0] * k, [int(rng.choice([1000, 40000, 2000000]))] * k
    else:
        inner = [int(x) for x in rng.integers(0, r + 1, k)]
        outer = [int(a + x) for a, x in
                 zip(inner, rng.integers(-1, r + 1, k))]
        outer = [max(0, x) for x in outer]
    c = str(rng.choice(['default', 'inside', 'outside', 'half']))
    if c == 'default':
        center = [-1, -1]
    elif c == 'inside':
        center = [int(rng.integers(w)), int(rng.integers(h))]
    elif c == 'outside':
        center = [int(rng.integers(2 * w + 3)), int(rng.integers(2 * h + 3))]
    else:
        center = [int(rng.integers(w)), int(rng.integers(-5, 0))]
        if rng.random() < .5:
            center = [int(rng.integers(-5, 0)), int(rng.integers(h))]
    how = 'reader'
    if src['kind'] == 'array' and rng.random() < .5:
        how = 'ndarray'
        src['pos'] = list(range(len(src['pos'])))
    if src['kind'] == 'hdf5' and rng.random() < .5:
        how = 'h5file'
    return dict(src=src, style=style, inner=inner, outer=outer, c=c,
                center=center, how=how, dims=bool(rng.random() < .5),
                content=str(rng.choice(['random', 'max', 'sparse', 'small'])),
                seed=int(rng.integers(1 << 31)),
                perturb=perturb.gen(rng) if phase.get('perturb') else None)


def content(case, n, side):
    rng = np.random.default_rng(case['seed'])
    shape = (n, *side)
    c = case['content']
    if c == 'random':
        return rng.integers(0, 1 << 16, shape, dtype=np.uint16)
    if c == 'max':
        return np.full(shape, 65535, np.uint16)
    if c == 'small':
        return rng.integers(0, 4, shape, dtype=np.uint16)
    return (rng.integers(1, 1 << 16, shape) *
            (rng.random(shape) < .05)).astype(np.uint16)


def center_of(center, side):
    """Half the side rounded half away from zero when negative."""
    cx, cy = center
    if cx < 0:
        cx = (side[1] + 1) // 2
    if cy < 0:
        cy = (side[0] + 1) // 2
    return cx, cy


def run(case, ctx):
    from stempy.image import create_stem_images
    src = case['src']
    side = tuple(src['side'])
    n = len(src['pos'])
    frames = content(case, n, side)
    w, h = src['scan']
    s = sources.open_source(src, frames, ctx.tmpdir())
    inner, outer = case['inner'], case['outer']
    args = [inner, outer]
    if len(inner) == 1 and case['seed'] % 2:
        args = [inner[0], outer[0]]
        ctx.tag('scalar-radii')
    target = s.reader
    kw = dict(center=tuple(case['center']))
    if case['c'] == 'default' and case['seed'] % 3:
        del kw['center']
    if case['how'] == 'ndarray':
        target = frames
    if case['how'] == 'h5file':
        target = s.h5
    if case['dims'] or not s.header_scan or case['how'] == 'ndarray':
        kw['scan_dimensions'] = (w, h)
    try:
        with perturb.Perturb(case['perturb'], ctx):
            got = call('create_stem_images', create_stem_images, target,
                       *args, **kw)
        if case['seed'] % 5 == 0 and case['how'] == 'reader':
            s.reader.reset()
            again = call('create_stem_images-again', create_stem_images,
                         s.reader, *args, **kw)
            equal('second-time', again, got)
            s.reader.reset()
            refused('radii-lengths', create_stem_images, s.reader, inner,
                    outer + [3], **kw)
            s.reader.reset()
            refused('no-radii', create_stem_images, s.reader, [], [], **kw)
            if not s.header_scan:
                s.reader.reset()
                refused('no-scan', create_stem_images, s.reader, inner, outer)
            if max(src['pos']) > 0:
                s.reader.reset()
                refused('outside-scan', create_stem_images, s.reader, inner,
                        outer, scan_dimensions=(1, max(src['pos'])))
            ctx.tag('refusals')
    finally:
        target = s.reader = None
        s.close()
    cx, cy = center_of(case['center'], side)
    y, x = np.mgrid[:side[0], :side[1]]
    d2 = (x - cx) ** 2 + (y - cy) ** 2
    want = np.zeros((len(inner), h * w), np.uint64)
    for j, (a, b) in enumerate(zip(inner, outer)):
        m = (d2 >= a * a) & (d2 < b * b)
        want[j, src['pos']] = frames[:, m].sum(1, dtype=np.uint64)
    want = want.reshape(len(inner), h, w)
    require(got.dtype == np.uint64, 'dtype', got.dtype)
    equal('images', got, want)
    if case['style'] == 'chain':
        equal('union', got[:-1].sum(0), got[-1])
        ctx.tag('union')
    ctx.count('images', len(inner))
    ctx.count('frames', n)
    if src['large']:
        ctx.tag('large-' + src['large'])
    ctx.tag(src['kind'] if case['how'] == 'reader' else case['how'])
    ctx.tag({'default': 'center-default', 'half': 'center-half-default',
             'inside': 'center-inside', 'outside': 'center-outside'}[case['c']])
    if side[0] != side[1]:
        ctx.tag('non-square')
    if side[0] % 2 or side[1] % 2:
        ctx.tag('odd-side')
    if n < w * h:
        ctx.tag('absent')
    if src['pos'] != sorted(src['pos']):
        ctx.tag('reordered')
    if len(inner) > 2:
        ctx.tag('many-rings')
    if case['style'] == 'full':
        ctx.tag('full-ring')
    if src['kind'] == 'array' and src['block'] < n or \
            src['kind'] == 'stream1' and len(s.sizes) > 1:
        ctx.tag('multi-block')
    if want.max() >= 1 << 32:
        ctx.tag('large-sum')
    if want.any():
        ctx.nontrivial(case)
