"""C10: radial sums conserve intensity ring by ring."""
import numpy as np

from vf import perturb, sources
from vf.api import call, equal, refused, require
from vf.checks.c08 import center_of, content

ID = 'C10'
PHASES = [dict(variant='plain', count=dict(quick=2700, thorough=40000)),
          dict(variant='plain', perturb=True,
               count=dict(quick=900, thorough=20000))]
RULE = ('radial_sum over array, HDF5, stream and sector readers holding '
        'random frames (1 to 40 pixels a side, or 576x576), several of them '
        'at one position, absent and reordered positions, centres inside, '
        'outside and default, all block sizes; every ring of every position '
        'is compared with exact integer sums, the total over rings with the '
        'intensity of the frames. The second phase perturbs the schedule of '
        'the accumulating threads, with many frames at one position. '
        'Non-trivial: at least two rings are not zero.')
REQUIRED = ['array', 'hdf5', 'stream1', 'stream3', 'sector', 'duplicates',
            'center-default', 'center-half', 'center-outside', 'center-inside',
            'non-square', 'absent', 'reordered', 'multi-block', 'perturbed',
            'refusals', 'hot-position', 'large-scan', 'large-many',
            'large-wide']
ASSUMPTIONS = ['The sums of a ring fit into 64 bits.']


def gen(rng, i, tier, phase):
    hot = bool(rng.random() < (.5 if phase.get('perturb') else .05))
    src = sources.gen(rng, ['array', 'stream1'] if hot else None,
                      max_side=41, min_side=1, big=3, duplicates=.4,
                      large=.02)
    if hot:
        # all frames at one or two positions: contended counters
        n = int(rng.integers(10, 40))
        src['pos'] = [int(x) for x in rng.integers(0, min(
            2, src['scan'][0] * src['scan'][1]), n)]
        src['block'] = 1
        src['blocks'] = [1] * 64
    h, w = src['side']
    c = str(rng.choice(['default', 'inside', 'outside', 'half']))
    center = {'default': [-1, -1],
              'inside': [int(rng.integers(w)), int(rng.integers(h))],
              'outside': [int(rng.integers(2 * w + 3)),
                          int(rng.integers(2 * h + 3))],
              'half': [int(rng.integers(w)), -1]}[c]
    return dict(src=src, c=c, center=center, dims=bool(rng.random() < .5),
                hot=hot,
                content=str(rng.choice(['random', 'max', 'sparse', 'small'])),
                seed=int(rng.integers(1 << 31)),
                perturb=perturb.gen(rng) if phase.get('perturb') else None)


def run(case, ctx):
    from stempy.image import radial_sum
    src = case['src']
    side = tuple(src['side'])
    n = len(src['pos'])
    frames = content(case, n, side)
    w, h = src['scan']
    s = sources.open_source(src, frames, ctx.tmpdir())
    kw = dict(center=tuple(case['center']))
    if case['c'] == 'default' and case['seed'] % 3:
        del kw['center']
    if case['dims'] or not s.header_scan:
        kw['scan_dimensions'] = (w, h)
    try:
        with perturb.Perturb(case['perturb'], ctx):
            got = call('radial_sum', radial_sum, s.reader, **kw)
        if case['seed'] % 5 == 0:
            s.reader.reset()
            equal('second-time', call('radial_sum-again', radial_sum,
                                      s.reader, **kw), got)
            if not s.header_scan:
                s.reader.reset()
                refused('no-scan', radial_sum, s.reader)
            if max(src['pos']) > 0:
                s.reader.reset()
                refused('outside-scan', radial_sum, s.reader,
                        scan_dimensions=(1, max(src['pos'])))
            ctx.tag('refusals')
    finally:
        s.reader = None
        s.close()
    cx, cy = center_of(case['center'], side)
    y, x = np.mgrid[:side[0], :side[1]]
    d2 = (x - cx) ** 2 + (y - cy) ** 2
    # rounded up, exactly
    root = np.floor(np.sqrt(d2.astype(float))).astype(np.int64)
    root += (root + 1) ** 2 <= d2
    root -= root * root > d2
    ring = root + (root * root < d2)
    require(got.dtype == np.uint64, 'dtype', got.dtype)
    require(got.ndim == 3 and got.shape[1:] == (h, w), 'shape', got.shape)
    require(got.shape[0] > ring.max(), 'radii', (got.shape, int(ring.max())))
    want = np.zeros((got.shape[0], h * w), np.uint64)
    for p, f in zip(src['pos'], frames):
        want[:ring.max() + 1, p] += np.bincount(
            ring.ravel(), f.ravel().astype(float)).astype(np.uint64)
    want = want.reshape(got.shape)
    equal('rings', got, want, f'center {case["center"]}')
    total = np.zeros(h * w, np.uint64)
    np.add.at(total, src['pos'], frames.reshape(n, -1).sum(1, dtype=np.uint64))
    equal('intensity', got.sum(0, dtype=np.uint64), total.reshape(h, w))
    ctx.count('rings', got.shape[0])
    ctx.count('frames', n)
    ctx.count('atomic-additions', frames.size)
    if src['large']:
        ctx.tag('large-' + src['large'])
    ctx.tag(src['kind'], 'center-' + case['c'])
    if len(set(src['pos'])) < n:
        ctx.tag('duplicates')
    if case['hot']:
        ctx.tag('hot-position')
    if side[0] != side[1]:
        ctx.tag('non-square')
    if len(set(src['pos'])) < w * h:
        ctx.tag('absent')
    if src['pos'] != sorted(src['pos']):
        ctx.tag('reordered')
    if src['kind'] == 'array' and src['block'] < n or \
            src['kind'] == 'stream1' and len(s.sizes) > 1:
        ctx.tag('multi-block')
    if (want.reshape(want.shape[0], -1).any(1)).sum() > 1:
        ctx.nontrivial(case)
