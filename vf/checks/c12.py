"""C12: STEM histograms count every pixel exactly once."""
import numpy as np

from vf import sources
from vf.api import call, equal, require
from vf.checks.c08 import center_of, content

ID = 'C12'
PHASES = [dict(variant='plain', count=dict(quick=16000, thorough=200000))]
RULE = ('create_stem_histogram over array, HDF5, stream and sector readers '
        'with 1 to 3000 bins and random radii; the images (computed '
        'independently) are random, constant, zero, two-valued, chains of '
        'integers hitting the edges, and huge sums. Edges must be the equally '
        'spaced ones from minimum to maximum, and the frequencies those of '
        'the half-open intervals between the returned edges, adding up to '
        'the number of pixels. Non-trivial: at least two bins are filled.')
REQUIRED = ['array', 'hdf5', 'stream1', 'sector', 'constant', 'zero',
            'edges-hit', 'one-bin', 'many-bins', 'more-bins-than-values',
            'several-images', 'inexact-width', 'huge', 'large-scan',
            'large-many', 'large-wide']
ASSUMPTIONS = ['The pixels of the image are below 2^53 (so are all sums of '
               'frames with fewer than 10^11 pixels).']


def gen(rng, i, tier, phase):
    src = sources.gen(rng, None if rng.random() < .1 else
                      ['array', 'stream1', 'array', 'hdf5'], max_side=9,
                      min_side=1, max_frames=49, absent=.2, large=.02)
    k = int(rng.choice([1, 1, 2, 3]))
    r = max(src['side'])
    inner = [int(x) for x in rng.integers(0, max(1, r // 2), k)]
    outer = [a + int(x) for a, x in zip(inner, rng.integers(0, r + 1, k))]
    style = str(rng.choice(['random', 'constant', 'two', 'chain', 'zero',
                            'huge', 'small'], p=[.3, .1, .1, .2, .05, .1,
                                                 .15]))
    if style in ('constant', 'chain', 'two', 'huge'):
        outer = [1000] * k
        inner = [0] * k
    return dict(src=src, style=style, inner=inner, outer=outer,
                bins=int(rng.choice([1, 2, 3, 7, 10, 49, 100,
                                     int(rng.integers(1, 300)), 3000],
                                    p=[.1, .1, .1, .1, .1, .1, .1, .25, .05])),
                dims=bool(rng.random() < .5), seed=int(rng.integers(1 << 31)))


def make(case):
    src = case['src']
    n, side = len(src['pos']), tuple(src['side'])
    rng = np.random.default_rng(case['seed'])
    s = case['style']
    if s in ('random', 'small'):
        return content(dict(content=s, seed=case['seed']), n, side)
    if s == 'zero':
        return np.zeros((n, *side), np.uint16)
    if s == 'huge':
        return rng.integers(60000, 65536, (n, *side)).astype(np.uint16)
    f = np.zeros((n, *side), np.uint16)
    y, x = rng.integers(side[0]), rng.integers(side[1])
    if s == 'constant':
        f[:, y, x] = rng.integers(1, 60000)
    elif s == 'two':
        f[:, y, x] = rng.choice(rng.integers(0, 60000, 2), n)
    else:
        step = int(rng.choice([1, 1, 2, 3, 10, 100]))
        f[:, y, x] = rng.integers(0, 1000) + step * rng.permutation(n)
    return f


def run(case, ctx):
    from stempy.image import create_stem_histogram
    src = case['src']
    side = tuple(src['side'])
    frames = make(case)
    w, h = src['scan']
    s = sources.open_source(src, frames, ctx.tmpdir())
    kw = {}
    if case['dims'] or not s.header_scan:
        kw['scan_dimensions'] = (w, h)
    center = (-1, -1)
    if case['seed'] % 3 == 0:
        center = (case['seed'] % side[1], case['seed'] % side[0])
        kw['center'] = center
    nb = case['bins']
    try:
        bins, freqs = call('create_stem_histogram', create_stem_histogram, nb,
                           s.reader, case['inner'], case['outer'], **kw)
    finally:
        s.reader = None
        s.close()
    cx, cy = center_of(center, side)
    y, x = np.mgrid[:side[0], :side[1]]
    d2 = (x - cx) ** 2 + (y - cy) ** 2
    require(len(bins) == len(freqs) == len(case['inner']), 'length')
    for a, b, edges, freq in zip(case['inner'], case['outer'], bins, freqs):
        img = np.zeros(w * h, np.int64)
        img[src['pos']] = frames[:, (d2 >= a * a) & (d2 < b * b)].sum(
            1, dtype=np.int64)
        edges, freq = np.asarray(edges), np.asarray(freq)
        require(edges.shape == (nb + 1,) and freq.shape == (nb,), 'shape',
                (edges.shape, freq.shape))
        lo, hi = float(img.min()), float(img.max())
        require(edges[0] == lo and edges[-1] == hi, 'ends',
                (edges[0], edges[-1], lo, hi))
        require(np.all(np.diff(edges) >= 0), 'decreasing')
        want = lo + np.arange(nb + 1) * ((hi - lo) / nb)
        require(np.allclose(edges, want, rtol=1e-12,
                            atol=1e-12 * max(abs(hi), 1)), 'spacing',
                'edges are not equally spaced')
        require(int(freq.sum()) == w * h and freq.min() >= 0, 'total',
                f'{freq.sum()} of {w * h} pixels counted, {nb} bins')
        if lo == hi:
            require((freq > 0).sum() == 1, 'constant', freq)
            ctx.tag('constant' if lo else 'zero')
        else:
            j = np.searchsorted(edges, img.astype(float), side='right') - 1
            j = np.minimum(j, nb - 1)
            equal('frequencies', freq, np.bincount(j, minlength=nb))
            if np.isin(edges[1:-1], img).any():
                ctx.tag('edges-hit')
            if (hi - lo) / nb * nb + lo != hi or ((hi - lo) / nb) % 1:
                ctx.tag('inexact-width')
            if nb > hi - lo + 1:
                ctx.tag('more-bins-than-values')
            if (freq > 0).sum() > 1:
                ctx.nontrivial(case, a, b)
        if hi > 1 << 20:
            ctx.tag('huge')
        ctx.count('pixels', w * h)
    if src['large']:
        ctx.tag('large-' + src['large'])
    ctx.tag(src['kind'])
    if nb == 1:
        ctx.tag('one-bin')
    if nb >= 100:
        ctx.tag('many-bins')
    if len(bins) > 1:
        ctx.tag('several-images')
