"""C11: average and maximum diffraction patterns are exact."""
import numpy as np

from vf import sources
from vf.api import call, close, refused, require
from vf.checks.c08 import content

ID = 'C11'
PHASES = [dict(variant='plain', count=dict(quick=7500, thorough=200000))]
RULE = ('calculate_average and maximum_diffraction_pattern (without dark '
        'reference, with the average, with an array derived from it, with an '
        'arbitrary array) over array, HDF5, stream and sector readers with '
        'random frames of 1 to 40 pixels a side or 576x576, all block sizes, '
        'repeated and reordered positions; compared with exact integer sums '
        'and maxima, also after the frames were permuted. Non-trivial: more '
        'than one distinct frame.')
REQUIRED = ['array', 'hdf5', 'stream1', 'stream3', 'sector', 'dark:none',
            'dark:average', 'dark:derived', 'dark:array', 'non-square',
            'one-frame', 'many-frames', 'permuted', 'refused',
            'large-scan', 'large-many', 'large-wide', 'large-crowd']
ASSUMPTIONS = ['At least one frame; the dark reference has the dimensions of '
               'the frames.']


def gen(rng, i, tier, phase):
    src = sources.gen(rng, max_side=41, min_side=1, big=4, duplicates=.3,
                      absent=.5, large=.02, crowd=True)
    return dict(src=src, dark=str(rng.choice(['none', 'average', 'derived',
                                              'array'])),
                content=str(rng.choice(['random', 'max', 'sparse', 'small'])),
                seed=int(rng.integers(1 << 31)))


def one(case, frames, ctx, dark):
    from stempy.image import calculate_average, maximum_diffraction_pattern
    s = sources.open_source(case['src'], frames, ctx.tmpdir())
    try:
        avg = call('calculate_average', calculate_average, s.reader)
        s.reader.reset()
        if dark is None:
            mx = call('maximum_diffraction_pattern',
                      maximum_diffraction_pattern, s.reader)
            used = 0
        else:
            d = dark(avg)
            mx = call('maximum_diffraction_pattern-dark',
                      maximum_diffraction_pattern, s.reader, d)
            used = np.asarray(d, np.float64)
            if case['seed'] % 4 == 0:
                s.reader.reset()
                refused('dark-dimensions', maximum_diffraction_pattern,
                        s.reader, np.zeros((used.shape[0] + 1,
                                            used.shape[1])))
                ctx.tag('refused')
    finally:
        s.reader = None
        s.close()
    return avg, mx, used


def run(case, ctx):
    src = case['src']
    side = tuple(src['side'])
    n = len(src['pos'])
    frames = content(case, n, side)
    rng = np.random.default_rng(case['seed'] + 1)
    arr = rng.uniform(0, 1000, side)
    dark = {'none': None, 'average': lambda a: a,
            'derived': lambda a: a * 2 + 1, 'array': lambda a: arr}[
                case['dark']]
    avg, mx, used = one(case, frames, ctx, dark)
    require(np.asarray(avg).dtype.kind == 'f', 'dtype')
    total = frames.sum(0, dtype=np.int64)
    want = total / n
    close('average', np.asarray(avg), want, rtol=1e-12)
    close('maximum', np.asarray(mx), frames.max(0).astype(float) - used,
          rtol=1e-14, atol=1e-9)
    if src['large']:
        ctx.tag('large-' + src['large'])
    ctx.tag(src['kind'], 'dark:' + case['dark'])
    if case['seed'] % 3 == 0 and n > 1:
        p = rng.permutation(n)
        a2, m2, _ = one(case, frames[p], ctx, dark)
        close('average-permuted', np.asarray(a2), np.asarray(avg), rtol=1e-12)
        close('maximum-permuted', np.asarray(m2), np.asarray(mx), rtol=1e-12,
              atol=1e-9)
        ctx.tag('permuted')
    ctx.count('frames', n)
    if side[0] != side[1]:
        ctx.tag('non-square')
    ctx.tag('one-frame' if n == 1 else 'many-frames')
    if (frames != frames[:1]).any():
        ctx.nontrivial(case)
