"""C20: binning against block sums of the dense model."""
import numpy as np

from vf import sparse
from vf.api import call, equal, refused, require

ID = 'C20'
PHASES = [dict(variant='none', timeout=300,
               count=dict(quick=4800, thorough=150000))]
RULE = ('Random event arrays (3-D and 4-D, square and non-square, 1-5 frames '
        'per position, empty to full frames) are binned by random sequences '
        'of scan/frame factors; after every step the dense form is compared '
        'with numpy block sums of an independent dense model, the source with '
        'a deep copy. Non-trivial: at least one event and one factor > 1.')
REQUIRED = ['op:scans', 'op:frames', 'inplace', 'copy', 'nonsquare-frame',
            'nonsquare-scan', 'duplicates-merged', 'empty-frame',
            'refused', 'commute', 'multi-frame', 'large-frame',
            'large-scan', 'large-huge', 'large-crowded',
            'flat-data']


def divisors(n):
    return [d for d in range(1, n + 1) if n % d == 0]


def gen(rng, i, tier, phase):
    bf = int(rng.choice([1, 2, 2, 3, 4]))
    bs = int(rng.choice([1, 2, 2, 3]))
    big = 3 if tier == 'quick' else 4
    frame = [bf * int(rng.integers(1, big + 1)) for _ in range(2)]
    scan = [bs * int(rng.integers(1, 3)) for _ in range(2)]
    large = None
    if rng.random() < .015:
        large = str(rng.choice(['frame', 'scan']))
        if large == 'frame':
            frame = [[300, 230], [2, 70000], [40000, 2], [300, 2],
                     [576, 576]][int(rng.integers(5))]
            scan = [min(2, x) for x in scan]
        else:
            scan = [[34, 16], [2, 150], [300, 2]][int(rng.integers(3))]
            frame = [min(3, x) for x in frame]
    p = sparse.gen_params(rng, frame=frame, scan=scan)
    if large:
        p['large'] = large
        if p['mode'] in ('dense', 'equal', 'mixed', 'onepos'):
            p['mode'] = 'sparse'
    if sparse.huge(i, 2400) == 'huge':
        p.update(scan=[260, 260], frame=[2, 4], fps=1, mode='sparse',
                 large='huge')
    ops = []
    for _ in range(int(rng.integers(1, 4))):
        ops.append([str(rng.choice(['scans', 'frames'])), int(rng.integers(64)),
                    bool(rng.random() < 0.4)])
    if p.get('large') == 'huge':
        ops = ops[:1]
    if i % 800 == 9:
        # more than 255 events in one pixel of the result
        p.update(frame=[[32, 64], [34, 17], [32, 32]][int(rng.integers(3))],
                 scan=[1, 2], mode='dense', fps=int(rng.integers(1, 3)),
                 large='crowded')
        ops = [['frames', 11, ops[0][2]]]
    return dict(p=p, ops=ops)


def block_sum(d, axes, f):
    shape = []
    for k, n in enumerate(d.shape):
        shape += [n // f, f] if k in axes else [n]
    d = d.reshape(shape)
    out, k = d, 0
    red = []
    pos = 0
    for k, n in enumerate(range(len(shape) - len(axes))):
        if n in axes:
            red.append(pos + 1)
            pos += 2
        else:
            pos += 1
    return out.sum(axis=tuple(red))


def snapshot(a):
    return (sparse.lists(a.data), tuple(a.scan_shape), tuple(a.frame_shape),
            [id(x) for row in a.data for x in row], id(a.data))


def run(case, ctx):
    from stempy.io import SparseArray
    p = case['p']
    data = sparse.build(p)
    if p.get('large'):
        ctx.tag('large-' + p['large'])
    model = sparse.dense(data, p['scan'], p['frame'])
    if p['frame'][0] != p['frame'][1]:
        ctx.tag('nonsquare-frame')
    if p['scan'][0] != p['scan'][1]:
        ctx.tag('nonsquare-scan')
    if p['fps'] > 1:
        ctx.tag('multi-frame')
    if any(len(x) == 0 for row in data for x in row):
        ctx.tag('empty-frame')
    a = SparseArray(sparse.flat(p, data, ctx), p['scan'], p['frame'])
    total = int(model.sum())
    for op, pick, in_place in case['ops']:
        axes = (0, 1) if op == 'scans' else (2, 3)
        shape = a.scan_shape if op == 'scans' else a.frame_shape
        fs = divisors(int(np.gcd(*shape)))
        f = fs[pick % len(fs)] if pick % 5 or len(fs) < 2 else fs[1]
        method = 'bin_scans' if op == 'scans' else 'bin_frames'
        # a factor that does not divide is refused and changes nothing
        bad = max(shape) + 1
        before = snapshot(a)
        refused(method, getattr(a, method), bad, exc=ValueError)
        ctx.tag('refused')
        src = a
        # (the default is not in place)
        kw = dict(in_place=in_place) if in_place or pick % 2 else {}
        res = call(method, getattr(a, method), f, **kw)
        ctx.tag('op:' + op, 'inplace' if in_place else 'copy')
        want = block_sum(model, axes, f)
        if op == 'frames' and (want > model.max(initial=0)).any():
            ctx.tag('duplicates-merged')
        sparse.check_wellformed(method, res)
        require(tuple(res.shape) == want.shape, f'shape:{method}',
                f'{res.shape} != {want.shape}')
        got = sparse.dense(res.data, res.scan_shape, res.frame_shape)
        equal(method, got, want, f'factor {f}')
        equal(method + '.to_dense', call('to_dense', res.to_dense), want)
        require(int(got.sum()) == total, f'conservation:{method}')
        if in_place:
            require(res is src, f'inplace:{method}', 'not the same object')
            # the arrays the caller passed in are not modified either
        else:
            require(res is not src and snapshot(src) == before,
                    f'purity:{method}', 'source changed without in_place')
            # writing to the result must not reach the source
            for row in res.data:
                for k in range(len(row)):
                    if len(row[k]) and f > 1 and op == 'frames':
                        row[k][...] = 0
            require(sparse.lists(src.data) == before[0],
                    f'aliasing:{method}', 'result shares memory with source')
            res = call(method, getattr(src, method), f)
        a, model = res, want
        ctx.count('steps')
        if total and f > 1:
            ctx.nontrivial(p, op, f, in_place)
    # commutation
    a = SparseArray(sparse.build(p), p['scan'], p['frame'])
    fs = divisors(int(np.gcd(*p['scan'])))
    ff = divisors(int(np.gcd(*p['frame'])))
    f, g = fs[-1 if len(fs) < 3 else 1], ff[-1 if len(ff) < 3 else 1]
    x = call('bin_scans', a.bin_scans, f).bin_frames(g)
    y = call('bin_frames', a.bin_frames, g).bin_scans(f)
    equal('commute', sparse.dense(x.data, x.scan_shape, x.frame_shape),
          sparse.dense(y.data, y.scan_shape, y.frame_shape))
    ctx.tag('commute')
