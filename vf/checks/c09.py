"""C09: STEM images agree across all sparse representations."""
import collections
import warnings

import numpy as np

from vf import counting, files, sparse
from vf.api import call, equal, refused, require
from vf.checks.c08 import center_of

ID = 'C09'
PHASES = [dict(variant='plain', count=dict(quick=7200, thorough=120000))]
RULE = ('Random event lists (square and non-square frames and scans, one to '
        'five frames per position, empty frames, several integer types) and '
        'arrays returned by electron_count (in-memory readers, sector readers '
        'of both threaded backends), then histories of slicing, binning '
        '(copies and in place), reshaping and copying. After every step the '
        'images of the array, of an equal plain SparseArray, of the array of '
        'event lists and of the legacy tuple are compared with the number of '
        'events in each ring, which numpy counts. Non-trivial: an image that '
        'is not zero.')
REQUIRED = ['random', 'counted-classic', 'counted-threaded', 'multi-frame',
            'non-square-frame', 'non-square-scan', 'after:bin_frames-inplace',
            'after:bin_scans-inplace', 'after:reshape', 'after:slice',
            'after:bin_frames', 'after:bin_scans', 'after:shape',
            'after:frame-slice', 'tuple', 'tuple-1d', 'ndarray', 'ndarray-1d',
            'center-default', 'center-outside', 'empty-frames', 'large',
            'large-full', 'large-huge',
            'dtype:int64', 'refused', 'event-views']
ASSUMPTIONS = ['Arrays with two scan dimensions.']

Legacy = collections.namedtuple('ElectronCountedData',
                                ['data', 'scan_dimensions',
                                 'frame_dimensions'])


def gen(rng, i, tier, phase):
    kind = str(rng.choice(['random', 'counted-classic', 'counted-threaded'],
                          p=[.6, .38, .02]))
    case = dict(kind=kind)
    if kind == 'random':
        case['p'] = sparse.gen_params(
            rng, (2,), frame=sparse.rand_shape(rng, 1, 24),
            scan=[int(x) for x in rng.choice([1, 2, 3, 4, 5, 6, 8], 2)])
        if rng.random() < .02:
            case['p'].update([dict(frame=[300, 230]), dict(frame=[2, 40000]),
                              dict(frame=[40000, 2]), dict(scan=[17, 16]),
                              dict(scan=[300, 2]), dict(fps=300)][
                int(rng.integers(6))], mode='sparse', large='large')
            if rng.random() < .25:
                # more than 65537 events in one frame
                case['p'].update(frame=[300, 230], scan=[1, 2], fps=1,
                                 mode='dense', large='full')
            elif rng.random() < .1:
                # more than 65536 positions
                case['p'].update(frame=[3, 2], scan=[260, 260], fps=1,
                                 mode='sparse', large='huge')
    elif kind == 'counted-classic':
        case['side'] = [int(x) for x in rng.choice([4, 6, 8, 9, 12, 20], 2)]
        case['scan'] = [int(x) for x in rng.choice([1, 2, 3, 4, 6], 2)]
    else:
        case['backend'] = str(rng.choice(['thread', 'multi-pass']))
        case['lay'] = files.gen_layout(rng, version=5, fpp=2, max_frames=5,
                                       unique=True)
        case['lay']['frames'][0][2] = [0, 1, 2, 3]
    case['steps'] = [[str(rng.choice(
        ['bin_frames', 'bin_scans', 'bin_frames-inplace', 'bin_scans-inplace',
         'reshape', 'shape', 'slice', 'frame-slice'])),
        int(rng.integers(1 << 31))] for _ in range(int(rng.integers(0, 4)))]
    case['seed'] = int(rng.integers(1 << 31))
    return case


def divisor(shape, r):
    opts = [k for k in range(2, 7) if all(s % k == 0 for s in shape)]
    return opts[r % len(opts)] if opts else None


def step(arr, name, r):
    """The derived array, or None if the step does not apply."""
    rng = np.random.default_rng(r)
    if name.startswith('bin_frames') or name.startswith('bin_scans'):
        op, _, inplace = name.partition('-')
        k = divisor(arr.frame_shape if op == 'bin_frames' else arr.scan_shape,
                    r)
        if k is None:
            return None
        return call(name, getattr(arr, op), k, in_place=bool(inplace))
    if name in ('reshape', 'shape'):
        a, b = arr.scan_shape
        n = a * b
        opts = [(d, n // d) for d in range(1, n + 1) if n % d == 0]
        new = opts[r % len(opts)] + tuple(arr.frame_shape)
        if name == 'reshape':
            # reshapes in place or not, depending on the version of the API
            out = call('reshape', arr.reshape, *new)
            return out
        arr.shape = new
        return arr
    if name == 'slice':
        sl = []
        for s in arr.scan_shape:
            a = int(rng.integers(0, s))
            sl.append(slice(a, int(rng.integers(a + 1, s + 1)),
                            int(rng.choice([1, 1, 2]))))
        return call('slice', arr.__getitem__, tuple(sl))
    sl = [slice(None), slice(None)]
    for s in arr.frame_shape:
        a = int(rng.integers(0, s))
        sl.append(slice(a, int(rng.integers(a + 1, s + 1))))
    arr.sparse_slicing = True
    return call('frame-slice', arr.__getitem__, tuple(sl))


def first(case, ctx):
    from stempy import io
    from stempy.image import electron_count
    if case['kind'] == 'random':
        p = case['p']
        if p['dtype'] == 'int64':
            ctx.tag('dtype:int64')
        data = sparse.build(p)
        if case['seed'] % 5 == 0 and data.size < 5000:
            data = sparse.layouts(np.random.default_rng(case['seed']), data)
            ctx.tag('event-views')
        return io.SparseArray(data, tuple(p['scan']), tuple(p['frame']))
    rng = np.random.default_rng(case['seed'])
    if case['kind'] == 'counted-classic':
        h, w = case['scan']
        side = case['side']
        frames = rng.poisson(9, (h * w, *side)) + \
            (rng.random((h * w, *side)) < .1) * 40
        reader = io.PyReader(frames.astype(np.uint16), np.arange(h * w),
                             (w, h), 4, h * w)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return electron_count(reader, np.zeros(side, np.float32), 40, 2,
                                  30)
    lay = case['lay']
    pix = counting.noise(counting.gen_noise(rng), len(lay['frames']))
    fs = files.write(lay, ctx.tmpdir(), pix)
    reader = io.reader(fs.paths, 5, backend=case['backend'])
    try:
        return electron_count(reader, np.zeros((576, 576), np.float32), 2, 3,
                              20)
    finally:
        files.cleanup(fs)


_constant = []


def constant():
    """What one event adds to a pixel: any fixed positive number will do."""
    if not _constant:
        from stempy.image import create_stem_images
        one = np.empty((1, 1), object)
        one[0, 0] = np.array([4], np.uint32)
        img = call('create_stem_images', create_stem_images, one, [0], [3],
                   frame_dimensions=(3, 3), scan_dimensions=(1, 1))
        require(img.shape == (1, 1, 1) and img[0, 0, 0] > 0, 'one-event', img)
        _constant.append(int(img[0, 0, 0]))
    return _constant[0]


def compare(arr, ctx, rng, after):
    from stempy import io
    from stempy.image import create_stem_images
    scan, frame = tuple(arr.scan_shape), tuple(arr.frame_shape)
    require(len(scan) == 2, 'scan-dimensions', scan)
    r = max(frame)
    k = int(rng.integers(1, 4))
    inner = [int(x) for x in rng.integers(0, max(2, r // 2), k)]
    outer = [a + int(x) for a, x in zip(inner, rng.integers(0, r + 2, k))]
    if rng.random() < .4:
        inner[0], outer[0] = 0, 4 * r
    c = str(rng.choice(['default', 'inside', 'outside', 'half']))
    center = {'default': (-1, -1),
              'inside': (int(rng.integers(frame[1])),
                         int(rng.integers(frame[0]))),
              'outside': (int(rng.integers(2 * frame[1] + 2)),
                          int(rng.integers(2 * frame[0] + 2))),
              'half': (int(rng.integers(frame[1])), -1)}[c]
    counts = sparse.dense(arr.data, scan, frame)
    cx, cy = center_of(center, frame)
    y, x = np.mgrid[:frame[0], :frame[1]]
    d2 = (x - cx) ** 2 + (y - cy) ** 2
    want = np.stack([counts[:, :, (d2 >= a * a) & (d2 < b * b)].sum(-1)
                     for a, b in zip(inner, outer)])
    dims = dict(frame_dimensions=frame[::-1], scan_dimensions=scan[::-1])
    plain = np.empty(arr.data.shape, dtype=object)
    for i in np.ndindex(plain.shape):
        plain[i] = np.array(arr.data[i])
    kw = dict(center=center)
    if c == 'default' and rng.random() < .5:
        kw = {}
    inputs = [('array', arr, {}),
              ('SparseArray', io.SparseArray(plain, scan, frame), {}),
              ('ndarray', plain, dims),
              ('tuple', Legacy(plain, scan[::-1], frame[::-1]), {})]
    if plain.shape[1] == 1:
        inputs.append(('ndarray-1d', plain[:, 0], dims))
        inputs.append(('tuple-1d', Legacy(plain[:, 0], scan[::-1],
                                          frame[::-1]), {}))
    for name, obj, extra in inputs:
        img = call(f'create_stem_images-{name}', create_stem_images, obj,
                   inner, outer, **kw, **extra)
        ctx.tag(name)
        # one fixed constant
        equal(f'images-{name}', img.astype(np.int64), want * constant(),
              f'({after or "at first"}, scan {scan}, frame {frame})')
    ctx.count('images', len(inner) * len(inputs))
    ctx.tag('center-' + c)
    if arr.data.shape[1] > 1:
        ctx.tag('multi-frame')
    if frame[0] != frame[1]:
        ctx.tag('non-square-frame')
    if scan[0] != scan[1]:
        ctx.tag('non-square-scan')
    if any(len(e) == 0 for e in arr.data.ravel()):
        ctx.tag('empty-frames')
    if rng.random() < .05:
        bad = plain.copy()
        bad[0, 0] = np.array([frame[0] * frame[1]], np.uint32)
        refused('outside-frame', create_stem_images, bad, inner, outer, **dims)
        ctx.tag('refused')
    return want.any()


def run(case, ctx):
    arr = first(case, ctx)
    rng = np.random.default_rng(case['seed'] + 1)
    ctx.tag(case['kind'])
    if case.get('p', {}).get('large'):
        ctx.tag('large')
        ctx.tag('large-' + case['p']['large'])
    if compare(arr, ctx, rng, None):
        ctx.nontrivial(case['seed'])
    hist = []
    for name, r in case['steps']:
        if name in ('slice', 'frame-slice') and hasattr(arr, 'sparse_slicing'):
            arr.sparse_slicing = True
        new = step(arr, name, r)
        if new is None:
            continue
        hist.append(name)
        ctx.tag('after:' + name)
        compare(arr, ctx, rng, f'source of {hist}')
        if new is not arr and compare(new, ctx, rng, str(hist)):
            ctx.nontrivial(case['seed'], tuple(hist))
        arr = new
    ctx.count('steps', len(hist))
