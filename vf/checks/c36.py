"""C36: what a reader gives depends on its files alone, not on its past."""
import hashlib
import os
import warnings

import numpy as np

from vf import files, sources
from vf.api import Violation, call, require

ID = 'C36'
PHASES = [dict(variant='plain', timeout=150,
               count=dict(quick=4000, thorough=60000))]
RULE = ('Two or three readers of the same data (arrays, HDF5, streams, '
        'sectors, and the threaded and multi-pass sector readers) go through '
        'random interleaved histories: reading some blocks, iterating to the '
        'end or leaving the loop early, STEM images, radial sums, averages, '
        'maxima, histograms, thresholds, electron counting, frames of a '
        'position, data_captured, calls that are refused, resets, collecting '
        'garbage, dropping one reader and opening another. The outcome of '
        'every operation (blocks with header, arrays, or the exception) is '
        'compared with the outcome on a reader that was opened for it alone '
        'and only saw the operations since the last reset. Non-trivial: a '
        'history with a reset after a block was read.')
SEQ = ['read', 'iterate', 'leave', 'stem', 'radial', 'average', 'maximum',
       'histogram', 'count', 'count-auto', 'refused-stem', 'refused-count',
       'refused-radial', 'captured']
ACC = ['frames', 'all-frames', 'refused-frames', 'count', 'shape',
       'refused-count']
REQUIRED = SEQ + ACC + ['array', 'hdf5', 'stream1', 'stream3', 'sector',
                        'thread', 'multi-pass', 'reset', 'second-segment',
                        'same-again', 'interleaved', 'did:count',
                        'did:count-auto', 'did:multi-pass', 'did:thread', 'dropped', 'raised',
                        'partial-sectors']
ASSUMPTIONS = ['Files do not change while they are read.',
               'A threaded reader that has counted has consumed its files; '
               'only multi-pass readers count again.']


def gen(rng, i, tier, phase):
    acc = rng.random() < .16
    return dict(acc=acc, backend=str(rng.choice(['thread', 'multi-pass',
                                                 'multi-pass'])),
                kind=None if rng.random() < .6 else sources.KINDS[i % 5],
                seed=int(rng.integers(1 << 31)))


def digest(x):
    x = np.ascontiguousarray(x)
    return (x.shape, str(x.dtype), hashlib.sha1(x.tobytes()).hexdigest())


def block(b):
    h = b.header
    return ('block', tuple(int(x) for x in h.image_numbers),
            tuple(h.scan_dimensions), h.images_in_block,
            tuple(h.frame_dimensions), digest(b.data))


def outcome(f):
    try:
        return f()
    except Exception as e:
        return ('raised', type(e).__name__, str(e))


def do(r, op, arg, e):
    """The outcome of one operation."""
    from stempy import image
    scan, dark, gain = e['scan'], e['dark'], e['gain']
    if op == 'read':
        out = []
        for _ in range(arg % 4 + 1):
            b = r.read()
            out.append(None if b is None else block(b))
            if b is None:
                break
        return out
    if op == 'iterate':
        return [block(b) for b in r]
    if op == 'leave':
        out = []
        for b in r:
            out.append(block(b))
            if len(out) > arg % 3:
                break
        return out
    if op == 'stem':
        return digest([np.asarray(x) for x in image.create_stem_images(
            r, [0, arg % 3], [4, 9], scan)])
    if op == 'refused-stem':
        return image.create_stem_images(r, [0, 1], [4], scan)
    if op == 'radial':
        return digest(image.radial_sum(r, scan_dimensions=scan))
    if op == 'refused-radial':
        # there is no such position in a scan of one
        return digest(image.radial_sum(r, scan_dimensions=(1, 1)))
    if op == 'average':
        return digest(image.calculate_average(r))
    if op == 'maximum':
        return digest(image.maximum_diffraction_pattern(
            r, dark if arg % 2 else None))
    if op == 'histogram':
        h = image.create_stem_histogram(5, r, [0, 2], [4, 9], scan)
        return repr([[np.asarray(y).tolist() for y in x] for x in h])
    if op in ('count', 'refused-count'):
        refuse = op == 'refused-count'
        if e['seq']:
            o = image._image.ElectronCountOptionsClassic()
            o.dark_reference = dark
            o.background_threshold = e['bg']
            o.x_ray_threshold = e['xray']
            # there is no such position in a scan of one
            o.scan_dimensions = (1, 1) if refuse else scan
            if gain is not None:
                o.gain = gain
            a = image._image.electron_count(r.begin(), r.end(), o)
            shape = tuple(a.scan_dimensions) + tuple(a.frame_dimensions)
        else:
            # robust: the thresholds are far from any pixel
            a = image.electron_count(
                r, dark, number_of_samples=2,
                # so many complete frames there are not
                threshold_num_blocks=1000 if refuse else 1,
                background_threshold_n_sigma=14, xray_threshold_n_sigma=1e5)
            shape = tuple(a.shape)
        # the order of the frames of a position depends on the schedule
        return shape, [sorted(np.sort(np.asarray(y)).tolist() for y in x)
                       for x in a.data]
    if op == 'count-auto':
        # thresholds from the first block, which the reader then goes back to;
        # the samples are random unless it has but one image
        fixed = e['single']
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                a = image.electron_count(r, dark, number_of_samples=3,
                                         scan_dimensions=scan, gain=gain)
        except RuntimeError:
            if not fixed:
                return 'random'
            raise
        return 'random' if not fixed else (
            tuple(a.shape), [[np.sort(np.asarray(y)).tolist() for y in x]
                             for x in a.data])
    if op == 'captured':
        f = getattr(r, 'data_captured', None)
        return np.asarray(f()).tolist() if f else None
    if op == 'frames':
        return digest(r.read_frames(e['pos'][arg % len(e['pos'])], 0).data)
    if op == 'all-frames':
        return [digest(b.data) for b in
                r.read_frames(e['pos'][arg % len(e['pos'])])]
    if op == 'refused-frames':
        return r.read_frames(e['pos'][0], 10 ** 6)
    if op == 'shape':
        return (tuple(r.scan_shape), r.num_frames_per_scan)
    raise AssertionError(op)


def open_seq(case, ctx, rng, d):
    from stempy import io
    import h5py
    kinds = [case['kind']] if case['kind'] else None
    src = sources.gen(rng, kinds, max_frames=14, min_side=6, max_side=20,
                      big=3)
    n, (wd, h) = len(src['pos']), src['side']
    if src['kind'] in sources.SQUARE:
        wd = h = 576
    raw = rng.poisson(6, (n, h, wd)).astype(np.uint16)
    hit = rng.random(raw.shape) < .02
    raw[hit] += rng.integers(20, 200, int(hit.sum())).astype(np.uint16)
    ctx.tag(src['kind'])
    scan = tuple(src['scan'])
    dark = rng.integers(0, 4, (h, wd)).astype(np.float32)
    e = dict(seq=True, scan=scan, dark=dark, gain=None, bg=15., xray=190.)
    if rng.random() < .3:
        e['gain'] = rng.choice([.5, 1, 2], (h, wd)).astype('f4')
    e['single'] = src['kind'] in ('sector', 'stream3') or \
        src['kind'] == 'array' and src['block'] == 1
    if src['kind'] == 'array':
        pos = np.array(src['pos'], np.uint32)
        return e, lambda: io.PyReader(raw, pos, scan, src['block'], n), []
    if src['kind'] == 'sector' and rng.random() < .5:
        lay = files.gen_layout(rng, missing=.15, max_frames=3)
        pix = rng.poisson(6, (len(lay['frames']), 576, 576)).astype('u2')
        fs = files.write(lay, d, pix)
        ctx.tag('partial-sectors')
        e['scan'] = tuple(lay['scan'])
        return e, lambda: io.reader(fs.paths, lay['version']), []
    s = sources.open_source(src, raw, d)
    s.reader = None
    if s.h5 is not None:
        s.h5.close()
        opened = []

        def opener():
            opened.append(h5py.File(s.paths[0], 'r'))
            return io.reader(opened[-1])
        return e, opener, opened
    k = src['kind']
    return e, lambda: io.reader(s.paths, 1 if k == 'stream1' else
                                3 if k == 'stream3' else src['version']), []


def open_acc(case, ctx, rng, d):
    from vf.checks.c04 import spots
    from stempy import io
    back = case['backend']
    v = 5 if back == 'multi-pass' else int(rng.choice([4, 5]))
    lay = files.gen_layout(rng, version=v, scan=[2, 2], max_frames=4, fpp=2,
                           unique=True, missing=float(rng.choice([0, .1])))
    lay['frames'][0][2] = [0, 1, 2, 3]
    fs = files.write(lay, d, spots(int(rng.integers(1 << 30)),
                                   len(lay['frames'])))
    ctx.tag(back)
    e = dict(seq=False, scan=tuple(lay['scan']), gain=None, bg=20.,
             dark=np.zeros((576, 576), 'f4'), xray=60000.,
             pos=[f[0] for f in lay['frames']])
    th = int(rng.choice([1, 2, 4]))
    return e, lambda: io.reader(fs.paths, v, backend=back, threads=th), []


def run(case, ctx):
    warnings.simplefilter('ignore')
    rng = np.random.default_rng(case['seed'])
    d = ctx.tmpdir()
    acc = case['acc']
    e, opener, handles = (open_acc if acc else open_seq)(case, ctx, rng, d)
    ops = ACC if acc else SEQ
    if acc and case['backend'] == 'thread':
        ops = ['count']
    readers = [[opener(), []] for _ in range(int(rng.choice([1, 2, 3])))]
    resets = 0
    last = None
    for step in range(int(rng.integers(2, 6 if acc else 9))):
        if len(readers) > 1 and rng.random() < .08:
            readers[int(rng.integers(len(readers)))] = [opener(), []]
            ctx.tag('dropped')
        who = int(rng.integers(len(readers)))
        r, past = readers[who]
        if last is not None and who != last and past:
            ctx.tag('interleaved')
        last = who
        again = past and acc
        if past and not acc and rng.random() < .75:
            call('reset', r.reset)
            ctx.tag('reset', 'second-segment')
            resets += any(o[0] not in ('captured', 'refused-stem')
                          for o in past)
            if past[-1][0] not in ('read', 'leave', 'captured') and \
                    rng.random() < .4:
                # the same operation once more
                op, arg = past[0]
                ctx.tag('same-again')
                again = True
            else:
                again = False
            past.clear()
        else:
            again = False
        if not again:
            op, arg = str(rng.choice(ops)), int(rng.integers(1000))
        if acc and case['backend'] == 'thread' and past:
            continue
        past.append((op, arg))
        got = outcome(lambda: do(r, op, arg, e))
        alone = opener()
        if acc:
            want = outcome(lambda: do(alone, op, arg, e))
            resets += len(past) > 1
        else:
            for o, a in past:
                want = outcome(lambda: do(alone, o, a, e))
        ctx.tag(op)
        ctx.count('operations')
        if isinstance(want, tuple) and want and want[0] == 'raised':
            ctx.tag('raised')
        elif op in ('count', 'count-auto'):
            ctx.tag(f'did:{case["backend"] if acc else op}')
            if op == 'count-auto' and want == 'random':
                # where the reader is now depends on the outcome
                call('reset', r.reset)
                past.clear()
        else:
            ctx.tag(f'did:{op}')
        if got != want:
            raise Violation(f'history:{op}', f'{op} gave {repr(got)[:400]} '
                            f'instead of {repr(want)[:400]} after {past}')
    del readers, r
    for x in handles:
        x.close()
    if resets:
        ctx.nontrivial(case['seed'])
