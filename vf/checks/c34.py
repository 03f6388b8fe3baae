"""C34: no operation leaks memory, file descriptors or threads."""
import ctypes
import gc
import os
import threading
import time
import warnings

import numpy as np

from vf import counting, files, sources
from vf.api import Violation, call, require

ID = 'C34'
PHASES = [dict(variant='plain', timeout=200,
               count=dict(quick=420, thorough=20000))]
RULE = ('A random operation (every reader over every kind of data: complete, '
        'with missing sectors, truncated, nonsensical, missing files; reading '
        'it completely, partly or not at all, images, radial sums, averages, '
        'maxima, histograms, thresholds, counting with iterator and threaded '
        'readers, HDF5 output and input; with valid arguments or with ones '
        'that are refused) is repeated from opening to dropping everything. '
        'After warming up, the bytes in use by the C allocator (all arenas), '
        'open descriptors and threads are compared '
        'between batches of repetitions: a leak is growth in every batch. '
        'While a sector reader reads a long file set, the bytes in use are '
        'also bounded by the frames that are not complete. Non-trivial: an '
        'operation that allocated.')
READ = ['read-all', 'read-some', 'read-none', 'iterate', 'reset']
OPS = ['stem', 'radial', 'average', 'maximum', 'classic', 'thresholds',
       'histogram', 'stem-bad-radii', 'stem-bad-scan', 'radial-bad-scan',
       'classic-bad-scan', 'classic-bad-dark', 'thresholds-bad',
       'iterator-left', 'histogram-bad']
SPARSE = ['stem-sparse', 'stem-sparse-bad', 'stem-events', 'counts-file']
THREADED = ['thread', 'multi-pass', 'thread-fails', 'multi-pass-fails',
            'frames', 'frames-refused', 'thread-unused', 'shape']
OPEN = ['missing-file', 'not-a-stream', 'truncated', 'random-bytes',
        'bad-version', 'no-module-number']
CONVERT = ['to-hdf5', 'to-datacube', 'to-hdf5-fails']
REQUIRED = READ + OPS + SPARSE + THREADED + OPEN + CONVERT + [
    'array', 'hdf5', 'stream1', 'stream3', 'sector', 'raised', 'cache-bound',
    'cache-bound-thread', 'partial'] + ['did:' + x for x in (
        'average', 'classic', 'counts-file', 'frames', 'histogram', 'iterate',
        'iterator-left', 'maximum', 'multi-pass', 'radial', 'read-all',
        'read-some', 'reset', 'shape', 'stem', 'stem-events', 'stem-sparse',
        'thread', 'thresholds', 'to-hdf5')]
ASSUMPTIONS = ['glibc\'s count of bytes in use (mallinfo2) is right; small '
               'Python objects have an allocator of their own and are not '
               'counted.']


class MI(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in (
        'arena', 'ordblks', 'smblks', 'hblks', 'hblkhd', 'usmblks', 'fsmblks',
        'uordblks', 'fordblks', 'keepcost')]


libc = ctypes.CDLL(None)
libc.mallinfo2.restype = MI


def used():
    gc.collect()
    m = libc.mallinfo2()
    return m.uordblks + m.hblkhd


def descriptors():
    out = []
    for x in os.listdir('/proc/self/fd'):
        try:
            out.append(os.readlink('/proc/self/fd/' + x))
        except OSError:
            pass
    return sorted(out)


def threads():
    return len(os.listdir('/proc/self/task'))


def gen(rng, i, tier, phase):
    group = str(rng.choice(['read', 'op', 'sparse', 'threaded', 'open',
                            'convert', 'cache'],
                           p=[.2, .36, .1, .18, .09, .04, .03]))
    op = str(rng.choice(dict(read=READ, op=OPS, sparse=SPARSE,
                             threaded=THREADED, open=OPEN, convert=CONVERT,
                             cache=['cache-bound'])[group]))
    return dict(group=group, op=op, seed=int(rng.integers(1 << 31)))


def reopen(src, s, frames):
    from stempy import io
    k = src['kind']
    if k == 'array':
        return io.PyReader(frames, np.array(src['pos'], np.uint32),
                           tuple(src['scan']), src['block'], len(src['pos']))
    if k == 'hdf5':
        return io.reader(s.h5)
    v = 1 if k == 'stream1' else 3 if k == 'stream3' else src['version']
    return io.reader(s.paths, v)


def op_reader(case, ctx, rng, d):
    """The operation over an iterator reader."""
    from stempy import _image, image, io
    name = case['op']
    if case['group'] == 'read':
        src = sources.gen(rng, max_frames=14, max_side=24, big=3)
    else:
        src = sources.gen(rng, ['array', 'hdf5', 'stream1', 'sector',
                                'stream3'][:4 if name != 'stem' else 5],
                          max_frames=14, max_side=24, big=2)
    if 'bad-scan' in name:
        src['pos'] = list(range(src['scan'][0] * src['scan'][1]))[:14]
        if src['kind'] not in ('array', 'stream1'):
            src['kind'] = 'array'
            src['side'] = [12, 9]
        src['scan'] = [max(2, src['scan'][0]), max(2, src['scan'][1])]
        src['pos'] = [1, src['scan'][0] * src['scan'][1] - 1]
    n, (w, h) = len(src['pos']), src['side']
    fr = rng.poisson(60, (n, h, w)).astype(np.uint16)
    s = sources.open_source(src, fr, d)
    s.reader = None
    ctx.tag(src['kind'])
    scan = tuple(src['scan'])
    dark = np.zeros((h, w), np.float32)
    gain = np.ones((h, w), np.float32)

    def opener():
        return reopen(src, s, fr)

    if src['kind'] == 'sector' and rng.random() < .4:
        # one of the sectors is lost
        p = s.paths[int(rng.integers(len(s.paths)))]
        if os.path.getsize(p):
            with open(p, 'r+b') as f:
                f.truncate(os.path.getsize(p) - files.RECORD)
            ctx.tag('partial')

    def blocks(r, m):
        for _ in range(m):
            b = r.read()
            if b is None:
                return
            b.data.sum()

    def f():
        r = opener()
        if name == 'read-all':
            blocks(r, 1000)
        elif name == 'read-some':
            blocks(r, 1 + n // 3)
        elif name == 'read-none':
            pass
        elif name == 'iterate':
            for b in r:
                b.data.max()
        elif name == 'reset':
            for _ in range(3):
                blocks(r, 1 + n // 2)
                r.reset()
            blocks(r, 1000)
        elif name == 'stem':
            image.create_stem_images(r, [0, 2], [4, 9], scan)
        elif name == 'stem-bad-radii':
            image.create_stem_images(r, [0, 2], [4], scan)
        elif name == 'stem-bad-scan':
            image.create_stem_images(r, [0, 2, 3], [4, 9, 30], (1, 1))
        elif name == 'radial':
            image.radial_sum(r, scan_dimensions=scan)
        elif name == 'radial-bad-scan':
            image.radial_sum(r, scan_dimensions=(1, 1))
        elif name == 'average':
            image.calculate_average(r)
        elif name == 'maximum':
            image.maximum_diffraction_pattern(r, dark)
        elif name == 'classic':
            image.electron_count(r, dark, number_of_samples=3,
                                 scan_dimensions=scan, threshold_num_blocks=2,
                                 gain=gain if n % 2 else None)
        elif name == 'classic-bad-scan':
            o = _image.ElectronCountOptionsClassic()
            o.dark_reference = dark
            o.background_threshold = 60.
            o.scan_dimensions = (1, 1)
            _image.electron_count(r.begin(), r.end(), o)
        elif name == 'classic-bad-dark':
            image.electron_count(r, dark + 1. / 3, gain=np.full((h, w), 3.))
        elif name == 'thresholds':
            bs = [r.read()._block for _ in range(1)]
            _image.calculate_thresholds(bs, dark, 3, 4., 10.)
        elif name == 'thresholds-bad':
            bs = [r.read()._block for _ in range(1)]
            _image.calculate_thresholds(bs, dark, 0, 4., 10.)
        elif name == 'histogram':
            image.create_stem_histogram(10, r, [0, 2], [4, 9], scan)
        elif name == 'histogram-bad':
            image.create_stem_histogram(-3, r, [0, 2], [4, 9], scan)
        elif name == 'iterator-left':
            a, b = r.begin(), r.end()
            del r
            return a, b

    return f, s.close


def op_sparse(case, ctx, rng, d):
    from stempy import image, io
    name = case['op']
    data = np.empty((6, 2), object)
    for i in np.ndindex(data.shape):
        data[i] = np.flatnonzero(rng.random(30 * 40) < .02).astype(np.uint32)
    if name == 'stem-sparse-bad':
        data[3, 1] = np.array([30 * 40], np.uint32)
    sa = io.SparseArray(data, (2, 3), (30, 40))
    p = os.path.join(d, 'c.h5')

    def f():
        if name in ('stem-sparse', 'stem-sparse-bad'):
            image.create_stem_images(sa, [0, 2], [4, 9])
        elif name == 'stem-events':
            image.create_stem_images(data, [0, 2], [4, 9],
                                     scan_dimensions=(3, 2),
                                     frame_dimensions=(40, 30))
        else:
            if os.path.exists(p):
                os.unlink(p)
            io.save_electron_counts(p, sa)
            io.load_electron_counts(p)

    def close():
        if os.path.exists(p):
            os.unlink(p)
    return f, close


def op_threaded(case, ctx, rng, d):
    from vf.checks.c04 import spots
    from stempy import image, io
    name = case['op']
    back = 'thread' if name.startswith('thread') else 'multi-pass'
    lay = files.gen_layout(rng, version=5, scan=[2, 2], fpp=2, max_frames=5,
                           missing=.15 if rng.random() < .4 else 0,
                           unique=True)
    lay['empty'] = False
    lay['frames'][0][2] = [0, 1, 2, 3]
    pix = spots(int(rng.integers(1 << 30)), len(lay['frames']))
    if name.endswith('-fails') and rng.random() < .5:
        pix = np.zeros_like(pix)
    fs = files.write(lay, d, pix)
    th = int(rng.integers(1, 5))
    dark = np.zeros((576, 576), np.float32)
    bad = int(rng.choice([1, 200])) if pix.any() else 1
    if name.endswith('-fails') and pix.any():
        bad = 200

    def f():
        r = io.reader(fs.paths, 5, backend=back, threads=th)
        if name in ('thread', 'multi-pass'):
            image.electron_count(r, dark, number_of_samples=2,
                                 background_threshold_n_sigma=14,
                                 xray_threshold_n_sigma=100000,
                                 threshold_num_blocks=1)
        elif name.endswith('-fails'):
            image.electron_count(r, dark, number_of_samples=2,
                                 threshold_num_blocks=bad)
        elif name == 'frames':
            for p in range(4):
                try:
                    r.read_frames(p)
                except ValueError:
                    pass
        elif name == 'frames-refused':
            r.read_frames(0, 17)
        elif name == 'shape':
            r.scan_shape, r.num_frames_per_scan
    return f, lambda: files.cleanup(fs)


def op_open(case, ctx, rng, d):
    from stempy import image, io
    name = case['op']
    back = None
    v = int(rng.choice([1, 2, 3, 4, 5]))
    n = '00_module0_0.data' if v > 3 else 'x.dat'
    p = os.path.join(d, n)
    size = int(rng.choice([0, 1, 15, 16, 17, 3000, 4095, 4096, 4097, 200000]))
    raw = rng.bytes(size)
    if name == 'missing-file':
        p = os.path.join(d, 'nothing', n)
    elif name == 'not-a-stream':
        raw = b'hello' * 100
    elif name == 'truncated':
        fr = rng.integers(0, 1000, (3, 8, 8)).astype(np.uint16)
        v = 1
        raw = files.v1_block(fr, [0, 1, 2])
        raw = raw[:int(rng.integers(1, len(raw)))]
    elif name == 'bad-version':
        v = int(rng.choice([0, 6, 77]))
    elif name == 'no-module-number':
        v = int(rng.choice([4, 5]))
        p = os.path.join(d, rng.choice(['module.data', 'x.data',
                                        'module9.data']))
    if v == 5:
        back = [None, 'thread', 'multi-pass'][int(rng.integers(3))]
    if name != 'missing-file':
        with open(p, 'wb') as f:
            f.write(raw)
    # nonsensical headers may ask for a lot of memory
    lim = name in ('random-bytes',)

    def f():
        r = io.reader([p], v, backend=back) if back != 'multi-pass' or True \
            else None
        if back is None:
            for _ in range(6):
                if r.read() is None:
                    break
        elif back == 'thread':
            image.electron_count(r, np.zeros((576, 576), np.float32),
                                 number_of_samples=1, threshold_num_blocks=1)
        else:
            r.scan_shape
            r.read_frames(0)

    def close():
        if os.path.exists(p):
            os.unlink(p)
    if lim and (v in (2, 3) or v > 3):
        # (sizes of several GB are C24's business)
        with open(p, 'r+b') as f_:
            f_.truncate(min(size, 15))
    return f, close


def op_convert(case, ctx, rng, d):
    from stempy import io
    name = case['op']
    lay = files.gen_layout(rng, scan=[2, 2], max_frames=4, fpp=1)
    pix = rng.integers(0, 1000, (len(lay['frames']), 576, 576)).astype(
        np.uint16)
    fs = files.write(lay, d, pix)
    out = os.path.join(d, 'out.h5')
    bad = os.path.join(d, 'no', 'such', 'directory.h5')

    def f():
        if os.path.exists(out):
            os.unlink(out)
        r = io.reader(fs.paths, lay['version'])
        if name == 'to-hdf5':
            io.write_hdf5(out, r)
        elif name == 'to-datacube':
            io.write_hdf5(out, r, io.SectorReader.H5Format.DataCube)
        else:
            io.write_hdf5(bad, r)

    def close():
        files.cleanup(fs)
        if os.path.exists(out):
            os.unlink(out)
    return f, close


def cache_bound(ctx, rng, d):
    """A reader holds the frames that are not complete and no others."""
    from stempy import io
    n = int(rng.integers(14, 24))
    side = [n, 1] if rng.random() < .5 else [1, n]
    v = int(rng.choice([4, 5]))
    lay = dict(version=v, scan=side, frames=[[i, i, [0, 1, 2, 3]]
                                             for i in range(n)],
               nfiles=[1, 1, 1, 1], shuffle='ordered', empty=False,
               content='small', seed=int(rng.integers(1 << 30)))
    pix = np.zeros((n, 576, 576), np.uint16)
    fs = files.write(lay, d, pix)
    r = call('reader', io.reader, fs.paths, v)
    base, worst = used(), 0
    got = 0
    while True:
        b = r.read()
        if b is None:
            break
        got += 1
        del b
        worst = max(worst, used() - base)
    del r
    files.cleanup(fs)
    require(got == n, 'blocks', (got, n))
    frame = 576 * 576 * 2
    # The files are in the same order: at any time, few frames are incomplete
    require(worst < 6 * frame, 'cache-grows', f'{worst} bytes in use by the '
            f'reader of {n} frames of {frame} bytes')
    ctx.count('peak-frames', worst // frame + 1)
    ctx.tag('cache-bound')
    ctx.nontrivial(n, v)


def cache_bound_threaded(ctx, rng, d):
    """The same for the readers of several threads, while events are counted.
    """
    from stempy import io
    from stempy.image import electron_count
    n = int(rng.integers(60, 80))
    side = [n, 1] if rng.random() < .5 else [1, n]
    v = int(rng.choice([4, 5]))
    backend = 'multi-pass' if v == 5 and rng.random() < .3 else 'thread'
    # Sectors that come again after their frame was complete are ignored
    again = backend == 'thread' and rng.random() < .3
    k = int(rng.integers(1, 4))
    lay = dict(version=v, scan=side, frames=[[i, i, [0, 1, 2, 3]]
                                             for i in range(n)],
               nfiles=[1, 1, 1, 1], shuffle='ordered', empty=False,
               content='small', seed=int(rng.integers(1 << 30)))
    pix = np.zeros((n, 576, 576), np.uint16)
    pix[:, ::50, ::50] = 700
    fs = files.write(lay, d, pix)
    del pix
    if again:
        with open(fs.paths[0], 'ab') as f:
            with open(fs.paths[0], 'rb') as g:
                f.write(g.read(files.RECORD))
    r = call('reader', io.reader, fs.paths, v, backend=backend, threads=k)
    base, peak, stop = used(), [0, 0], threading.Event()

    def watch():
        while not stop.is_set():
            m = libc.mallinfo2()
            peak[0] = max(peak[0], m.uordblks + m.hblkhd - base)
            peak[1] += 1
            time.sleep(.002)
    t = threading.Thread(target=watch)
    t.start()
    try:
        got = electron_count(r, np.zeros((576, 576)), number_of_samples=2,
                             background_threshold_n_sigma=14,
                             xray_threshold_n_sigma=100000,
                             threshold_num_blocks=1)
        left = used() - base
    finally:
        stop.set()
        t.join()
    events = sum(len(x) for x in got.data[:, 0])
    del got, r
    files.cleanup(fs)
    require(events > n, 'events', events)
    frame = 576 * 576 * 2
    # The dark reference and the masks are a few frames as well
    require(left < 12 * frame, 'cache-kept', f'{left} bytes in use after '
            f'counting {n} frames of {frame} bytes ({backend})')
    # (One stream may be far ahead of another when a thread has to wait: then
    # there are many incomplete frames.)
    require(backend == 'thread' or peak[0] < 40 * frame, 'cache-grows', f'{peak[0]} bytes in use '
            f'while counting {n} frames of {frame} bytes ({backend})')
    ctx.count('samples-while-counting', peak[1])
    ctx.count('peak-frames', max(peak[0], left) // frame + 1)
    ctx.tag('cache-bound-' + backend)
    ctx.nontrivial(n, v, k, backend)


def run(case, ctx):
    warnings.simplefilter('ignore')
    rng = np.random.default_rng(case['seed'])
    d = ctx.tmpdir()
    if case['group'] == 'cache':
        if case['seed'] % 2:
            cache_bound_threaded(ctx, rng, d)
        else:
            cache_bound(ctx, rng, d)
        return
    make = dict(read=op_reader, op=op_reader, sparse=op_sparse,
                threaded=op_threaded, open=op_open, convert=op_convert)
    f, close = make[case['group']](case, ctx, rng, d)
    name = case['op']
    raised, done = [0], [0]

    def once():
        try:
            f()
            done[0] += 1
        except Exception:
            raised[0] += 1

    def batch(n):
        for _ in range(n):
            once()
        return used()

    def settle(want, what, get):
        """Threads end a moment after they are joined."""
        for _ in range(200):
            got = get()
            if got == want:
                return
            time.sleep(.01)
        raise Violation(f'leak:{what}:{name}', f'{got} after, {want} before '
                        f'{n} repetitions of {name}')

    try:
        start = used()
        once()
        peak = used() - start
        n = 4
        batch(3)
        fd, th = descriptors(), threads()
        batch(n)
        settle(th, 'threads', threads)
        settle(fd, 'descriptors', descriptors)
        last, grow = used(), []
        for k in range(30):
            now = batch(n)
            grow.append(now - last)
            last = now
            if grow[-1] < 16 * n:
                break
        require(k < 29 or min(grow) < 16 * n, f'leak:memory:{name}',
                f'{name}: every batch of {n} repetitions left bytes in use: '
                f'{grow}')
        settle(th, 'threads', threads)
        settle(fd, 'descriptors', descriptors)
    finally:
        close()
    ctx.tag(name)
    ctx.count('repetitions', 4 + n * (k + 2))
    ctx.count('batches', k + 1)
    if done[0]:
        ctx.tag(f'did:{name}')
    if raised[0]:
        ctx.tag('raised')
    ctx.count('raised', raised[0])
    if peak or True:
        ctx.nontrivial(case['seed'], name)
