"""C35: inputs are never modified."""
import hashlib
import os
import warnings

import numpy as np

from vf import counting, files, sources, sparse
from vf.api import Violation, call, require

ID = 'C35'
PHASES = [dict(variant='plain', timeout=150,
               count=dict(quick=2400, thorough=100000))]
RULE = ('Every public function is called with random valid arguments: arrays '
        '(raw frames, dark references, gains, event lists, masks, centre of '
        'mass fields, metadata) that are C-ordered, Fortran-ordered, views '
        'into larger arrays, byte-sized or of other types, writable or '
        'write-protected, and raw or HDF5 files; also twice with the same '
        'objects, and with a call that is refused. Before and after, the '
        'bytes of every array (of the array it is a view of as well), the '
        'objects inside object arrays, lists and dictionaries, and the '
        'contents, sizes and modification times of all files are compared, '
        'and so are the names in their directories. A write-protected input '
        'has to be accepted. Non-trivial: a call that had arrays or files to '
        'change.')
OPS = ['stem', 'stem-raw', 'radial', 'average', 'maximum', 'count-classic',
       'count-threaded', 'thresholds', 'histogram', 'read', 'stem-sparse',
       'stem-events', 'com', 'com-dense', 'filter', 'phase', 'sum-sparse',
       'radial-sparse', 'darkfield', 'mask', 'save-raw', 'save-counts',
       'load-counts', 'save-images', 'to-hdf5', 'slice', 'bin', 'reduce',
       'frames', 'dense']
REQUIRED = OPS + ['array', 'hdf5', 'stream1', 'stream3', 'sector',
                  'write-protected', 'view', 'fortran', 'float64-dark',
                  'again', 'refused', 'files', 'gain', 'fitted']
ASSUMPTIONS = ['filter_bad_sectors is documented to work on the array it is '
               'given or on a copy (either is accepted), operations called '
               'with in_place and the attributes set by reshape excepted.']


def gen(rng, i, tier, phase):
    return dict(op=OPS[i % len(OPS)] if rng.random() < .6 else
                str(rng.choice(OPS)), seed=int(rng.integers(1 << 31)),
                kind=sources.KINDS[i % 5] if rng.random() < .3 else None)


class Watch:
    """Fingerprints of everything that must stay as it is."""

    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        self.arrays, self.others, self.dirs = [], [], []

    def protect(self, a):
        if self.rng.random() < .5:
            a.setflags(write=False)
            self.ctx.tag('write-protected')
        return a

    def array(self, name, a, layout=None):
        """The array in some memory layout; keeps its bytes."""
        c = layout or str(self.rng.choice(['C', 'C', 'F', 'view']))
        a = np.asarray(a)
        if a.dtype == object:
            self.objects(name, a)
            return a
        if c == 'F':
            base = a = np.asfortranarray(a)
            self.ctx.tag('fortran')
        elif c == 'view' and a.ndim:
            base = np.zeros([2 * s + 3 for s in a.shape], a.dtype)
            base[...] = 77
            v = base[tuple(slice(1, 1 + 2 * s, 2) for s in a.shape)]
            v[...] = a
            a = v
            self.ctx.tag('view')
        else:
            base = a = np.array(a, order='C')
        a = self.protect(a)
        self.arrays.append([name, a, base, base.tobytes(), a.shape, a.strides,
                            a.dtype, a.flags.writeable])
        return a

    def objects(self, name, a):
        ids = [id(x) for x in a.ravel()]
        for x in a.ravel():
            if isinstance(x, np.ndarray):
                self.protect(x)
        self.others.append([name, a, ids, [np.array(x) for x in a.ravel()],
                            a.shape, [x.dtype for x in a.ravel()]])

    def value(self, name, o):
        self.others.append([name, o, None, repr(o), None, None])
        return o

    def directory(self, d):
        self.dirs.append([d, self.listing(d)])
        self.ctx.tag('files')

    @staticmethod
    def listing(d):
        out = {}
        for root, _, names in os.walk(d):
            for n in names:
                p = os.path.join(root, n)
                st = os.stat(p)
                with open(p, 'rb') as f:
                    out[p] = (hashlib.sha256(f.read()).hexdigest(),
                              st.st_size, st.st_mtime_ns, st.st_mode)
        return out

    def check(self, op):
        for name, a, base, was, shape, strides, dtype, wr in self.arrays:
            if base.tobytes() != was:
                now = np.frombuffer(base.tobytes(), np.uint8)
                k = int((now != np.frombuffer(was, np.uint8)).sum())
                raise Violation(f'modified:{op}:{name}', f'{op} changed {k} '
                                f'bytes of {name} ({dtype}, {shape})')
            require((a.shape, a.strides, a.dtype, a.flags.writeable) ==
                    (shape, strides, dtype, wr), f'modified:{op}:{name}',
                    'shape, type or flags')
            self.ctx.count('arrays')
        for name, o, ids, was, shape, dt in self.others:
            if ids is None:
                require(repr(o) == was, f'modified:{op}:{name}',
                        f'{o!r:.300} was {was:.300}')
                continue
            require(o.shape == shape and [id(x) for x in o.ravel()] == ids,
                    f'modified:{op}:{name}', 'other objects in the array')
            for x, w, t in zip(o.ravel(), was, dt):
                require(np.array_equal(x, w) and x.dtype == t,
                        f'modified:{op}:{name}', f'{x!r:.200} was {w!r:.200}')
            self.ctx.count('event-lists', len(ids))
        for d, was in self.dirs:
            now = self.listing(d)
            require(set(now) == set(was), f'files:{op}',
                    f'{sorted(set(now) ^ set(was))}')
            for p in now:
                require(now[p] == was[p], f'file-modified:{op}',
                        f'{os.path.basename(p)}: {now[p]} was {was[p]}')
            self.ctx.count('files', len(now))


def fit(ctx, f, *args, **kw):
    """The fit of the thresholds may fail: that must not change inputs
    either."""
    try:
        f(*args, **kw)
        ctx.tag('fitted')
    except RuntimeError:
        ctx.tag('not-fitted')


def reader_op(case, ctx, w, rng, d):
    from stempy import _image, image, io
    op = case['op']
    kinds = [case['kind']] if case['kind'] else None
    src = sources.gen(rng, kinds, max_frames=12, min_side=6, max_side=24,
                      big=2)
    n, (wd, h) = len(src['pos']), src['side']
    if src['kind'] in sources.SQUARE:
        wd = h = 576
    raw = rng.poisson(60, (n, h, wd)).astype(np.uint16)
    raw[rng.random(raw.shape) < .02] += 300
    ctx.tag(src['kind'])
    scan = tuple(src['scan'])
    if src['kind'] == 'array':
        fr = w.array('frames', raw.astype(rng.choice(['uint16', 'uint16',
                                                      'uint32', 'int32'])))
        pos = w.array('image numbers', np.array(src['pos'], np.uint32))

        def opener():
            return call('PyReader', io.PyReader, fr, pos, scan, src['block'],
                        n)
        s = None
    else:
        sub = os.path.join(d, 'in')
        os.mkdir(sub)
        s = sources.open_source(src, raw, sub)
        s.reader = None

        def opener():
            if s.h5 is not None:
                return io.reader(s.h5)
            k = src['kind']
            return io.reader(s.paths, 1 if k == 'stream1' else
                             3 if k == 'stream3' else src['version'])
        w.directory(sub)
    dark = rng.integers(0, 20, (h, wd)).astype(np.float32)
    if rng.random() < .3:
        dark = dark.astype(np.float64)
        ctx.tag('float64-dark')
    dark = w.array('dark reference', dark)
    gain = None
    if rng.random() < .5:
        gain = w.array('gain', rng.choice(
            [.5, 1, 2], (h, wd)).astype(rng.choice(['f4', 'f8'])))
        ctx.tag('gain')
    inner = w.value('inner radii', [0, 2])
    outer = w.value('outer radii', [4, 9])

    def f():
        r = opener()
        if op == 'read':
            for b in r:
                if rng.random() < .5:
                    b.data.sum()
        elif op == 'stem':
            call(op, image.create_stem_images, r, inner, outer, scan)
        elif op == 'radial':
            call(op, image.radial_sum, r, scan_dimensions=scan)
        elif op == 'average':
            call(op, image.calculate_average, r)
        elif op == 'maximum':
            call(op, image.maximum_diffraction_pattern, r, dark)
        elif op == 'histogram':
            call(op, image.create_stem_histogram, 7, r, inner, outer, scan)
        elif op == 'count-classic':
            fit(ctx, image.electron_count, r, dark, number_of_samples=5,
                threshold_num_blocks=1, scan_dimensions=scan, gain=gain,
                apply_row_dark=bool(rng.random() < .5),
                apply_row_dark_use_mean=bool(rng.random() < .5))
        elif op == 'thresholds':
            b = r.read()
            args = [dark] if rng.random() < .7 else []
            args += [3, 4., 10.]
            g = [np.power(gain, -1).astype('f4')] if gain is not None else []
            fit(ctx, _image.calculate_thresholds, [b._block], *args, *g)
        if rng.random() < .3:
            r = opener()
            try:
                if op == 'count-classic':
                    image.electron_count(r, dark, gain=gain,
                                         number_of_samples=0)
                else:
                    image.create_stem_images(r, inner, [1], scan)
            except Exception:
                ctx.tag('refused')
    return f, (s.close if s else None)


def threaded_op(case, ctx, w, rng, d):
    from vf.checks.c04 import spots
    from stempy import image, io
    op = case['op']
    back = str(rng.choice(['thread', 'multi-pass'])) \
        if op == 'count-threaded' else 'multi-pass'
    v = int(rng.choice([4, 5]))
    if op == 'frames' or back == 'multi-pass':
        v = 5
    if op == 'to-hdf5':
        back = None
    lay = files.gen_layout(rng, version=v, scan=[2, 2], max_frames=4,
                           fpp=1 if op == 'to-hdf5' else 2, unique=True)
    lay['empty'] = False
    pix = spots(int(rng.integers(1 << 30)), len(lay['frames']))
    sub = os.path.join(d, 'in')
    os.mkdir(sub)
    fs = files.write(lay, sub, pix)
    for p in fs.paths:
        if rng.random() < .3:
            os.chmod(p, 0o444)
    w.directory(sub)
    dark = w.array('dark reference', np.zeros((576, 576), 'f4'))
    gain = None
    if rng.random() < .4:
        gain = w.array('gain', np.ones((576, 576), 'f4'))
        ctx.tag('gain')
    paths = w.value('paths', list(fs.paths))
    out = os.path.join(d, 'out.h5')

    def f():
        r = call('reader', io.reader, paths, v, backend=back) if back else \
            call('reader', io.reader, paths, v)
        if op == 'frames':
            k = w.value('frames', [0]) if rng.random() < .5 else 0
            call(op, r.read_frames, lay['frames'][0][0], k)
            try:
                r.read_frames(0, 99)
            except Exception:
                ctx.tag('refused')
        elif op == 'to-hdf5':
            if os.path.exists(out):
                os.unlink(out)
            call(op, io.write_hdf5, out, r)
        else:
            call(op, image.electron_count, r, dark, number_of_samples=2,
                 background_threshold_n_sigma=14,
                 xray_threshold_n_sigma=100000, threshold_num_blocks=1,
                 gain=gain, apply_row_dark=bool(rng.random() < .3))
    return f, None


def array_op(case, ctx, w, rng, d):
    import h5py
    from stempy import image, io
    op = case['op']
    p = sparse.gen_params(rng, (2,), frame=sparse.rand_shape(rng, 3, 12),
                          scan=sparse.rand_shape(rng, 2, 4))
    data = sparse.build(p)
    scan, frame = tuple(p['scan']), tuple(p['frame'])
    n = scan[0] * scan[1]
    out = os.path.join(d, 'out.h5')

    def sa():
        w.objects('events', data)
        meta = w.value('metadata', {
            'a': 1, 'b': {'c': 2.5, 'd': {}, 'e': (3, 4)}, 'f': [1, 2],
            'g': np.arange(3), 'h': 'x'})
        return io.SparseArray(data, scan, frame, metadata=meta)

    def gone():
        if os.path.exists(out):
            os.unlink(out)

    if op == 'stem-raw':
        a = w.array('frames', rng.integers(0, 999, (n, *frame)).astype(
            rng.choice(['uint16', 'uint8', 'int64'])) % 250)
        ri, ro = w.value('inner', [0, 1]), w.value('outer', [3, 9])
        return lambda: call(op, image.create_stem_images, a, ri, ro,
                            scan_dimensions=scan[::-1]), None
    if op in ('stem-sparse', 'stem-events'):
        a = sa()
        ri, ro = w.value('inner', [0, 1]), w.value('outer', [3, 9])
        if op == 'stem-sparse':
            return lambda: call(op, image.create_stem_images, a, ri, ro), None
        return lambda: call(op, image.create_stem_images, data, ri, ro,
                            scan_dimensions=scan[::-1],
                            frame_dimensions=frame[::-1]), None
    if op == 'com':
        a = sa()
        kw = dict(version=int(rng.integers(2)))
        if rng.random() < .5:
            kw['crop_to'] = w.value('crop', [3, 2])
            if rng.random() < .5:
                kw['init_center'] = w.value('centre', [2, 2])
        return lambda: call(op, image.com_sparse, a, **kw), None
    if op == 'com-dense':
        a = w.array('frames', rng.integers(1, 99, (5, *frame)).astype(
            rng.choice(['uint16', 'float64', 'int32'])))
        return lambda: call(op, image.com_dense, a), None
    if op in ('phase', 'filter'):
        a = rng.normal(50, 3, (2, *frame))
        if op == 'phase':
            a = w.array('field', a.astype(rng.choice(['f4', 'f8'])))
            return lambda: call(op, image.phase_from_com, a,
                                theta=float(rng.normal()),
                                flip=bool(rng.random() < .5)), None
        cut = w.value('cut', [0, 100])
        return lambda: call(op, image.filter_bad_sectors, a.copy(), cut), None
    if op == 'sum-sparse':
        flat = np.empty(n, object)
        for i in range(n):
            flat[i] = data[i, 0]
        w.objects('events', flat)
        return lambda: call(op, image.calculate_sum_sparse, flat, frame), None
    if op == 'radial-sparse':
        a, c = sa(), w.value('centre', [2, 3])
        return lambda: call(op, image.radial_sum_sparse, a, c), None
    if op == 'darkfield':
        a = sa()
        x, y, r = (w.value('x', [1, 2]), w.value('y', [2, 1]),
                   w.value('radii', [1, 3]))
        return lambda: call(op, image.virtual_darkfield, a, x, y, r), None
    if op == 'mask':
        a = sa()
        m = w.array('mask', (rng.random(scan) < .5).astype(
            rng.choice(['bool', 'int64', 'uint8'])))
        return lambda: call(op, image.mask_real_space, a, m), None
    if op == 'save-raw':
        a = w.array('frames', rng.integers(0, 999, (n, *frame)).astype(
            'uint16'))
        pos = w.array('positions', rng.permutation(n)) \
            if rng.random() < .5 else None

        def f():
            gone()
            call(op, io.save_raw_data, out, a, scan_dimensions=scan[::-1],
                 scan_positions=pos, zip_data=bool(rng.random() < .3))
        return f, gone
    if op == 'save-images':
        a = w.array('images', rng.normal(0, 1, (2, *scan)))
        names = w.value('names', ['a', 'b'])

        def f():
            gone()
            call(op, io.save_stem_images, out, a, names)
            try:
                io.save_stem_images(out, a, names)
            except Exception:
                ctx.tag('refused')
        return f, gone
    if op == 'save-counts':
        a = sa()

        def f():
            gone()
            call(op, io.save_electron_counts, out, a)
        return f, gone
    if op == 'load-counts':
        sub = os.path.join(d, 'in')
        os.mkdir(sub)
        q = os.path.join(sub, 'c.h5')
        call('save', io.save_electron_counts, q,
             io.SparseArray(data, scan, frame))
        w.directory(sub)
        return lambda: call(op, io.load_electron_counts, q,
                            keep_flyback=bool(rng.random() < .5)), None
    a = sa()
    a.allow_full_expand = True
    if op == 'slice':
        idx = w.array('index', rng.integers(0, scan[0], 3), 'C')
        mk = w.array('mask', rng.random(scan) < .5)
        fm = w.array('frame mask', rng.random(frame) < .5)

        def f():
            a.sparse_slicing = bool(rng.random() < .5)
            for k in (idx, mk, (slice(None), slice(None), fm), (0, 0),
                      (slice(None), slice(1, None), slice(0, 2))):
                call(op, a.__getitem__, k)
            a.sparse_slicing = True
            # what a slice returns is independent of the original
            b = a[0:2]
            for x in b.data.ravel():
                if x.flags.writeable:
                    x[...] = 0
        return f, None
    if op == 'bin':
        def f():
            for m, shape in (('bin_scans', scan), ('bin_frames', frame)):
                g = int(np.gcd(*shape))
                b = call(m, getattr(a, m), g if rng.random() < .7 else 1)
                for x in b.data.ravel():
                    if x.flags.writeable and m == 'bin_frames':
                        x[...] = 0
        return f, None
    if op == 'reduce':
        def f():
            ax = [None, 'scan', 'frame', 0, (0, 2)][int(rng.integers(5))]
            for m in ('sum', 'max', 'min', 'mean'):
                call(m, getattr(a, m), ax)
        return f, None
    assert op == 'dense', op

    def f():
        x = call(op, a.to_dense)
        x[...] = 0
    return f, None


READER = ('stem', 'radial', 'average', 'maximum', 'count-classic',
          'thresholds', 'histogram', 'read')
THREADED = ('count-threaded', 'frames', 'to-hdf5')


def run(case, ctx):
    warnings.simplefilter('ignore')
    rng = np.random.default_rng(case['seed'])
    d = ctx.tmpdir()
    w = Watch(ctx, rng)
    op = case['op']
    make = reader_op if op in READER else threaded_op if op in THREADED \
        else array_op
    f, close = make(case, ctx, w, rng, d)
    try:
        f()
        w.check(op)
        if rng.random() < .4:
            f()
            w.check(op)
            ctx.tag('again')
    finally:
        if close:
            close()
    ctx.tag(op)
    if w.arrays or w.others or w.dirs:
        ctx.nontrivial(case['seed'], op)
