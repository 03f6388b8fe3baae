"""C29: arrays stay valid and unchanged; no memory error on valid input."""
import gc
import os
import threading

import numpy as np

from vf import files, sources
from vf.api import Violation, call, equal, require
from vf.checks.c09 import constant

ASAN = ('detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:'
        'detect_stack_use_after_return=0:strict_init_order=0:'
        'max_malloc_fill_size=67108864:malloc_fill_byte=203:'
        'max_free_fill_size=67108864:free_fill_byte=85:'
        'quarantine_size_mb=64:handle_segv=1:disable_coredump=1')
ID = 'C29'
PHASES = [dict(variant='asan', timeout=100,
               env=dict(ASAN_OPTIONS=ASAN, PYTHONMALLOC='malloc'),
               count=dict(quick=200, thorough=12000))]
RULE = ('Random programs of 12 to 40 steps over a pool of readers (arrays, '
        'HDF5, stream, sector, threaded, multi-pass), blocks, images, radial '
        'sums, counted data and sparse arrays: read, iterate, reset, image, '
        'average, count, slice, rebin, convert, fail midway, run in another '
        'thread, hand over iterators of readers that are gone, and drop any '
        'object at any point, in any order, with and without garbage '
        'collection. Runs under AddressSanitizer and UBSan, Python objects '
        'included, with freed memory overwritten. Every array kept is '
        'compared with its model (the frames written, sums of them) or with '
        'its contents when it was made, after drops and at the end. '
        'Non-trivial: a kept array compared after something it came from was '
        'dropped.')
REQUIRED = ['array', 'hdf5', 'stream1', 'sector', 'thread', 'multi-pass',
            'keep-data-only', 'keep-block', 'drop-reader', 'drop-all-readers',
            'reset', 'iterators-of-temporary', 'stem', 'radial', 'average',
            'maximum', 'thresholds', 'classic', 'counted', 'counted-events-'
            'only', 'sparse-op', 'raw-image', 'raw-radial', 'frames', 'failed',
            'background', 'gc', 'compared-after-drop', 'histogram', 'to-hdf5',
            'options-dropped', 'drop-array', 'did:thresholds']
ASSUMPTIONS = ['The source array, file or h5py dataset of a reader is not '
               'changed while the reader is in use; arrays returned are not '
               'written to by the program.',
               'A single reader is not used from two threads at a time.']
BIG = 10000


def gen(rng, i, tier, phase):
    return dict(seed=int(rng.integers(1 << 31)),
                steps=int(rng.integers(12, 41)),
                big=bool(rng.random() < .5))


class Pool:
    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        self.readers = []     # [name, reader, model or None]
        self.objects = []     # anything else worth dropping
        self.kept = []        # [name, array, expected, readers dropped then]
        self.sparse = []
        self.iters = []
        self.threads = []
        self.dropped = 0
        self.compared = 0

    def pick(self, xs):
        return xs[int(self.rng.integers(len(xs)))]

    def keep(self, name, a, expected=None):
        """Keeps an array and what it must hold for ever."""
        if expected is not None:
            equal(name, a, expected)
        snap = np.array(a) if expected is None else np.asarray(expected)
        self.kept.append([name, a, snap, self.dropped])

    def check(self, some=None):
        xs = self.kept if some is None else self.kept[-some:]
        for name, a, snap, at in xs:
            if a.shape != snap.shape or \
                    not np.array_equal(a, snap, equal_nan=a.dtype.kind == 'f'):
                raise Violation(f'changed:{name}', f'{name} of shape {a.shape}'
                                f' differs in {int(np.sum(a != snap))} values '
                                'from what it held when it was made')
            self.compared += 1
            if self.dropped > at:
                self.ctx.tag('compared-after-drop')


def open_reader(p, d, n, sector=None):
    """[kind, reader, frames by delivery, positions, scan, others]"""
    rng = p.rng
    kind = sector or str(p.pick(['array', 'array', 'hdf5', 'stream1',
                                 'stream1', 'sector', 'stream3']))
    sd = os.path.join(d, f'r{n}')
    os.mkdir(sd)
    src = sources.gen(rng, [kind], max_frames=12, max_side=24, big=3)
    shape = (len(src['pos']), src['side'][1], src['side'][0])
    if kind in ('sector', 'stream3'):
        shape = (len(src['pos']), 576, 576)
        fr = np.empty(shape, np.uint16)
        for i in range(len(fr)):
            fr[i] = rng.integers(1, 3000, (576, 1)) + rng.integers(
                0, 3000, 576)
    else:
        fr = rng.integers(1, 60000, shape).astype(np.uint16)
    s = sources.open_source(src, fr.copy(), sd)
    p.ctx.tag(kind)
    order = list(range(len(fr)))
    if s.h5 is not None:
        p.objects.append(['h5', s.h5])
    model = {}
    for i in order:
        model.setdefault(src['pos'][i], []).append(fr[i])
    return dict(kind=kind, reader=s.reader, frames=fr, pos=src['pos'],
                scan=tuple(src['scan']), model=model, source=s,
                header_scan=s.header_scan)


def threaded(p, d, n):
    from vf.checks.c04 import spots
    from stempy import io
    rng = p.rng
    v = 5
    lay = files.gen_layout(rng, version=v, scan=[2, 2], fpp=1, missing=0,
                           absent=0.3, max_frames=4, content='small',
                           unique=True)
    lay['empty'] = False
    pix = spots(int(rng.integers(1 << 30)), len(lay['frames']))
    sd = os.path.join(d, f'r{n}')
    os.mkdir(sd)
    fs = files.write(lay, sd, pix)
    back = str(p.pick(['thread', 'multi-pass']))
    p.ctx.tag(back)
    r = call('reader', io.reader, fs.paths, v, backend=back,
             threads=int(rng.integers(1, 4)))
    return dict(kind=back, reader=r, fs=fs, scan=tuple(lay['scan']))


def total_images(e):
    w, h = e['scan']
    out = np.zeros((h, w), np.uint64)
    for pos, fr in e['model'].items():
        out[pos // w, pos % w] = sum(int(f.sum(dtype=np.uint64)) for f in fr)
    return out


def average(e):
    return e['frames'].sum(0, dtype=np.float64) / len(e['frames'])


def events(fs, w, h):
    m = {k[0]: np.flatnonzero(a.reshape(-1) >= 400)
         for k, a in fs.full.items()}
    return [m.get(i, np.zeros(0, int)) for i in range(w * h)]


COUNT = dict(number_of_samples=2, background_threshold_n_sigma=14,
             xray_threshold_n_sigma=100000, threshold_num_blocks=1)


def run(case, ctx):
    rng = np.random.default_rng(case['seed'])
    p = Pool(ctx, rng)
    d = ctx.tmpdir()
    try:
        program(case, ctx, p, d)
    finally:
        for t in p.threads:
            t.join()
    if p.compared:
        ctx.nontrivial(case['seed'])
    ctx.count('arrays-compared', p.compared)
    ctx.count('objects-dropped', p.dropped)


def classic(p):
    rs = [e for e in p.readers if e['kind'] not in ('thread', 'multi-pass')
          and not e.get('busy')]
    return p.pick(rs) if rs else None


def program(case, ctx, p, d):
    from stempy import _image, _io, io
    from stempy.image import (calculate_average, create_stem_histogram,
                              create_stem_images, electron_count,
                              maximum_diffraction_pattern, radial_sum)
    from vf.checks.c04 import spots  # noqa
    rng = p.rng
    serial = [0]

    def new(kind=None):
        serial[0] += 1
        if kind == 'threaded':
            e = threaded(p, d, serial[0])
        else:
            e = open_reader(p, d, serial[0], kind)
        p.readers.append(e)
        return e

    def drop_reader(e):
        """Everything the harness holds of a reader."""
        p.readers[:] = [x for x in p.readers if x is not e]
        p.dropped += 1
        ctx.tag('drop-reader')
        s = e.get('source')
        if s is not None:
            s.reader = None
        e['reader'] = None

    def it_of(e):
        r = e['reader']
        r.reset()
        e['at'] = 0
        return r.begin(), r.end()

    def scan_of(e):
        return e['scan'] if not e['header_scan'] or rng.random() < .5 \
            else (0, 0)

    def op_read():
        e = classic(p) or new()
        r = e['reader']
        e.setdefault('at', 0)
        for _ in range(int(rng.integers(1, 4))):
            b = call('read', r.read)
            if b is None:
                e['at'] = 0
                call('reset', r.reset)
                ctx.tag('reset')
                continue
            nums = list(b.header.image_numbers)
            if e['kind'] == 'sector':
                want = np.stack([e['model'][nums[0]][0]])
            else:
                want = e['frames'][e['at']:e['at'] + len(nums)]
                require(nums == e['pos'][e['at']:e['at'] + len(nums)],
                        'image-numbers', (nums, e['pos']))
            e['at'] += len(nums)
            c = int(rng.integers(5))
            if c == 0:
                p.keep('block.data', b.data, want)
                p.objects.append(['block', b])
                ctx.tag('keep-block')
            elif c == 1:
                p.keep('block.data', b.data, want)
                ctx.tag('keep-data-only')
            elif c == 2:
                a = np.asarray(b._block)
                h = b.header
                p.keep('block', a, want)
                p.objects.append(['header', h])
                ctx.tag('keep-data-only')
            elif c == 3:
                p.keep('block.view', b.data[-1, ::2, 1:], want[-1, ::2, 1:])
            else:
                p.objects.append(['rawblock', b._block])

    def op_reset():
        e = classic(p)
        if e:
            call('reset', e['reader'].reset)
            e['at'] = 0
            ctx.tag('reset')

    def op_drop():
        c = rng.random()
        if c < .35 and p.readers:
            e = p.pick([x for x in p.readers if not x.get('busy')] or [None])
            if e:
                drop_reader(e)
        elif c < .6 and p.objects:
            i = int(rng.integers(len(p.objects)))
            name, o = p.objects.pop(i)
            if name == 'h5' and rng.random() < .3 and not any(
                    x.get('busy') for x in p.readers):
                # readers of it may only fail from now on
                for x in [x for x in p.readers if x.get('source') is not None
                          and x['source'].h5 is o]:
                    o.close()
                    for f in (x['reader'].read, lambda: calculate_average(
                            x['reader'])):
                        try:
                            f()
                        except Exception:
                            ctx.tag('failed')
                    drop_reader(x)
            del o
            p.dropped += 1
        elif c < .75 and p.sparse:
            p.sparse.pop(int(rng.integers(len(p.sparse))))
            p.dropped += 1
        elif c < .85 and p.kept:
            p.check(3)
            p.kept.pop(int(rng.integers(len(p.kept))))
            ctx.tag('drop-array')
        elif c < .92:
            for e in [x for x in p.readers if not x.get('busy')]:
                drop_reader(e)
            ctx.tag('drop-all-readers')
        else:
            p.objects.clear()
            p.dropped += 1
        if rng.random() < .5:
            gc.collect()
            ctx.tag('gc')
        p.check(4)

    def image(e, a, b, scan):
        """One computation over iterators; checks and keeps the result."""
        c = int(rng.integers(6))
        if c == 0:
            ims = call('create_stem_images', _image.create_stem_images, a, b,
                       [0, 3], [BIG, 8], scan, (-1, -1))
            i = np.asarray(ims[0])
            small = np.asarray(ims[1])
            if rng.random() < .5:
                p.objects.append(['images', ims])
            del ims
            p.keep('stem-image', i, total_images(e))
            p.keep('stem-image-2', small)
            ctx.tag('raw-image')
        elif c == 1:
            rs = call('radial_sum', _image.radial_sum, a, b, scan, (-1, -1))
            x = np.asarray(rs)
            del rs
            require(x.ndim == 3 and x.shape[1:] == e['scan'][::-1],
                    'radial-sum-shape', x.shape)
            equal('radial-sum-total', np.sum(x, axis=0, dtype=np.uint64),
                  total_images(e))
            p.keep('radial-sum', x)
            ctx.tag('raw-radial')
        elif c == 2:
            av = call('calculate_average', _image.calculate_average, a, b)
            x = np.asarray(av)
            del av
            require(np.allclose(x, average(e), rtol=1e-12), 'average')
            p.keep('average', x)
        elif c == 3:
            dark = _image._image_double(average(e)) if rng.random() < .5 \
                else None
            args = (a, b) + ((dark,) if dark is not None else ())
            mx = call('maximum', _image.maximum_diffraction_pattern, *args)
            x = np.asarray(mx)
            if dark is None:
                equal('maximum', x, e['frames'].max(0))
            del mx, dark, args
            p.keep('maximum', x)
            ctx.tag('maximum')
        elif c == 4:
            o = _image.ElectronCountOptionsClassic()
            o.dark_reference = rng.integers(0, 2, e["frames"].shape[1:]
                                            ).astype(np.float32)
            if rng.random() < .5:
                o.gain = rng.uniform(.9, 1.1, e['frames'].shape[1:]).astype(
                    np.float32)
            o.background_threshold = 100.
            o.x_ray_threshold = 1e9
            o.scan_dimensions = scan
            res = call('electron_count', _image.electron_count, a, b, o)
            del o
            ctx.tag('options-dropped')
            data = res.data
            del res
            for row in data:
                for ev in row:
                    ev = np.asarray(ev)
                    if len(ev):
                        p.keep('events', ev)
                    if len(p.kept) > 60:
                        break
            ctx.tag('classic', 'counted-events-only')
        else:
            ims = call('create_stem_images', _image.create_stem_images, a, b,
                       [0], [BIG], scan, (-1, -1))
            bins = call('get_container', _image.get_container, ims[0], 5)
            fr = call('histogram', _image.create_stem_histogram, ims[0], 5,
                      bins)
            im = np.asarray(ims[0])
            del ims
            p.keep('stem-image', im, total_images(e))
            p.keep('bins', np.asarray(bins))
            p.keep('freq', np.asarray(fr))
            ctx.tag('histogram')

    def op_iterators():
        """Iterators of a reader that nobody else holds."""
        e = new()
        scan = scan_of(e)
        a, b = it_of(e)
        if rng.random() < .4:
            p.iters.append((e, a, b, scan))
        drop_reader(e)
        if rng.random() < .5:
            gc.collect()
        ctx.tag('iterators-of-temporary')
        if not p.iters or p.iters[-1][0] is not e:
            image(e, a, b, scan)

    def op_use_iterators():
        if p.iters:
            image(*p.iters.pop(int(rng.integers(len(p.iters)))))

    def op_image():
        e = classic(p) or new()
        a, b = it_of(e)
        image(e, a, b, scan_of(e))
        e['reader'].reset()

    def op_api():
        e = classic(p) or new()
        r = e['reader']
        r.reset()
        e['at'] = 0
        scan = e['scan']
        c = int(rng.integers(6))
        if c == 0:
            k = int(rng.integers(1, 4))
            p.keep('stem', call('create_stem_images', create_stem_images, r,
                                [0] * k, [BIG] * k, scan_dimensions=scan),
                   np.array([total_images(e)] * k))
            ctx.tag('stem')
        elif c == 1:
            p.keep('radial', call('radial_sum', radial_sum, r,
                                  scan_dimensions=scan))
            ctx.tag('radial')
        elif c == 2:
            a = call('calculate_average', calculate_average, r)
            p.keep('average-array', a)
            r.reset()
            if rng.random() < .6:
                half = (a / 2)[:]
                del a
                p.keep('maximum-dark', call(
                    'maximum', maximum_diffraction_pattern, r, half))
            ctx.tag('average')
        elif c == 3:
            p.keep('maximum-array', call('maximum',
                                         maximum_diffraction_pattern, r))
        elif c == 4:
            b = []
            for _ in range(int(rng.integers(1, 3))):
                x = r.read()
                if x is None:
                    break
                b.append(x._block)
            dark = np.ones(e['frames'].shape[1:], np.float32)
            args = [b, dark, 10, 4., 10.]
            if rng.random() < .4:
                args.append(np.ones_like(dark))
            if rng.random() < .4:
                r.reset()
            try:
                t = _image.calculate_thresholds(*args)
                p.objects.append(['thresholds', t])
                ctx.tag('did:thresholds')
            except Exception:
                ctx.tag('failed')
            p.objects.append(['rawblock', p.pick(b)])
            del args, b
            ctx.tag('thresholds')
        else:
            h = create_stem_histogram(7, r, [0, 2], [BIG, 5],
                                      scan_dimensions=scan)
            for x in h[0] + h[1]:
                p.keep('histogram', np.asarray(x))
        r.reset()

    def op_count():
        e = new('threaded')
        w, h = e['scan']
        back = e['kind']
        if back == 'multi-pass':
            for k in list(e['fs'].full)[:2]:
                bl = call('read_frames', e['reader'].read_frames, k[0])
                p.keep('frame', bl[0].data, e['fs'].full[k])
                ctx.tag('frames')
            del bl
        dark = np.zeros((576, 576), np.float64 if rng.random() < .5
                        else np.float32)
        kw = dict(gain=np.ones((576, 576))) if rng.random() < .3 else {}
        got = call('electron_count', electron_count, e['reader'], dark,
                   **kw, **COUNT)
        del dark, kw
        if rng.random() < .6:
            drop_reader(e)
        want = events(e['fs'], w, h)
        data = got.data
        for i in range(w * h):
            if rng.random() < .6 or i == 0:
                ev = data[i, 0]
                p.keep('counted-events', ev, want[i])
        del data, ev
        ctx.tag('counted')
        k = int(rng.integers(1, 4))
        im = call('create_stem_images', create_stem_images, got, [0] * k,
                  [BIG] * k)
        p.keep('counted-stem', im, np.array(
            [len(x) * constant() for x in want] * k,
            np.uint64).reshape(k, h, w))
        if rng.random() < .6:
            p.sparse.append([got, [np.array(x) for x in want], (h, w)])
        else:
            del got
            ctx.tag('counted-events-only')
            p.dropped += 1
            gc.collect()
        p.check(6)

    def op_sparse():
        if not p.sparse:
            op_count()
        if not p.sparse:
            return
        sa, want, shape = p.pick(p.sparse)
        c = int(rng.integers(7))
        ctx.tag('sparse-op')
        dense = [np.bincount(x, minlength=576 * 576) for x in want]
        if c == 0:
            p.keep('sum', call('sum', sa.sum, axis=(0, 1)),
                   np.sum(dense, 0).reshape(576, 576))
        elif c == 1:
            sub = call('getitem', sa.__getitem__, (slice(0, 1), slice(None),
                                                   slice(3, 99), slice(None)))
            if hasattr(sub, 'data') and hasattr(sub, 'frame_shape'):
                for row in np.asarray(sub.data).reshape(-1):
                    p.keep('sub-events', np.asarray(row))
        elif c == 2:
            b = call('bin_frames', sa.bin_frames, 4)
            for row in np.asarray(b.data).reshape(-1):
                p.keep('bin-events', np.asarray(row))
        elif c == 3:
            b = call('bin_scans', sa.bin_scans, 2)
            p.keep('bin-scans', np.asarray(b.data[0, 0]),
                   np.asarray(b.data[0, 0]).copy())
        elif c == 4:
            k = int(rng.integers(1, 4))
            ims = call('create_stem_images', create_stem_images, sa, [0] * k,
                       [BIG] * k)
            p.keep('sparse-stem', ims, np.array(
                [len(x) * constant() for x in want] * k,
                np.uint64).reshape((k,) + shape))
        elif c == 5:
            b = call('ravel', sa.ravel_scans)
            for row in np.asarray(sa.data).reshape(-1)[:3]:
                p.keep('sparse-events', np.asarray(row))
            b.shape = shape + (576, 576)
            sa.shape = shape + (576, 576)
            del b
        else:
            q = os.path.join(d, f's{rng.integers(1 << 60)}.h5')
            call('write_to_hdf5', sa.write_to_hdf5, q)
            back = call('from_hdf5', io.SparseArray.from_hdf5, q)
            os.unlink(q)
            for i, row in enumerate(back.data.reshape(-1)):
                p.keep('loaded-events', np.asarray(row), want[i])

    def op_fail():
        """Operations that fail in the middle."""
        e = classic(p) or new()
        r = e['reader']
        r.reset()
        e['at'] = 0
        c = int(rng.integers(5))
        try:
            if c == 0:
                _image.create_stem_images(r.begin(), r.end(), [1, 2], [3],
                                          e['scan'], (-1, -1))
            elif c == 1:
                maximum_diffraction_pattern(r, np.zeros((1, 1)))
            elif c == 2:
                _image.create_stem_images(r.begin(), r.end(), [1], [3],
                                          (1, 1), (-1, -1))
            elif c == 3:
                radial_sum(r, scan_dimensions=(1, 1))
            else:
                electron_count(r, threshold_num_blocks=50)
        except Exception:
            pass
        except StopIteration:
            pass
        ctx.tag('failed')
        r.reset()

    def op_background():
        """A computation in a thread; the program goes on meanwhile."""
        e = new(str(p.pick(['array', 'hdf5', 'stream1', 'sector'])))
        a, b = it_of(e)
        kind = int(rng.integers(3))
        scan = e['scan']
        out = {}
        if kind == 1 and e['kind'] == 'hdf5':
            e['busy'] = True

        def work():
            nonlocal a, b
            try:
                if kind == 0:
                    out['r'] = _image.create_stem_images(
                        a, b, [0], [BIG], scan, (-1, -1))[0]
                elif kind == 1:
                    out['r'] = _image.calculate_average(a, b)
                else:
                    out['r'] = _image.radial_sum(a, b, scan, (-1, -1))
            except BaseException as x:
                out['x'] = x
            del a, b
        t = threading.Thread(target=work)
        t.start()
        p.threads.append(t)
        drop_reader(e)
        e['busy'] = True
        for _ in range(int(rng.integers(1, 3))):
            pick_op(ops[:5])()
        gc.collect()
        t.join()
        if 'x' in out:
            raise Violation('exception:background', repr(out['x']))
        x = np.asarray(out.pop('r'))
        if kind == 0:
            p.keep('background-stem', x, total_images(e))
        elif kind == 1:
            require(np.allclose(x, average(e), rtol=1e-12), 'average')
            p.keep('background-average', x)
        else:
            p.keep('background-radial', x)
        ctx.tag('background')

    def op_hdf5():
        e = new('sector')
        q = os.path.join(d, f'h{serial[0]}.h5')
        f = [io.SectorReader.H5Format.Frame,
             io.SectorReader.H5Format.DataCube][int(rng.integers(2))]
        call('to_hdf5', e['reader'].to_hdf5, q, f)
        drop_reader(e)
        import h5py
        with h5py.File(q) as h:
            fr = h['frames'] if 'frames' in h else h['datacube']
            p.keep('converted', fr[:1])
        os.unlink(q)
        ctx.tag('to-hdf5')

    ops = [op_read, op_image, op_iterators, op_api, op_drop, op_reset,
           op_use_iterators, op_fail, op_sparse, op_count, op_background,
           op_hdf5]
    weights = np.array([.22, .12, .08, .12, .22, .04, .05, .05, .05, .02, .05,
                        .02])

    def pick_op(xs):
        w = weights[:len(xs)] / weights[:len(xs)].sum()
        return xs[int(rng.choice(len(xs), p=w))]

    new()
    n = 0
    while n < case['steps']:
        op = pick_op(ops)
        op()
        n += 1
        ctx.count('steps')
        if len(p.readers) > 5:
            drop_reader(p.pick([x for x in p.readers]))
    for t in p.threads:
        t.join()
    p.check()
    p.objects.clear()
    p.sparse.clear()
    for e in list(p.readers):
        drop_reader(e)
    p.iters.clear()
    gc.collect()
    p.check()
