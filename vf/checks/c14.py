"""C14: HDF5 and in-memory readers deliver the stored frames, any layout."""
import os
import warnings

import numpy as np

from vf import counting
from vf.api import call, close, equal, require

ID = 'C14'
PHASES = [dict(variant='plain', count=dict(quick=9000, thorough=150000))]
RULE = ('PyReader over arrays of every layout (C, Fortran, strided, reversed, '
        'transposed views, read-only) and unsigned type (8 to 64 bits, both '
        'byte orders), and io.reader over HDF5 files (plain, chunked, gzip, '
        'big-endian, with and without scan positions, old files without scan '
        'dimensions), with random block sizes and read/reset histories: every '
        'block is compared with the array. Images, averages, radial sums, '
        'counts and sparse images must be the same for every layout of raw '
        'data, dark reference, gain and event lists. Non-trivial: more than '
        'one block or a layout that is not C-contiguous.')
REQUIRED = ['pyreader', 'hdf5', 'results', 'F', 'strided', 'reversed',
            'transposed', 'readonly', 'C', '<u1', '<u2', '>u2', '<u4', '<u8',
            'partial-block', 'one-block', 'non-square', 'reset',
            'scan-positions', 'old-file', 'gzip', 'events-layout',
            'dark-layout', 'gain-layout', 'event-dtype', 'no-scan-positions',
            'reset-in-the-middle', 'large-many', 'large-wide',
            'large-numbers']
ASSUMPTIONS = ['Values fit into 16 bits; image numbers are those of the data.']
LAYOUTS = ['C', 'F', 'strided', 'reversed', 'transposed', 'readonly']


def gen(rng, i, tier, phase):
    n = int(rng.choice([1, 2, 5, 12, 31, 32, 33, 64, 70]))
    side = [int(rng.integers(1, 14)), int(rng.integers(1, 14))]
    block = int(rng.choice([1, 2, 3, 7, 32, 100]))
    # numbers that do not fit into one or two bytes
    large = ''
    if rng.random() < .02:
        large = str(rng.choice(['many', 'wide', 'numbers']))
        if large == 'many':
            n = int(rng.choice([300, 1100]))
            block = int(rng.choice([300, 1014, 1100, 100]))
        elif large == 'wide':
            n = min(n, 5)
            side = [[1, 300], [300, 2], [2, 70000], [70000, 2], [300, 260]][
                int(rng.integers(5))]
    return dict(mode=str(rng.choice(['pyreader', 'hdf5', 'results'])), n=n,
                side=side, block=block, large=large,
                layout=str(rng.choice(LAYOUTS)),
                layouts=[str(x) for x in rng.choice(LAYOUTS, 3)],
                dtype=str(rng.choice(['<u1', '<u2', '<u2', '>u2', '<u4',
                                      '<u8'])),
                perm=bool(rng.random() < .5), positions=bool(rng.random() < .5),
                old=bool(rng.random() < .2), zip=bool(rng.random() < .4),
                numtype=str(rng.choice(['list', 'u4', 'i8', 'strided'])),
                ops=[str(x) for x in rng.choice(
                    ['read', 'read', 'read', 'reset', 'all'],
                    int(rng.integers(0, 6)))],
                seed=int(rng.integers(1 << 31)))


def lay(a, kind):
    """The same values in another memory layout."""
    if kind == 'F':
        return np.asfortranarray(a)
    if kind == 'strided':
        b = np.full([2 * s + 1 for s in a.shape], 77, a.dtype)
        v = b[tuple(slice(1, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if kind == 'reversed':
        return np.ascontiguousarray(a[tuple(slice(None, None, -1)
                                            for _ in a.shape)])[
            tuple(slice(None, None, -1) for _ in a.shape)]
    if kind == 'transposed':
        return np.ascontiguousarray(a.swapaxes(-1, -2)).swapaxes(-1, -2) \
            if a.ndim > 1 else a
    if kind == 'readonly':
        b = np.ascontiguousarray(a).copy()
        b.flags.writeable = False
        return b
    return np.ascontiguousarray(a)


def numbers(nums, kind):
    nums = np.asarray(nums)
    if kind == 'list':
        return [int(x) for x in nums]
    if kind == 'u4':
        return nums.astype(np.uint32)
    if kind == 'strided':
        b = np.zeros(2 * len(nums), np.int64)
        b[::2] = nums
        return b[::2]
    return nums.astype(np.int64)


def check_block(b, data, nums, a, k, scan, version=None):
    h = b.header
    require(h.images_in_block == k, 'images-in-block', (h.images_in_block, k))
    require(list(h.image_numbers) == [int(x) for x in nums[a:a + k]],
            'image-numbers', h.image_numbers[:5])
    require(tuple(h.frame_dimensions) == (data.shape[2], data.shape[1]),
            'frame-dimensions', h.frame_dimensions)
    require(tuple(h.scan_dimensions) == tuple(scan), 'scan-dimensions',
            h.scan_dimensions)
    equal('pixels', b.data, data[a:a + k])
    require(b.data.dtype == np.uint16, 'dtype', b.data.dtype)


def drive(reader, case, data, nums, scan, block, ctx):
    n = len(data)
    pos = 0

    def one():
        nonlocal pos
        b = call('read', reader.read)
        if pos >= n:
            require(b is None, 'made-up-block')
            return False
        require(b is not None, 'lost-frames', f'{n - pos} frames missing')
        k = min(block, n - pos)
        require(b.header.images_in_block <= block, 'block-too-large')
        check_block(b, data, nums, pos, k, scan)
        if k < block:
            ctx.tag('partial-block')
        pos += k
        ctx.count('blocks')
        return True
    for op in case['ops']:
        if op == 'read':
            one()
        elif op == 'all':
            while one():
                pass
        else:
            if 0 < pos < n:
                ctx.tag('reset-in-the-middle')
            reader.reset()
            pos = 0
            ctx.tag('reset')
    while one():
        pass


def run(case, ctx):
    rng = np.random.default_rng(case['seed'])
    n = case['n']
    dt = np.dtype(case['dtype'])
    top = 256 if dt.itemsize == 1 else 65536
    data = rng.integers(0, top, (n, *case['side'])).astype(dt)
    # a scan with room for all the frames
    w = int(rng.integers(1, 12))
    if case['large'] == 'numbers':
        w = int(rng.choice([300, 700, 40000]))
    h = -(-n // w)
    if case['large'] == 'numbers' and case['mode'] != 'results':
        h = max(h, int(rng.choice([260, 1000])))
    nums = rng.choice(w * h, n, replace=False) if case['perm'] else \
        np.arange(n)
    ctx.tag(case['mode'])
    globals()['run_' + case['mode']](case, ctx, rng, data, nums, (w, h))
    if case['large']:
        ctx.tag('large-' + case['large'])
    if case['side'][0] != case['side'][1]:
        ctx.tag('non-square')
    if n > case['block'] or case['layout'] != 'C':
        ctx.nontrivial(case)


def run_pyreader(case, ctx, rng, data, nums, scan):
    from stempy import io
    view = lay(data, case['layout'])
    reader = call('PyReader', io.PyReader, view,
                  numbers(nums, case['numtype']), scan, case['block'],
                  len(data))
    drive(reader, case, data, nums, scan, case['block'], ctx)
    ctx.tag(case['layout'], case['dtype'])
    if case['block'] >= len(data):
        ctx.tag('one-block')


def run_hdf5(case, ctx, rng, data, nums, scan):
    import h5py

    from stempy import io
    p = os.path.join(ctx.tmpdir(), 'raw.h5')
    kw = dict(zip_data=case['zip'])
    if case['positions'] or case['perm']:
        kw['scan_positions'] = numbers(nums, case['numtype'])
        ctx.tag('scan-positions')
    else:
        ctx.tag('no-scan-positions')
    if not case['old']:
        kw['scan_dimensions'] = scan
    call('save_raw_data', io.save_raw_data, p, lay(data, case['layout']), **kw)
    if case['old']:
        call('save_stem_images', io.save_stem_images, p,
             np.zeros((2, scan[1], scan[0])), ['a', 'b'])
        ctx.tag('old-file')
    if case['zip']:
        ctx.tag('gzip')
    with h5py.File(p, 'r') as f:
        reader = call('reader', io.reader, f)
        drive(reader, case, data, nums, scan, 32, ctx)
        del reader
    os.unlink(p)
    ctx.tag(case['layout'], case['dtype'])


def run_results(case, ctx, rng, data, nums, scan):
    from stempy import _image, io
    from stempy.image import (calculate_average, create_stem_images,
                              electron_count, maximum_diffraction_pattern,
                              radial_sum)
    ref = np.ascontiguousarray(data.astype(np.uint16))
    view = lay(data, case['layout'])
    side = case['side']
    w, h = scan
    n = len(data)
    r = max(side)
    args = ([0, r // 2], [r // 2 + 1, 2 * r])

    def rd(a):
        return io.PyReader(a, nums, scan, case['block'], n)
    ctx.tag(case['layout'], case['dtype'])
    equal('stem', call('create_stem_images', create_stem_images, view, *args,
                       scan_dimensions=scan),
          create_stem_images(ref, *args, scan_dimensions=scan))
    equal('stem-reader', call('create_stem_images', create_stem_images,
                              rd(view), *args),
          create_stem_images(rd(ref), *args))
    equal('radial', call('radial_sum', radial_sum, rd(view)),
          radial_sum(rd(ref)))
    close('average', np.asarray(call('calculate_average', calculate_average,
                                     rd(view))), ref.mean(0), rtol=1e-12)
    dark = rng.uniform(0, 5, side).astype(np.float32)
    gain = rng.uniform(.5, 2, side).astype(np.float32)
    l1, l2, l3 = case['layouts']
    dv, gv = lay(dark, l1), lay(gain, l2)
    if l1 != 'C':
        ctx.tag('dark-layout')
    if l2 != 'C':
        ctx.tag('gain-layout')
    close('maximum', np.asarray(call(
        'maximum_diffraction_pattern', maximum_diffraction_pattern, rd(view),
        lay(dark.astype(np.float64), l1))),
        ref.max(0).astype(float) - dark.astype(float), rtol=1e-12, atol=1e-9)
    if min(side) < 1 or max(side) < 2:
        return
    o = _image.ElectronCountOptionsClassic()
    o.dark_reference = dv
    o.gain = gv
    o.background_threshold = float(np.median(ref))
    o.x_ray_threshold = 40000.
    a = call('electron_count', _image.electron_count, rd(view).begin(),
             rd(view).end(), o)
    want = counting.events(ref, dark, gain, o.background_threshold, 40000.,
                           classic=True)
    got = [np.array(x[0]) for x in a.data]
    for k, p in enumerate(nums):
        equal('events', got[p], want[k])
    # event lists of other layouts and types
    plain = np.empty((w * h, 1), object)
    other = np.empty((w * h, 1), object)
    et = str(rng.choice(['<u4', '<i8', '>u4', '<u8', '<i4']))
    for i in range(w * h):
        plain[i, 0] = got[i].astype(np.uint32)
        other[i, 0] = lay(got[i].astype(et), l3)
    if l3 != 'C':
        ctx.tag('events-layout')
    if et != '<u4':
        ctx.tag('event-dtype')
    kw = dict(frame_dimensions=(side[1], side[0]), scan_dimensions=scan)
    equal('sparse-stem', call('create_stem_images', create_stem_images, other,
                              *args, **kw),
          create_stem_images(plain, *args, **kw))
