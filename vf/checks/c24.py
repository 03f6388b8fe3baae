"""C24: malformed or truncated raw files never corrupt memory or invent data."""
import os
import re
import resource
import struct

import numpy as np

from vf import files
from vf.api import Violation, call, equal, require

ASAN = ('detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:'
        'detect_stack_use_after_return=0:strict_init_order=0:'
        'max_malloc_fill_size=67108864:malloc_fill_byte=203:'
        'handle_segv=1:disable_coredump=1')
ID = 'C24'
PHASES = [dict(variant='asan', timeout=150, env=dict(ASAN_OPTIONS=ASAN),
               count=dict(quick=840, thorough=20000)),
          dict(variant='plain', timeout=150,
               count=dict(quick=1000, thorough=30000))]
RULE = ('Raw files of versions 1 to 5, HDF5 files and arrays are damaged '
        '(truncation at any byte, random, extreme and swapped header fields, '
        'overwritten, inserted, deleted and repeated bytes and records, wrong '
        'version, unexpected sector numbers and names, image numbers outside '
        'of the scan, directories and missing files) and read, imaged, '
        'averaged, counted and converted with every reader, under '
        'AddressSanitizer and UBSan with new memory filled with a pattern '
        'that the files do not hold, and again in a plain build with an '
        'address space limit and extreme sizes. Allowed: a Python exception, '
        'or data of the shape named by the header, without the pattern. For '
        'truncated acquisitions the exact frames that must be delivered are '
        'known and compared with every backend. Non-trivial: distinct damaged '
        'inputs that were opened.')
REQUIRED = ['v1', 'v2', 'v3', 'v4', 'v5', 'hdf5', 'array', 'truncate',
            'field', 'overwrite', 'insert', 'delete', 'repeat',
            'wrong-version', 'name', 'raised', 'returned', 'thread',
            'multi-pass', 'sequential', 'stem', 'radial', 'average', 'count',
            'classic', 'frames', 'to-hdf5', 'exact', 'exact-partial',
            'extreme', 'headers']
ASSUMPTIONS = ['Files do not change while they are read.',
               'In the exact comparison at most one frame per position for '
               'the sequential reader.']
FILL = 0xcb


def gen(rng, i, tier, phase):
    plain = phase['variant'] == 'plain'
    if rng.random() < .35:
        lay = files.gen_layout(rng, missing=float(rng.choice([0, .1])),
                               max_frames=5, content='small', unique=True)
        lay['empty'] = False
        return dict(kind='exact', lay=lay,
                    cuts=[[int(rng.integers(12)), float(rng.random()),
                           str(rng.choice(['any', 'any', 'head', 'edge']))]
                          for _ in range(int(rng.integers(1, 5)))],
                    threads=int(rng.choice([1, 2, 4])),
                    seed=int(rng.integers(1 << 31)))
    kind = str(rng.choice(['v1', 'v1', 'v2', 'v3', 'v4', 'v5', 'v5', 'hdf5',
                           'array'], p=[.15, .1, .04, .1, .17, .14, .14, .1,
                                        .06]))
    muts = []
    for _ in range(int(rng.choice([1, 1, 2, 3]))):
        muts.append([str(rng.choice(['truncate', 'field', 'field', 'overwrite',
                                     'insert', 'delete', 'repeat', 'name'])),
                     int(rng.integers(1 << 31))])
    backend = str(rng.choice(['none', 'thread', 'multi-pass']))
    ops = ['read', 'stem', 'radial', 'average', 'maximum', 'classic',
           'thresholds']
    if kind in ('v4', 'v5'):
        ops = {'none': ops + ['hdf5', 'hdf5', 'captured'],
               'thread': ['count'],
               'multi-pass': ['count', 'frames', 'headers']}[backend]
    ops = [str(x) for x in rng.choice(ops, int(rng.integers(2, 6)))]
    if backend != 'none' and kind in ('v4', 'v5'):
        ops = ops[:3]
    return dict(kind=kind, muts=muts, extreme=plain and bool(rng.random() < .6),
                wrong=int(rng.integers(1, 8)) if rng.random() < .1 else None,
                ops=ops, backend=backend,
                dims=bool(rng.random() < .4), threads=int(rng.integers(1, 5)),
                seed=int(rng.integers(1 << 31)))


def run(case, ctx):
    if case['kind'] == 'exact':
        return exact(case, ctx)
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    limit = case['extreme'] or not os.environ.get('ASAN_OPTIONS')
    if limit:
        resource.setrlimit(resource.RLIMIT_AS, (3 << 30, hard))
    try:
        damaged(case, ctx)
    finally:
        if limit:
            resource.setrlimit(resource.RLIMIT_AS, (soft, hard))


# -- exact model of truncated acquisitions -----------------------------------

def exact(case, ctx):
    from stempy import io
    from stempy.image import electron_count

    from vf.checks.c04 import spots
    lay = case['lay']
    d = ctx.tmpdir()
    pix = spots(case['seed'], len(lay['frames']))
    fs = files.write(lay, d, pix)
    ps = [p for p in sorted(fs.records) if fs.records[p]]
    cut = set()
    for which, frac, how in case['cuts']:
        p = ps[which % len(ps)]
        if p in cut:
            continue
        cut.add(p)
        n = len(fs.records[p])
        if how == 'any':
            at = int(frac * n * files.RECORD)
        elif how == 'head':
            at = int(frac * n) * files.RECORD + which + 1
        else:
            at = int(frac * n) * files.RECORD + \
                [0, 1, 15, 16, 17, files.RECORD - 1][which % 6]
        with open(p, 'r+b') as f:
            f.truncate(at)
        for s, i in fs.records[p][at // files.RECORD:]:
            pos, fn, _ = lay['frames'][i]
            fs.sectors[pos, fn].discard(s)
            fs.full[pos, fn][files.FIRST[lay['version']](s)] = 0
    left = {k: a for k, a in fs.full.items() if fs.sectors[k]}
    complete = [k for k in left if len(fs.sectors[k]) == 4]
    v = lay['version']
    w, h = lay['scan']
    ctx.tag('exact', 'truncate', f'v{v}')
    if len(complete) < len(left):
        ctx.tag('exact-partial')
    # sequential
    r = call('reader', io.reader, fs.paths, v)
    seen = {}
    while True:
        b = call('read', r.read)
        if b is None:
            break
        pos = b.header.image_numbers[0]
        require(pos not in seen, 'delivered-twice', pos)
        seen[pos] = b.data[0]
    want = {k[0]: a for k, a in left.items()}
    require(set(seen) == set(want), 'sequential-positions',
            (sorted(seen), sorted(want)))
    for pos in want:
        equal('sequential-frame', seen[pos], want[pos])
    ctx.tag('sequential')
    # threaded
    for back in ['thread'] + (['multi-pass'] if v == 5 else []):
        r = call('reader', io.reader, fs.paths, v, backend=back,
                 threads=case['threads'])
        if back == 'multi-pass' and left:
            require(r.num_frames_per_scan == 1, 'num-frames')
            for k in left:
                b = call('read_frames', r.read_frames, k[0])
                require(len(b) == 1, 'multi-pass-frames')
                equal('multi-pass-frame', b[0].data, left[k])
            ctx.tag('frames')
        keys = complete if back == 'thread' else list(left)
        try:
            got = electron_count(r, np.zeros((576, 576)), number_of_samples=2,
                                 background_threshold_n_sigma=14,
                                 xray_threshold_n_sigma=100000,
                                 threshold_num_blocks=1)
        except Exception as e:
            require(not complete, 'count-raised', repr(e))
            ctx.tag('raised')
            continue
        require(bool(complete), 'count-without-frames')
        m = {k[0]: np.flatnonzero(left[k].reshape(-1) >= 400) for k in keys}
        require(got.data.shape == (w * h, 1), 'count-shape', got.data.shape)
        for pos in range(w * h):
            equal('count', got.data[pos, 0], m.get(pos, np.zeros(0, int)),
                  f'{back}, position {pos}')
        ctx.tag(back, 'count')
    ctx.nontrivial(case)
    files.cleanup(fs)


# -- arbitrary damage ----------------------------------------------------------

FIELDS = {1: [(k, 4) for k in range(0, 80, 4)],
          3: [(0, 4), (4, 4), (8, 2), (10, 2), (12, 2), (14, 2)]}


def value(rng, size, extreme):
    """A header field: small enough to be allocated, or anything."""
    pick = [0, 1, 2, 3, 7, 12, 255, 300]
    if extreme:
        pick += [65535, 65534, 32768, 40000, 10 ** 9]
        if size == 4:
            pick += [0xffffffff, 0xfffffffe, 0x80000000, 0x7fffffff, 1 << 16,
                     1 << 24, 0x40000000]
    else:
        pick += [0xffffffff if size == 4 else 300, 0xfffffffe if size == 4
                 else 37]
    return int(pick[rng.integers(len(pick))]) % (1 << (8 * size))


def noise_bytes(rng, n):
    b = rng.integers(0, 200, n).astype(np.uint8)
    return b.tobytes()


def mutate(data, how, seed, version, record, case, ctx):
    rng = np.random.default_rng(seed)
    n = len(data)
    if not n:
        return data
    ctx.tag(how)
    head = 4096 if version in (1, 2) else 16
    if how == 'truncate':
        at = int(rng.integers(n))
        if rng.random() < .4:
            at = min(n - 1, int(rng.integers(max(1, n // record))) * record +
                     int(rng.choice([0, 1, head - 1, head, head + 1])))
        return data[:at]
    if how == 'field':
        base = int(rng.integers(max(1, n // record))) * record
        fields = FIELDS[1 if version in (1, 2) else 3]
        for _ in range(int(rng.integers(1, 4))):
            off, size = fields[rng.integers(len(fields))]
            if version in (1, 2) and rng.random() < .5:
                off = int(rng.choice([0, 4, 8, 12]))
            v = value(rng, size, case['extreme'])
            b = struct.pack('<I' if size == 4 else '<H', v)
            if base + off + size <= n:
                data = data[:base + off] + b + data[base + off + size:]
        return data
    at = int(rng.integers(n))
    k = int(rng.choice([1, 2, 3, 16, 100, 5000]))
    if how == 'overwrite':
        # (not headers when sizes have to stay small)
        if not case['extreme'] and at % record < head:
            at += head
        return (data[:at] + noise_bytes(rng, k) + data[at + k:])[:n]
    if how == 'insert':
        if not case['extreme']:
            # what follows becomes a header: bytes of small numbers
            k = int(rng.choice([2, 4, 6, 16, 100]))
            return data[:at // 2 * 2] + b'\x01\x00' * (k // 2) + \
                data[at // 2 * 2:]
        return data[:at] + noise_bytes(rng, k) + data[at:]
    if how == 'delete':
        if not case['extreme']:
            at, k = at // 2 * 2, k * 2
        return data[:at] + data[at + k:]
    if how == 'repeat':
        i = int(rng.integers(max(1, n // record)))
        rec = data[i * record:(i + 1) * record]
        return data[:n // record * record] + rec + data[n // record * record:]
    return data


def clean(name, a, ctx):
    """Memory that was never written to does not reach the caller."""
    a = np.ascontiguousarray(a)
    ctx.tag('returned')
    ctx.count('values', a.size)
    if not a.size:
        return
    raw = a.view(np.uint8).reshape(-1, a.dtype.itemsize)
    bad = (raw == FILL).all(1)
    if a.dtype.itemsize > 1 and bad.any():
        i = int(np.argmax(bad))
        raise Violation(f'uninitialised:{name}', f'{int(bad.sum())} of '
                        f'{a.size} values are the fill pattern, first at {i}')


def damaged(case, ctx):
    from stempy import _image, io
    from stempy.image import (calculate_average, create_stem_images,
                              electron_count, maximum_diffraction_pattern,
                              radial_sum)
    rng = np.random.default_rng(case['seed'])
    d = ctx.tmpdir()
    kind = case['kind']
    ctx.tag(kind)
    if case['extreme']:
        ctx.tag('extreme')
    h5 = None
    scan = (int(rng.integers(1, 5)), int(rng.integers(1, 5)))
    frame = (576, 576)
    version = int(kind[1]) if kind[0] == 'v' else 0
    if kind == 'array' or kind == 'hdf5':
        make = array_reader if kind == 'array' else hdf5_reader
        open_it = make(case, ctx, rng, d, scan)
    else:
        paths = raw_files(case, ctx, rng, d, version, scan)
        v = version
        if case['wrong']:
            v = case['wrong']
            ctx.tag('wrong-version')
        opts = {}
        if v in (4, 5):
            if case['backend'] != 'none':
                opts = dict(backend=case['backend'], threads=case['threads'])

        def open_it():
            return io.reader(paths, v, **opts)
        # A sector that the detector does not have is nobody's data
        if v in (4, 5):
            for x in paths:
                m = re.search(r'module(\d+).*\.data', x[len(d):])
                if not m or int(m[1]) > 3:
                    try:
                        open_it()
                    except Exception:
                        ctx.tag('sector-refused')
                        break
                    raise Violation('sector-accepted', 'a reader accepted '
                                    f'{os.path.basename(x)}')
    ok = (Exception,)
    r = None
    for op in case['ops'] + ['read']:
        try:
            r = open_it()
        except ok:
            ctx.tag('raised')
            if r is None and op == 'read':
                break
            continue
        seq = not hasattr(r, 'read_frames') and \
            not isinstance(r, io.SectorThreadedReader)
        kw = dict(scan_dimensions=scan) if case['dims'] else {}
        try:
            if op == 'read' and seq:
                total = 0
                for b in r:
                    n = b.header.images_in_block
                    w, h = b.header.frame_dimensions
                    require(b.data.shape == (n, h, w), 'block-shape',
                            (b.data.shape, n, h, w))
                    require(len(b.header.image_numbers) >= n, 'numbers')
                    clean('block', b.data, ctx)
                    clean('image-numbers',
                          np.array(b.header.image_numbers[:n], np.uint32), ctx)
                    total += n
                    if total > 5000:
                        break
                ctx.tag('sequential')
            elif op == 'stem' and seq:
                a = create_stem_images(r, [0, 10], [20, 300], **kw)
                clean('stem', a, ctx)
                if kw:
                    require(a.shape == (2, scan[1], scan[0]), 'stem-shape',
                            a.shape)
                ctx.tag('stem')
            elif op == 'radial' and seq:
                a = np.array(radial_sum(r, **kw))
                clean('radial', a, ctx)
                ctx.tag('radial')
            elif op == 'average' and seq:
                clean('average', np.array(calculate_average(r)), ctx)
                ctx.tag('average')
            elif op == 'maximum' and seq:
                clean('maximum', np.array(maximum_diffraction_pattern(r)), ctx)
            elif op == 'count' and not seq:
                got = electron_count(r, np.zeros((576, 576)),
                                     number_of_samples=2,
                                     threshold_num_blocks=1, **kw)
                ctx.count('positions', got.data.shape[0])
                for row in got.data[:200]:
                    for e in row:
                        clean('events', np.asarray(e), ctx)
                        if len(e):
                            require(int(np.max(e)) < 576 * 576, 'event-range')
                ctx.tag('count', case['backend'])
            elif op == 'classic' and seq:
                o = _image.ElectronCountOptionsClassic()
                o.background_threshold, o.x_ray_threshold = 30., 100.
                if kw:
                    o.scan_dimensions = scan
                got = _image.electron_count(r.begin(), r.end(), o)
                for row in got.data[:200]:
                    for e in row:
                        clean('events', np.array(e), ctx)
                ctx.tag('classic')
            elif op == 'frames' and hasattr(r, 'read_frames'):
                n = int(np.prod(r.scan_shape))
                for k in [0, n - 1, n, int(rng.integers(max(1, n)))]:
                    try:
                        for b in r.read_frames(int(k)):
                            clean('frame', b.data, ctx)
                            require(b.data.shape == (576, 576), 'frame-shape')
                    except ok:
                        pass
                ctx.tag('frames')
            elif op == 'headers' and hasattr(r, 'read_frames'):
                ctx.count('frames_per_scan', int(r.num_frames_per_scan))
                ctx.tag('headers')
            elif op == 'captured' and hasattr(r, 'data_captured'):
                float(r.data_captured())
            elif op == 'hdf5' and isinstance(r, io.SectorReader):
                fmt = io.SectorReader.H5Format
                io.write_hdf5(os.path.join(d, 'out.h5'), r,
                              fmt.Frame if case['seed'] % 2 else fmt.DataCube)
                ctx.tag('to-hdf5')
            elif op == 'thresholds' and seq:
                it = iter(r)
                blocks = [b for b, _ in zip(it, range(3))]
                if len({b.data.shape[1:] for b in blocks}) == 1:
                    _image.calculate_thresholds(
                        [b._block for b in blocks],
                        np.zeros(blocks[0].data.shape[1:], np.float32), 2, 4.,
                        10.)
        except Violation:
            raise
        except ok as e:
            ctx.tag('raised')
            ctx.count('raised')
        ctx.count('operations')
        r = True
    ctx.nontrivial(case)


def raw_files(case, ctx, rng, d, version, scan):
    n = scan[0] * scan[1]
    frames = None
    paths = []
    if version in (1, 2):
        side = [576, 576] if version == 2 else \
            [int(rng.integers(1, 20)), int(rng.integers(1, 20))]
        for k in range(int(rng.integers(1, 3))):
            data = b''
            for _ in range(int(rng.integers(1, 4))):
                m = int(rng.integers(1, 5))
                f = rng.integers(0, 60, (m, *side)).astype(np.uint16)
                if version == 1:
                    data += files.v1_block(f, rng.integers(0, n, m))
                else:
                    data += np.array([m, *side, 2, 0] + [0] * 1019,
                                     '<u4').tobytes()[:4096] + \
                        f.astype('<u2').tobytes()
            record = 4096 + 2 * m * side[0] * side[1]
            paths.append((f'x{k}.dat', data, record))
    elif version == 3:
        data = b''
        for pos in rng.permutation(n)[:3]:
            f = rng.integers(0, 60, (576, 576)).astype(np.uint16)
            data += files.v3_block(f, scan, int(pos))
        paths.append(('x.dat', data, 16 + 2 * 576 * 576))
    else:
        lay = dict(version=version, scan=list(scan),
                   frames=[[int(p), i, [s for s in range(4)
                                        if rng.random() < .95]]
                           for i, p in enumerate(rng.permutation(n)[:4])],
                   nfiles=[1, 1, 1, int(rng.integers(1, 3))],
                   shuffle='shuffled', empty=False, content='small',
                   seed=case['seed'])
        fs = files.write(lay, d)
        for p in fs.paths:
            with open(p, 'rb') as f:
                paths.append((os.path.basename(p), f.read(), files.RECORD))
            os.unlink(p)
    for how, seed in case['muts']:
        k = seed % len(paths)
        name, data, record = paths[k]
        if how == 'name':
            if version < 4:
                data = data[:seed % (len(data) + 1)]
            else:
                new = ['7', '4', '12', '', '-1', 'x', '9' * 25, '3', '0'][
                    seed % 9]
                name = f'n{k}_' + re.sub(r'module\d+', f'module{new}', name)
                ctx.tag('name')
        else:
            data = mutate(data, how, seed, version, record, case, ctx)
        paths[k] = (name, data, record)
    out = []
    for name, data, _ in paths:
        p = os.path.join(d, name)
        with open(p, 'wb') as f:
            f.write(data)
        out.append(p)
    x = case['seed'] % 40
    if x == 0:
        out.append(os.path.join(d, 'missing_module1.data'))
    elif x == 1:
        os.mkdir(os.path.join(d, 'dir_module1.data'))
        out.append(os.path.join(d, 'dir_module1.data'))
    elif x == 2:
        out = []
    return out


def bad_numbers(rng, n, positions):
    k = str(rng.choice(['fine', 'outside', 'short', 'long', 'huge']))
    nums = rng.permutation(max(n, positions))[:n]
    if k == 'outside':
        nums[rng.integers(n)] = positions + int(rng.integers(50))
    elif k == 'short':
        nums = nums[:-1]
    elif k == 'long':
        nums = np.append(nums, [1, 2, 3])
    elif k == 'huge':
        nums = nums.astype(np.int64)
        nums[rng.integers(n)] = 0xffffffff
    return nums


def bad_array(rng, n):
    shape = [(n, 5, 7), (n, 5), (n,), (n, 5, 7, 2), (0, 5, 7), (n, 0, 7),
             (n, 5, 0), (n, 5, 7), (n, 5, 7)][rng.integers(9)]
    dt = ['<u2', '>u2', 'u1', 'f8', 'i4', '?'][rng.integers(6)]
    return rng.integers(0, 60, shape).astype(dt)


def array_reader(case, ctx, rng, d, scan):
    from stempy import io
    n = int(rng.integers(1, 12))
    a = bad_array(rng, n)
    nums = bad_numbers(rng, n, scan[0] * scan[1])
    total = n + int(rng.choice([0, 0, 0, 1, 40, -1]))
    block = int(rng.choice([1, 3, 100]))

    def open_it():
        return io.PyReader(a, nums, scan, block, total)
    return open_it


def hdf5_reader(case, ctx, rng, d, scan):
    import h5py

    from stempy import io
    n = int(rng.integers(1, 12))
    p = os.path.join(d, 'x.h5')
    with h5py.File(p, 'w') as f:
        f['frames'] = bad_array(rng, n)
        how = rng.integers(6)
        if how < 3:
            f['frames'].attrs['scan_dimensions'] = scan
        elif how == 3:
            f['frames'].attrs['scan_dimensions'] = [
                [3], [0, 0], [2, 3, 4], [-1, 4], [1.5, 2.5]][rng.integers(5)]
        elif how == 4:
            f['stem/images'] = np.zeros([(2, 3), (1, 2, 2), (0, 0, 0)][
                rng.integers(3)])
        if rng.random() < .6:
            f['scan_positions'] = bad_numbers(rng, n, scan[0] * scan[1])
    if rng.random() < .2:
        # cut the file itself
        with open(p, 'r+b') as f:
            f.truncate(int(rng.integers(os.path.getsize(p))))
    keep = []

    def open_it():
        f = h5py.File(p, 'r')
        keep.append(f)
        return io.reader(f)
    return open_it
