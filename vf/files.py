"""Writes raw detector files from a JSON description, and the model of what they
hold (independent of stempy)."""
import os
import struct

import numpy as np

SIDE = 576
SECT = 144
DATA = SIDE * SECT * 2
HEAD = 16
RECORD = HEAD + DATA
FIRST = {4: (lambda s: (slice(None), slice(s * SECT, (s + 1) * SECT))),
         5: (lambda s: (slice(s * SECT, (s + 1) * SECT), slice(None)))}


def gen_layout(rng, version=None, scan=None, fpp=1, missing=0.0, absent=0.15,
               max_frames=14, content=None, unique=False, big=0.0, long=0.0,
               crowd=0.0, crowd_frames=0.0):
    """A set of sector files: which (position, frame, sector) is in which file
    at which place.  big: probability of a scan with more positions than fit
    into one or two bytes, with a few frames.  long: probability of a file of
    several GB, most of it a hole: records of zeros, that is of frame 0 of
    position 0 (only for the multi-pass reader; see write).  crowd: probability
    of more than 256 records, of 66 to 90 positions; crowd_frames: of one
    position with more than 256 frames."""
    x = rng.random()
    if x < crowd:
        lay = gen_layout(rng, version, [[9, 9], [5, 18], [70, 1], [2, 33]][
            int(rng.integers(4))], 1, missing if missing < .2 else 0, .02, 90,
            'stamp', unique)
        return lay
    if x < crowd + crowd_frames:
        lay = gen_layout(rng, version, None, 1, 0, .15, 4, 'stamp')
        s = [int(x) for x in rng.choice(4, int(rng.choice([1, 1, 2])), False)]
        pos = lay['frames'][0][0]
        base = int(rng.choice([0, 1, 65400, (1 << 31) - 150]))
        lay['frames'] = [f for f in lay['frames'] if f[0] != pos] + [
            [pos, base + k, s] for k in range(int(rng.choice([130, 258, 300])))]
        lay['shuffle'] = str(rng.choice(['sorted', 'shuffled', 'block']))
        return lay
    version = int(version or rng.choice([4, 5]))
    if scan is None:
        while True:
            scan = [int(rng.integers(1, 6)), int(rng.integers(1, 6))]
            if scan[0] * scan[1] <= 16:
                break
    big = bool(big) and rng.random() < big
    if big:
        scan = [[17, 16], [1, 300], [300, 1], [300, 260], [260, 257],
                [2, 40000], [65535, 1], [33000, 2]][int(rng.integers(8))]
    npos = scan[0] * scan[1]
    frames = []
    if big:
        edge = [x for x in (0, 127, 128, 255, 256, 32767, 32768, 65535, 65536,
                            npos - 1) if x < npos]
        order = set(int(x) for x in rng.choice(edge, min(4, len(edge)), False))
        order |= set(int(x) for x in rng.integers(0, npos, 3))
        order = list(rng.permutation(sorted(order)))
    else:
        order = list(rng.permutation(npos))
    if npos > 1 and not big:
        k = int(round(npos * absent * rng.random() * 2))
        order = order[:max(1, npos - k)]
    for pos in order:
        n = 1 if fpp == 1 else int(rng.integers(1, fpp + 1))
        step = int(rng.choice([1, 1, 3]))
        base = int(rng.choice([0, 0, 1, 7, 1000, 65534, (1 << 31) - 2,
                               (1 << 32) - 14]))
        nums = [base + step * j for j in range(n)]
        assert nums[-1] < 1 << 32
        for fn in nums:
            sectors = [s for s in range(4) if rng.random() >= missing]
            if sectors:
                frames.append([int(pos), int(fn), sectors])
    if not frames:
        frames.append([int(order[0]), 0, [0, 1, 2, 3]])
    frames = frames[:max_frames]
    if unique:
        # as detectors number them; the single-pass backend relies on it
        fn = int(rng.choice([0, 1, 1000, 65530, (1 << 31) - 5,
                             (1 << 32) - 100]))
        apart = rng.random() < .15
        if apart:
            # numbers that are the same in one or two bytes
            fn = int(rng.integers(1 << 16))
        for f in frames:
            f[1] = fn
            fn += 65536 if apart else int(rng.choice([1, 1, 1, 5]))
    if rng.random() < 0.5:
        frames.sort()
    nfiles = [int(rng.choice([1, 1, 2, 3])) for _ in range(4)]
    jump = None
    if long and rng.random() < long and len(frames) > 1:
        jump = int(rng.choice([31, 32, 32, 32])), int(rng.integers(1, 4))
        for f in frames:
            f[1] = max(1, f[1] + 1 if f[1] < 1 << 20 else f[1])
        frames[0][2] = frames[-1][2] = [0, 1, 2, 3]
    return dict(version=version, scan=scan, frames=frames, nfiles=nfiles,
                scan_num=int(rng.choice([1, 1, 0, 70000, (1 << 32) - 1])),
                shuffle=str(rng.choice(['sorted', 'shuffled', 'block'])),
                empty=bool(rng.random() < 0.15), long=jump,
                content=content or str(rng.choice(['random', 'ramp', 'small',
                                                   'extreme'])),
                seed=int(rng.integers(1 << 31)))


def content(mode, rng, n):
    """n frames of raw pixels."""
    shape = (n, SIDE, SIDE)
    if mode == 'stamp':
        # cheap: one value in every part of every sector
        a = np.zeros(shape, np.uint16)
        a[:, ::SECT, ::SECT] = rng.permutation(60000)[:n, None, None] + \
            np.arange(1, 17).reshape(4, 4)
        return a
    if mode == 'random':
        return rng.integers(0, 1 << 16, shape, dtype=np.uint16)
    if mode == 'small':
        return rng.integers(0, 40, shape, dtype=np.uint16)
    if mode == 'extreme':
        return np.where(rng.random((n, SIDE, 1)) < 0.5,
                        np.uint16(65535), np.uint16(0)) * \
            rng.integers(0, 2, shape, dtype=np.uint16)
    if mode == 'ramp':
        a = np.arange(SIDE * SIDE, dtype=np.uint32).reshape(SIDE, SIDE)
        k = rng.integers(1, 60000, n)
        return ((a[None] * 7 + k[:, None, None]) % 65521).astype(np.uint16)
    raise ValueError(mode)


def header(scan, pos, fn, scan_num=1):
    return struct.pack('<IIHHHH', scan_num, fn, scan[0], scan[1],
                       pos % scan[0], pos // scan[0])


def sector_data(frame, version, s):
    return np.ascontiguousarray(frame[FIRST[version](s)]).tobytes()


class FileSet:
    """paths (in the order to pass), full[(pos, fn)] = frame as stored,
    with zeros for missing sectors, sectors[(pos, fn)] = set of sectors."""


def write(lay, d, pixels=None, name='data'):
    """Writes the files; pixels: optional array (n frames, 576, 576)."""
    rng = np.random.default_rng(lay['seed'])
    n = len(lay['frames'])
    if pixels is None:
        pixels = content(lay['content'], rng, n)
    fs = FileSet()
    fs.full, fs.sectors, fs.raw = {}, {}, {}
    v = lay['version']
    files = {(s, k): [] for s in range(4) for k in range(lay['nfiles'][s])}
    order = np.arange(n)
    for s in range(4):
        k = lay['nfiles'][s]
        if lay['shuffle'] == 'shuffled':
            order = rng.permutation(n)
        idx = [i for i in order if s in lay['frames'][i][2]]
        for j, i in enumerate(idx):
            if lay['shuffle'] == 'block':
                f = j * k // max(1, len(idx))
            else:
                f = int(rng.integers(k))
            files[s, f].append(i)
    fs.records = {}
    paths = []
    # The file with the most records has a hole after its first ones
    jump = lay.get('long')
    holed = max(files, key=lambda x: len(files[x])) if jump else None
    # Where detectors put their files; only the file's own name says which
    # sector it holds
    style = np.random.default_rng([lay['seed'], 5])
    fs.style = str(style.choice(['flat', 'flat', 'flat', 'nodes', 'modules',
                                 'long', 'padded']))
    for (s, k), idx in files.items():
        sub, tail = '', f'part{k}'
        if fs.style == 'nodes':
            sub = f'node{(s + k) % 3}'
        elif fs.style == 'modules':
            sub = f'module{int(style.integers(4))} test.data/run {k}'
        elif fs.style == 'long':
            tail = f'part{k + 1:04}_of_{lay["nfiles"][s]:04}'
        if sub:
            os.makedirs(os.path.join(d, sub), exist_ok=True)
        p = os.path.join(d, sub, f'{name}_scan1_module'
                         f'{"0" * (fs.style == "padded")}{s}_{tail}.data')
        with open(p, 'wb') as f:
            for j, i in enumerate(idx):
                if (s, k) == holed and j == (len(idx) + 1) // 2:
                    f.seek(((1 << jump[0]) // RECORD + jump[1]) * RECORD)
                pos, fn, _ = lay['frames'][i]
                f.write(header(lay['scan'], pos, fn, lay.get('scan_num', 1)))
                f.write(sector_data(pixels[i], v, s))
        fs.records[p] = [(s, i) for i in idx]
        paths.append(p)
    if lay.get('empty'):
        p = os.path.join(d, f'{name}_scan1_module{int(rng.integers(4))}_e.data')
        open(p, 'wb').close()
        fs.records[p] = []
        paths.append(p)
    fs.paths = [paths[i] for i in rng.permutation(len(paths))]
    for i, (pos, fn, sectors) in enumerate(lay['frames']):
        full = np.zeros((SIDE, SIDE), np.uint16)
        for s in sectors:
            full[FIRST[v](s)] = pixels[i][FIRST[v](s)]
        fs.full[pos, fn] = full
        fs.sectors[pos, fn] = set(sectors)
        fs.raw[pos, fn] = pixels[i]
    if jump and len(files[holed]) > 1:
        fs.full[0, 0] = fs.raw[0, 0] = np.zeros((SIDE, SIDE), np.uint16)
        fs.sectors[0, 0] = {holed[0]}
    fs.scan = lay['scan']
    return fs


def cleanup(fs):
    for p in fs.paths:
        try:
            os.unlink(p)
        except OSError:
            pass


# -- stream files (versions 1 to 3) ------------------------------------------

def v1_block(frames, image_numbers, version=1, timestamp=0, reserved=0):
    n, rows, cols = frames.shape
    h = np.zeros(1024, np.uint32)
    h[:5] = [n, rows, cols, version, timestamp]
    h[5:10] = reserved
    h[10:10 + n] = np.asarray(image_numbers, np.uint32) + 1
    return h.astype('<u4').tobytes() + \
        np.ascontiguousarray(frames, '<u2').tobytes()


def v3_block(frame, scan, pos, scan_num=1, fn=0):
    return header(scan, pos, fn, scan_num) + \
        np.ascontiguousarray(frame, '<u2').tobytes()
