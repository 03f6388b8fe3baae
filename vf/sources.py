"""The same frames behind every kind of iterator reader."""
import os

import numpy as np

from vf import files
from vf.api import call

KINDS = ['array', 'hdf5', 'stream1', 'stream3', 'sector']
SQUARE = ('stream3', 'sector')


def gen(rng, kinds=None, max_frames=40, max_side=40, absent=0.3, min_side=3,
        duplicates=0.0, big=4, large=0.0, crowd=False):
    """large: probability of numbers that do not fit into one or two bytes:
    of scan positions, of frames in a block, of pixels in a row or a frame."""
    kind = str(rng.choice(kinds or KINDS, p=None if kinds else
                          [.3, .2, .3, .1, .1]))
    w, h = int(rng.integers(1, 8)), int(rng.integers(1, 8))
    if kind in SQUARE:
        side = [576, 576]
        w, h = min(w, 3), min(h, 3)
        max_frames = big
    else:
        side = [int(rng.integers(min_side, max_side)),
                int(rng.integers(min_side, max_side))]
        if rng.random() < .2:
            side[1] = side[0]
    large = large and rng.random() < large and \
        str(rng.choice(['scan', 'many', 'wide']))
    if large and crowd and rng.random() < .15 and kind in ('array', 'hdf5',
                                                           'stream1'):
        # More frames than 16 bits count
        large = 'crowd'
        w, h = [(260, 253), (70000, 1), (3, 22000)][int(rng.integers(3))]
        side = [max(min_side, int(rng.integers(1, 4))) for _ in range(2)]
        max_frames, absent, duplicates = 70000, 0, 0
    if large == 'scan':
        w, h = [(300, 260), (2, 40000), (65535, 2), (17, 16), (1, 300)][
            int(rng.integers(5))]
        max_frames = min(max_frames, 12)
    elif large == 'many' and kind not in SQUARE:
        w, h = [(17, 20), (25, 40), (1, 300)][int(rng.integers(3))]
        side = [max(min_side, int(rng.integers(1, 6))) for _ in range(2)]
        max_frames = 1000
    elif large == 'wide' and kind not in SQUARE:
        side = [[1, 300], [300, 2], [3, 70000], [70000, 3], [300, 260],
                [40000, 4]][int(rng.integers(6))]
        side = [max(min_side, x) for x in side]
        if side[0] * side[1] > 300000:
            side = [300, 260]
        max_frames = min(max_frames, 5)
    npos = w * h
    order = rng.permutation(npos) if rng.random() < .6 else np.arange(npos)
    if large == 'scan':
        edge = [x for x in (0, 255, 256, 32768, 65535, 65536, npos - 1)
                if x < npos]
        order = np.array(sorted(set(edge) | set(order[:5].tolist())))
        if rng.random() < .6:
            order = rng.permutation(order)
    n = len(order) if rng.random() > absent else \
        int(rng.integers(1, len(order) + 1))
    pos = [int(x) for x in order[:min(n, max_frames)]]
    # (the sector reader is for one frame per position)
    if duplicates and kind != 'sector' and rng.random() < duplicates and len(pos) > 1:
        k = int(rng.integers(1, len(pos) + 1))
        pos = (pos + [int(x) for x in rng.choice(pos, k)])[:max_frames + 10]
        rng.shuffle(pos)
        pos = [int(x) for x in pos]
    return dict(kind=kind, scan=[w, h], pos=pos, side=side,
                large=large or None,
                block=int(rng.choice([300, 1000, 7])) if large in ('many', 'crowd')
                else int(rng.choice([1, 2, 3, 5, 32])),
                blocks=[int(x) for x in rng.choice(
                    [300, 1014, 100] if large in ('many', 'crowd')
                    else
                    [1, 2, 3, 7, 20], 64)],
                files=int(rng.choice([1, 1, 2, 3])),
                zip=bool(rng.random() < .3), version=int(rng.choice([4, 5])),
                seed=int(rng.integers(1 << 31)))


class Source:
    """reader, header_scan: whether the data names the scan dimensions."""

    def close(self):
        if self.h5:
            self.h5.close()
        for p in self.paths:
            os.unlink(p)


def open_source(src, frames, d):
    """frames: (n, h, w) uint16, at positions src['pos']."""
    from stempy import io
    s = Source()
    s.h5, s.paths = None, []
    n = len(src['pos'])
    pos = np.array(src['pos'], np.uint32)
    scan = tuple(src['scan'])
    kind = src['kind']
    s.header_scan = kind != 'stream1'
    if kind == 'array':
        s.reader = call('PyReader', io.PyReader, frames, pos, scan,
                        src['block'], n)
    elif kind == 'hdf5':
        import h5py
        p = os.path.join(d, 'raw.h5')
        kw = {}
        if list(pos) != list(range(n)) or src['seed'] % 2:
            kw['scan_positions'] = pos
        call('save_raw_data', io.save_raw_data, p, frames,
             scan_dimensions=scan, zip_data=src['zip'], **kw)
        s.h5 = h5py.File(p, 'r')
        s.paths.append(p)
        s.reader = call('reader', io.reader, s.h5)
    elif kind == 'stream1':
        nf = src['files']
        paths = [os.path.join(d, f'part{i}.dat') for i in range(nf)]
        handles = [open(p, 'wb') for p in paths]
        k, b = 0, 0
        sizes = []
        while k < n:
            m = min(src['blocks'][b % 64], n - k)
            sizes.append(m)
            handles[min(nf - 1, k * nf // n)].write(
                files.v1_block(frames[k:k + m], pos[k:k + m]))
            k += m
            b += 1
        for f in handles:
            f.close()
        s.sizes = sizes
        s.paths += paths
        s.reader = call('reader', io.reader, paths if nf > 1 or
                        src['seed'] % 2 else paths[0], 1)
    elif kind == 'stream3':
        p = os.path.join(d, 'v3.dat')
        with open(p, 'wb') as f:
            for i in range(n):
                f.write(files.v3_block(frames[i], scan, int(pos[i])))
        s.paths.append(p)
        s.reader = call('reader', io.reader, p, 3)
    elif kind == 'sector':
        lay = dict(version=src['version'], scan=src['scan'],
                   frames=[[int(p), i, [0, 1, 2, 3]]
                           for i, p in enumerate(pos)],
                   nfiles=[1, 1, src['files'], 1], shuffle='shuffled',
                   empty=False, content='small', seed=src['seed'])
        fs = files.write(lay, d, frames)
        s.paths += fs.paths
        s.reader = call('reader', io.reader, fs.paths, src['version'])
    return s
