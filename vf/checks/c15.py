"""C15: sector data converted to HDF5 keeps every frame at its place."""
import os
import shutil

import numpy as np

from vf import files
from vf.api import call, equal, refused, require

ID = 'C15'
PHASES = [dict(variant='plain', count=dict(quick=2400, thorough=40000))]
RULE = ('Random v4/v5 sector file sets (split, shuffled, missing sectors, '
        'absent positions, non-square scans) are written with write_hdf5 in '
        'Frame and DataCube format, from fresh, reset and reused sequential '
        'readers, to new and existing files. Shape, attributes and every '
        'pixel are compared, through h5py, with the frames in the sector '
        'files; the Frame file is opened with stempy.io.reader and its blocks '
        'and STEM images are compared with those of the sector files. '
        'Non-trivial: distinct layouts with at least one frame.')
REQUIRED = ['frame', 'datacube', 'v4', 'v5', 'nonsquare-scan', 'partial',
            'absent-position', 'reset', 'overwritten', 'stem', 'split-files',
            'default-format', 'both', 'unwritable', 'large-scan']
ASSUMPTIONS = ['At most one frame per scan position.',
               'The reader has not been read from, or has been reset.']


def gen(rng, i, tier, phase):
    lay = files.gen_layout(rng, big=.02, missing=float(rng.choice([0, .1, .5])),
                           absent=float(rng.choice([0, .15, .4])),
                           max_frames=8)
    return dict(lay=lay, ops=[str(x) for x in rng.choice(
        ['frame', 'datacube'], int(rng.integers(1, 4)))],
        first=int(rng.choice([0, 0, 1, 2, 50])), over=bool(rng.random() < .4),
        bad=bool(rng.random() < .2), seed=int(rng.integers(1 << 31)))


def run(case, ctx):
    import h5py

    from stempy import io
    from stempy.image import create_stem_images
    lay = case['lay']
    d = ctx.tmpdir()
    fs = files.write(lay, d)
    w, h = lay['scan']
    v = lay['version']
    at = {pos: a for (pos, _), a in fs.full.items()}
    large = w * h > 100
    if not large:
        want = np.zeros((w * h, 576, 576), np.uint16)
        for pos, a in at.items():
            want[pos] = a
    elif max(at) > 65535:
        ctx.tag('large-scan')
    fmt = io.SectorReader.H5Format
    reader = call('reader', io.reader, fs.paths, v)
    if case['first']:
        for _ in range(case['first']):
            reader.read()
        reader.reset()
        ctx.tag('reset')
    if case['bad']:
        refused('write_hdf5', io.write_hdf5,
                os.path.join(d, 'no', 'such', 'dir.h5'), reader)
        reader.reset()
        ctx.tag('unwritable')
    for k, op in enumerate(case['ops']):
        if k:
            reader.reset()
        over = case['over']
        p = os.path.join(d, f'out{0 if over else k}.h5')
        if over and k == 0:
            with h5py.File(p, 'w') as f:
                f['frames'] = np.ones((3, 4))
                f['other'] = 1
        if over:
            ctx.tag('overwritten')
        if op == 'frame' and case['seed'] % 2:
            call('write_hdf5', io.write_hdf5, p, reader)
            ctx.tag('default-format')
        else:
            call('write_hdf5', io.write_hdf5, p, reader,
                 fmt.Frame if op == 'frame' else fmt.DataCube)
        with h5py.File(p, 'r') as f:
            if op == 'frame':
                ds = f['frames']
                require(ds.dtype == np.uint16, 'dtype', ds.dtype)
                if large:
                    sampled(ds, at, (w * h,), lambda q: q)
                else:
                    equal('frames', ds[()], want)
                equal('scan_dimensions', ds.attrs['scan_dimensions'], (w, h))
                require('datacube' not in f and 'other' not in f, 'leftover')
                if not large:
                    check_reader(case, ctx, f, fs, v, want, (w, h), io,
                                 create_stem_images)
            else:
                ds = f['datacube']
                require(ds.dtype == np.uint16, 'dtype', ds.dtype)
                if large:
                    sampled(ds, at, (w, h), lambda q: (q % w, q // w))
                else:
                    equal('datacube', ds[()], want.reshape(h, w, 576, 576)
                          .transpose(1, 0, 2, 3))
                require('frames' not in f and 'other' not in f, 'leftover')
        ctx.tag(op)
        ctx.count('frames', len(fs.full))
        if k and not over:
            os.unlink(p)
    if len(set(case['ops'])) > 1:
        ctx.tag('both')
    ctx.tag(f'v{v}')
    if w != h:
        ctx.tag('nonsquare-scan')
    if any(len(s) < 4 for s in fs.sectors.values()):
        ctx.tag('partial')
    if len(fs.full) < w * h:
        ctx.tag('absent-position')
    if max(lay['nfiles']) > 1:
        ctx.tag('split-files')
    ctx.nontrivial(case)
    shutil.rmtree(d)


def sampled(ds, at, shape, where):
    """The frames, those beside them and those one or two bytes away."""
    n = int(np.prod(shape))
    require(ds.shape == shape + (576, 576), 'shape', ds.shape)
    for q in {x for p in at for x in (p, p - 1, p + 1, p % 256, p % 65536)
              if 0 <= x < n}:
        equal('large', ds[where(q)], at.get(q, np.zeros((576, 576), int)),
              f'position {q}')


def check_reader(case, ctx, f, fs, v, want, scan, io, create_stem_images):
    r = call('reader', io.reader, f)
    pos = 0
    for b in r:
        k = b.header.images_in_block
        require(list(b.header.image_numbers) ==
                list(range(pos, pos + k)), 'image-numbers')
        require(tuple(b.header.scan_dimensions) == scan, 'reader-scan')
        equal('reader-frames', b.data, want[pos:pos + k])
        pos += k
    require(pos == len(want), 'reader-count', (pos, len(want)))
    if case['seed'] % 3 == 0:
        r.reset()
        args = ([0, 40, 100], [288, 288, 130])
        a = call('create_stem_images', create_stem_images, r, *args)
        s = call('reader', io.reader, fs.paths, v)
        b = call('create_stem_images', create_stem_images, s, *args)
        equal('stem', a, b)
        ctx.tag('stem')
