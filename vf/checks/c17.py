"""C17: version 1 and 2 electron count files."""
import os

import numpy as np

from vf import sparse
from vf.api import call, equal, require

ID = 'C17'
PHASES = [dict(variant='none', timeout=400, count=dict(quick=8000, thorough=300000))]
RULE = ('Version 1 files (no version attribute or 1; one list per position, '
        'duplicates allowed) and version 2 files (several rows per position '
        'in any order, positions without a row) written directly with h5py '
        'are loaded; the dense form is compared with the occurrences in the '
        'file, and each frame is checked for duplicates. Non-trivial: the '
        'file has at least one event.')
REQUIRED = ['v1', 'v1-duplicates', 'v1-noattr', 'v2', 'v2-extra', 'v2-missing',
            'v2-shuffled', 'equal-extra', 'nonsquare-scan', 'nonsquare-frame',
            'triple', 'unsorted', 'flyback', 'large-scan', 'heap']


def gen(rng, i, tier, phase):
    if i % 2000 == 11:
        # a scan with more positions than two bytes can count
        return dict(version=1 + i // 2000 % 2, scan=[[300, 230], [1, 66000],
                                                     [5000, 14]][i // 4000 % 3],
                    frame=[8, 9], dup='rare',
                    rows='extra', shuffle=bool(rng.random() < .5), attr=True,
                    order=False, dtype='u4', seed=int(rng.integers(1 << 30)))
    return dict(version=int(rng.choice([1, 2])), scan=sparse.rand_shape(rng, 1, 5),
                frame=sparse.rand_shape(rng, 1, 6),
                dup=str(rng.choice(['none', 'few', 'few', 'many', 'many',
                                       'each-once', 'heap'])),
                rows=str(rng.choice(['one', 'extra', 'missing'])),
                shuffle=bool(rng.random() < 0.5), attr=bool(rng.random() < 0.5),
                order=bool(rng.random() < 0.5),
                dtype=str(rng.choice(['u4', 'u4', 'u2', 'i4', 'i8', 'u8'])),
                seed=int(rng.integers(1 << 30)))


def run(case, ctx):
    import h5py
    from stempy.io import load_electron_counts
    rng = np.random.default_rng(case['seed'])
    scan, frame = case['scan'], case['frame']
    n, size = int(np.prod(scan)), int(np.prod(frame))
    rows, pos = [], []
    none = np.zeros(0, np.int64)
    if n > 65535:
        ctx.tag('large-scan')
    if case['version'] == 1:
        for i in range(n):
            if case['dup'] == 'rare':
                # events in few frames, duplicates only near the end
                ev = none
                if i % 997 == 0 or i > n - 5:
                    ev = rng.choice(size, 3, False)
                if i == n - 2:
                    ev = np.repeat(ev, [3, 1, 2])
            elif case['dup'] == 'heap':
                # up to a few hundred times the same event, also in the
                # short frames of a tiny detector
                ev = np.repeat(rng.choice(size, min(size, 2), False),
                               rng.choice([1, 2, 127, 128, 129, 255, 256, 257,
                                           300], min(size, 2)))
                ctx.tag('heap')
            elif case['dup'] == 'none':
                ev = rng.choice(size, int(rng.integers(0, size + 1)), False)
            elif case['dup'] == 'each-once':
                ev = np.repeat(rng.integers(0, size, 1), 2)
            else:
                hi = size + 1 if case['dup'] == 'few' else 3 * size
                ev = rng.integers(0, size, int(rng.integers(0, hi)))
            rows.append(np.sort(ev))
            pos.append(i)
        ctx.tag('v1')
        if any(len(np.unique(r)) != len(r) for r in rows):
            ctx.tag('v1-duplicates')
        if any((np.bincount(r, minlength=1) > 2).any() for r in rows):
            ctx.tag('triple')
        if case['dup'] == 'each-once':
            ctx.tag('equal-extra')
        if not case['attr']:
            ctx.tag('v1-noattr')
    else:
        for i in range(n):
            if case['dup'] == 'rare' and i % 997 and i < n - 5:
                rows.append(none)
                pos.append(i)
                continue
            if case['rows'] == 'missing' and rng.random() < 0.3 and n > 1:
                ctx.tag('v2-missing')
                continue
            k = int(rng.integers(1, 4)) if case['rows'] == 'extra' else 1
            if k > 1:
                ctx.tag('v2-extra')
            for _ in range(k):
                rows.append(np.sort(rng.choice(
                    size, int(rng.integers(0, size + 1)), False)))
                pos.append(i)
        if not rows:
            rows, pos = [np.array([0])], [0]
        if case['shuffle']:
            o = rng.permutation(len(rows))
            rows, pos = [rows[k] for k in o], [pos[k] for k in o]
            ctx.tag('v2-shuffled')
        ctx.tag('v2')
    if case['order']:
        # coordinates in any order
        rows = [rng.permutation(r) for r in rows]
        if case['version'] == 1 and any(
                len(np.unique(r)) != len(r) and (np.diff(r) != 0).all()
                for r in rows):
            ctx.tag('unsorted')
    model = np.zeros((n, size), dtype=np.int64)
    for r, q in zip(rows, pos):
        for e in r:
            model[q, e] += 1
    if scan[0] != scan[1]:
        ctx.tag('nonsquare-scan')
    if frame[0] != frame[1]:
        ctx.tag('nonsquare-frame')
    path = os.path.join(ctx.tmpdir(), 'old.h5')
    with h5py.File(path, 'w') as f:
        if case['version'] != 1 or case['attr']:
            f.attrs['version'] = case['version']
        g = f.create_group('electron_events')
        sp = g.create_dataset('scan_positions', data=np.array(pos))
        sp.attrs['Nx'], sp.attrs['Ny'] = scan[1], scan[0]
        fr = g.create_dataset('frames', (len(rows),),
                              dtype=h5py.special_dtype(vlen=case['dtype']))
        fr.attrs['Nx'], fr.attrs['Ny'] = frame
        block = np.empty(len(rows), object)
        for k, r in enumerate(rows):
            block[k] = r.astype(case['dtype'])
        if n > 65535:
            fr[...] = block
        else:
            for k, r in enumerate(block):
                fr[k] = r
    a = call('load_electron_counts', load_electron_counts, path)
    require(tuple(a.scan_shape) == tuple(scan) and
            tuple(a.frame_shape) == tuple(frame), 'shape',
            f'{a.scan_shape} {a.frame_shape}')
    sparse.check_wellformed('load', a)
    require(all(x is not None for row in a.data for x in row), 'padding')
    got = sparse.dense(a.data, scan, frame)
    equal('counts', got, model.reshape(tuple(scan) + tuple(frame)))
    equal('to_dense', call('to_dense', a.to_dense),
          model.reshape(tuple(scan) + tuple(frame)))
    if scan[1] > 1 and (n < 65536 or scan[0] < 1000):
        # without the flyback column
        b = call('load_electron_counts(keep_flyback=False)',
                 load_electron_counts, path, keep_flyback=False)
        cropped = (scan[0], scan[1] - 1)
        require(tuple(b.scan_shape) == cropped and
                tuple(b.frame_shape) == tuple(frame), 'shape:flyback',
                f'{b.scan_shape} {b.frame_shape}')
        sparse.check_wellformed('flyback', b)
        equal('counts:flyback', sparse.dense(b.data, cropped, frame),
              model.reshape(tuple(scan) + tuple(frame))[:, :-1])
        ctx.tag('flyback')
    ctx.count('events', model.sum())
    if model.any():
        ctx.nontrivial(case)
