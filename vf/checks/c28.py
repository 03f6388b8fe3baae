"""C28: raw data and STEM image files round-trip."""
import os

import numpy as np

from vf.api import call, equal, refused, require

ID = 'C28'
PHASES = [dict(variant='plain', count=dict(quick=7500, thorough=150000))]
RULE = ('Random histories of saving into one HDF5 file (raw data and STEM '
        'images in either order, a second save of the same kind, mismatched '
        'names, unrelated contents that were there before, reopening and '
        'reading in between) with random shapes, types, layouts, compression '
        'and position options; after every step the whole file is compared '
        'with a dictionary model, and the frames read through io.reader and '
        'the STEM images of the reader with the array. Non-trivial: distinct '
        'histories with at least one successful save.')
REQUIRED = ['raw', 'stem', 'both', 'raw-first', 'stem-first', 'mismatch',
            'mismatch-new-file', 'other-contents', 'zip', 'nozip',
            'positions', 'no-positions', 'no-dimensions', 'refused-again',
            'stem-from-file', 'large-frame', 'float-images', 'int-images',
            'unicode-name']
ASSUMPTIONS = ['A second save into the same file raises and changes '
               'nothing that was stored.']


def gen(rng, i, tier, phase):
    ops = [str(x) for x in rng.choice(
        ['raw', 'stem', 'mismatch', 'raw', 'stem'], int(rng.integers(1, 5)))]
    w, h = int(rng.integers(1, 8)), int(rng.integers(1, 8))
    return dict(ops=ops, scan=[w, h], side=[int(rng.integers(1, 20)),
                                            int(rng.integers(1, 20))],
                large=bool(rng.random() < .01), other=bool(rng.random() < .4),
                zip=bool(rng.random() < .4), pos=bool(rng.random() < .5),
                dims=bool(rng.random() < .85), fewer=bool(rng.random() < .3),
                dtype=str(rng.choice(['u1', 'u2', 'u2', 'u4'])),
                strided=bool(rng.random() < .3),
                nimg=int(rng.integers(1, 5)),
                itype=str(rng.choice(['u8', 'f8', 'u4', 'f4'])),
                seed=int(rng.integers(1 << 31)))


NAMES = ['bright', 'dark field', 'haadf', 'α-β', 'a/b', 'x' * 300, '', 'b',
         ' padded ', 'tab\t', 'b ']


def compare(p, model):
    """The file holds exactly what the model says."""
    import h5py
    if model is None:
        require(not os.path.exists(p), 'file-created')
        return
    seen = {}
    with h5py.File(p, 'r') as f:
        def visit(name, o):
            if isinstance(o, h5py.Dataset):
                seen[name] = (o[()], {k: o.attrs[k] for k in o.attrs})
        f.visititems(visit)
        seen['@'] = (0, {k: f.attrs[k] for k in f.attrs})
    require(set(seen) == set(model), 'contents',
            (sorted(seen), sorted(model)))
    for k, (a, attrs) in model.items():
        equal(f'dataset:{k}', seen[k][0], a)
        if isinstance(a, np.ndarray):
            require(seen[k][0].dtype == a.dtype, f'dtype:{k}')
        require(set(seen[k][1]) == set(attrs), f'attrs:{k}',
                (list(seen[k][1]), list(attrs)))
        for n, x in attrs.items():
            require(list(np.atleast_1d(seen[k][1][n])) ==
                    list(np.atleast_1d(x)), f'attr:{k}:{n}',
                    (seen[k][1][n], x))


def run(case, ctx):
    import h5py

    from stempy import io
    from stempy.image import create_stem_images
    rng = np.random.default_rng(case['seed'])
    d = ctx.tmpdir()
    p = os.path.join(d, 'file.h5')
    w, h = case['scan']
    model = None
    if case['other']:
        model = {'@': (0, {'user': 'me'})}
        with h5py.File(p, 'w') as f:
            f.attrs['user'] = 'me'
            a = rng.random((3, 4))
            f['mine/data'] = a
            f['mine/data'].attrs['unit'] = 'nm'
            model['mine/data'] = (a, {'unit': 'nm'})
            if rng.random() < .5:
                a = np.arange(5)
                f['stem/extra'] = a
                model['stem/extra'] = (a, {})
        ctx.tag('other-contents')
    side = [600, 500] if case['large'] else case['side']
    n = w * h
    if case['fewer']:
        n = int(rng.integers(1, n + 1))
    if case['large']:
        n = min(n, 4)
        ctx.tag('large-frame')
    done = []
    raw = None
    for op in case['ops']:
        if op == 'raw':
            dt = np.dtype(case['dtype'])
            data = rng.integers(0, 256 if dt.itemsize == 1 else 65536,
                                (n, *side)).astype(dt)
            arg = data
            if case['strided']:
                b = np.zeros((2 * n, side[0], side[1] + 3), dt)
                arg = b[1::2, :, 2:-1]
                arg[...] = data
            kw, attrs = {}, {}
            pos = np.arange(n)
            if case['dims']:
                kw['scan_dimensions'] = (w, h)
                attrs['scan_dimensions'] = (w, h)
            if case['pos']:
                pos = rng.permutation(w * h)[:n]
                kw['scan_positions'] = [int(x) for x in pos] \
                    if case['seed'] % 2 else pos.astype(np.int64)
            if case['zip'] or case['seed'] % 2:
                kw['zip_data'] = case['zip']
            if 'raw' in done:
                refused('save_raw_data', io.save_raw_data, p, arg, **kw)
                ctx.tag('refused-again')
            else:
                call('save_raw_data', io.save_raw_data, p, arg, **kw)
                model = model or {'@': (0, {})}
                model['frames'] = (data, attrs)
                if case['pos']:
                    model['scan_positions'] = (pos.astype(np.int64), {})
                raw = (data, pos)
                with h5py.File(p, 'r') as f:
                    require((f['frames'].compression == 'gzip') ==
                            case['zip'], 'compression')
                ctx.tag('zip' if case['zip'] else 'nozip')
                ctx.tag('positions' if case['pos'] else 'no-positions')
                if not case['dims']:
                    ctx.tag('no-dimensions')
                if 'stem' in done:
                    ctx.tag('stem-first')
                done.append('raw')
                ctx.tag('raw')
        elif op == 'stem':
            k = case['nimg']
            img = (rng.random((k, h, w)) * 1e6).astype(case['itype'])
            names = [NAMES[i] for i in rng.permutation(len(NAMES))[:k]]
            if 'stem' in done:
                refused('save_stem_images', io.save_stem_images, p, img, names)
                ctx.tag('refused-again')
            else:
                call('save_stem_images', io.save_stem_images, p, img, names)
                model = model or {'@': (0, {})}
                model['stem/images'] = (img, {'names': names})
                ctx.tag('float-images' if case['itype'][0] == 'f'
                        else 'int-images')
                if 'α-β' in names:
                    ctx.tag('unicode-name')
                if 'raw' in done:
                    ctx.tag('raw-first')
                done.append('stem')
                ctx.tag('stem')
        else:
            k = case['nimg']
            img = rng.random((k, h, w))
            names = NAMES[:k + int(rng.choice([-1, 1]))]
            refused('save_stem_images', io.save_stem_images, p, img, names)
            ctx.tag('mismatch')
            if model is None:
                ctx.tag('mismatch-new-file')
        compare(p, model)
        ctx.count('steps')
    if len(set(done)) == 2:
        ctx.tag('both')
    if raw and (case['dims'] or 'stem' in done):
        data, pos = raw
        with h5py.File(p, 'r') as f:
            r = call('reader', io.reader, f)
            k = 0
            for b in r:
                m = b.header.images_in_block
                require(list(b.header.image_numbers) ==
                        [int(x) for x in pos[k:k + m]], 'image-numbers')
                require(tuple(b.header.scan_dimensions) == (w, h), 'scan',
                        b.header.scan_dimensions)
                equal('frames', b.data, data[k:k + m])
                k += m
            require(k == n, 'frames-read', (k, n))
            args = ([0, 2], [5, 40])
            r.reset()
            a = call('create_stem_images', create_stem_images, r, *args)
            s = io.PyReader(data, pos, (w, h), 7, n)
            b = call('create_stem_images', create_stem_images, s, *args)
            equal('stem', a, b)
            ctx.tag('stem-from-file')
        compare(p, model)
    if done:
        ctx.nontrivial(case)
    if os.path.exists(p):
        os.unlink(p)
