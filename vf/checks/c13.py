"""C13: stream reader decodes versions 1 to 3 exactly, across files."""
import os

import numpy as np

from vf import files
from vf.api import Violation, call, equal, require

ID = 'C13'
PHASES = [dict(variant='plain', count=dict(quick=12000, thorough=150000),
               timeout=180)]
RULE = ('Random version 1 and 3 streams (0 to 4 files, some empty, blocks of '
        '1 to 6 frames of any shape, up to 1014 images for tiny frames; a few '
        'version 2 streams in sparse files), some truncated at a random byte, '
        'read with random histories of read, reset, iteration and average; '
        'after every step the block delivered (header fields, pixels), the '
        'error or the end of the stream must be the next one of the model. '
        'Non-trivial: at least one block compared.')
REQUIRED = ['v1', 'v2', 'v3', 'multi-file', 'empty-file', 'truncated-header',
            'truncated-data', 'after-truncation', 'reset', 'replayed', 'end',
            'non-square', 'max-images', 'reset-in-the-middle', 'several-'
            'blocks', 'average']
ASSUMPTIONS = ['Version 1 headers name a non-zero version and at least one '
               'image; version 2 image numbers always start from 0 (the field '
               'in the file is documented as unusable).',
               'Files do not change while they are read.']


def gen(rng, i, tier, phase):
    if i % 750 == 3:
        return dict(version=2, seed=int(rng.integers(1 << 31)),
                    cut=bool(rng.random() < .3))
    version = int(rng.choice([1, 1, 1, 1, 1, 1, 1, 3]))
    nfiles = int(rng.choice([1, 1, 2, 3, 4]))
    layout, cuts = [], []
    for _ in range(nfiles):
        nb = int(rng.choice([0, 1, 1, 2, 3, 5] if version == 1 else
                            [0, 1, 1, 2]))
        blocks = []
        for _ in range(nb):
            if version == 3:
                blocks.append([1, 576, 576])
            elif rng.random() < .03:
                blocks.append([1014, 1, int(rng.integers(1, 4))])
            else:
                blocks.append([int(rng.integers(1, 7)),
                               int(rng.integers(1, 20)),
                               int(rng.integers(1, 20))])
        layout.append(blocks)
        cut = None
        if blocks and rng.random() < .2:
            cut = [str(rng.choice(['header', 'data', 'last-byte', 'any'])),
                   float(rng.random())]
        cuts.append(cut)
    ops = [[str(rng.choice(['read', 'read', 'read', 'read', 'reset', 'iterate',
                            'average'])), int(rng.integers(1, 5))]
           for _ in range(int(rng.integers(1, 9)))]
    return dict(version=version, layout=layout, cuts=cuts, ops=ops,
                same=bool(rng.random() < .5), seed=int(rng.integers(1 << 31)))


def write(case, d):
    """Returns paths and the model: a list of blocks and errors."""
    rng = np.random.default_rng(case['seed'])
    items, paths, tags = [], [], set()
    for k, (blocks, cut) in enumerate(zip(case['layout'], case['cuts'])):
        data, new, starts = b'', [], []
        for shape in blocks:
            px = rng.integers(0, 1 << 16, shape, dtype=np.uint16)
            starts.append(len(data))
            if case['version'] == 1:
                nums = rng.integers(0, 1 << 31, shape[0]).astype(np.uint32)
                ver, ts = int(rng.integers(1, 9)), int(rng.integers(1 << 32))
                data += files.v1_block(px, nums, ver, ts,
                                       rng.integers(1 << 31, size=5))
                new.append(dict(n=shape[0], dims=(shape[2], shape[1]),
                                version=ver, timestamp=ts,
                                nums=[int(x) for x in nums], px=px,
                                scan=(0, 0)))
                head = 4096
            else:
                scan = [int(x) for x in rng.integers(1, 65536, 2)]
                x, y = int(rng.integers(scan[0])), int(rng.integers(scan[1]))
                pos = y * scan[0] + x
                data += files.v3_block(px[0], scan, pos,
                                       int(rng.integers(1 << 32)),
                                       int(rng.integers(1 << 32)))
                new.append(dict(n=1, dims=(576, 576), version=3, timestamp=None,
                                nums=[pos], px=px, scan=tuple(scan)))
                head = 16
        if cut:
            # inside of the last block
            a, b = starts[-1], len(data)
            kind, f = cut
            if kind == 'header':
                at = a + 1 + int(f * (head - 1))
            elif kind == 'data':
                at = a + head + int(f * (b - a - head))
            elif kind == 'last-byte':
                at = b - 1
            else:
                at = a + 1 + int(f * (b - a - 1))
            data = data[:min(at, b - 1)]
            new[-1] = 'error'
            tags.add('truncated-header' if at - a < head else 'truncated-data')
        if not blocks:
            tags.add('empty-file')
        items += new
        p = os.path.join(d, f'{k}.bin')
        with open(p, 'wb') as f:
            f.write(data)
        paths.append(p)
    return paths, items, tags


def same(b, want):
    h = b.header
    require(h.images_in_block == want['n'], 'images-in-block')
    require(tuple(h.frame_dimensions) == want['dims'], 'frame-dimensions',
            (h.frame_dimensions, want['dims']))
    require(h.version == want['version'], 'version', h.version)
    if want['timestamp'] is not None:
        require(h.timestamp == want['timestamp'], 'timestamp')
    require(list(h.image_numbers) == want['nums'], 'image-numbers',
            (h.image_numbers[:5], want['nums'][:5]))
    require(tuple(h.scan_dimensions) == want['scan'], 'scan-dimensions',
            (h.scan_dimensions, want['scan']))
    equal('pixels', b.data, want['px'])


def run(case, ctx):
    from stempy import io
    if case['version'] == 2:
        return run2(case, ctx)
    from stempy.image import calculate_average
    d = ctx.tmpdir()
    paths, items, tags = write(case, d)
    arg = paths[0] if len(paths) == 1 and case['same'] else paths
    reader = call('reader', io.reader, arg, case['version'])
    pos, compared, seen = 0, 0, set()

    def read_one():
        nonlocal pos, compared
        want = items[pos] if pos < len(items) else None
        if want == 'error':
            try:
                b = reader.read()
            except ValueError:
                tags.add('error-reported')
                if pos + 1 < len(items):
                    tags.add('after-truncation')
            except Exception as e:
                raise Violation('wrong-exception', repr(e))
            else:
                raise Violation('truncated-block-delivered', repr(
                    None if b is None else b.header.image_numbers[:3]))
            pos += 1
            return True
        b = call('read', reader.read)
        if want is None:
            require(b is None, 'made-up-block')
            tags.add('end')
            return False
        require(b is not None, 'lost-blocks',
                f'end of the stream after {pos} of {len(items)} blocks')
        same(b, want)
        compared += 1
        if pos in seen:
            tags.add('replayed')
        seen.add(pos)
        pos += 1
        return True

    for name, k in case['ops']:
        if name == 'read':
            for _ in range(k):
                read_one()
        elif name == 'reset':
            if 0 < pos < len(items):
                tags.add('reset-in-the-middle')
            call('reset', reader.reset)
            tags.add('reset')
            pos = 0
        elif name == 'iterate':
            while read_one():
                pass
        elif name == 'average':
            rest = items[pos:]
            if rest and 'error' not in rest and \
                    len({x['dims'] for x in rest}) == 1:
                a = call('average', calculate_average, reader)
                px = np.concatenate([x['px'] for x in rest])
                require(np.allclose(a, px.mean(0), rtol=1e-12), 'average')
                pos = len(items)
                tags.add('average')
    # everything that is left, and everything once again
    while read_one():
        pass
    if case['seed'] % 2:
        reader.reset()
        pos = 0
        tags.add('reset')
        while read_one():
            pass
    ctx.tag(f'v{case["version"]}', *tags)
    ctx.count('blocks', compared)
    if len(paths) > 1:
        ctx.tag('multi-file')
    good = [x for x in items if x != 'error']
    if any(x['dims'][0] != x['dims'][1] for x in good):
        ctx.tag('non-square')
    if any(x['n'] == 1014 for x in good):
        ctx.tag('max-images')
    if len(good) > 2:
        ctx.tag('several-blocks')
    if compared:
        ctx.nontrivial(case)


def run2(case, ctx):
    from stempy import io
    p = os.path.join(ctx.tmpdir(), 'v2')
    rng = np.random.default_rng(case['seed'])
    size = 1600 * 576 * 576
    marks = {}
    with open(p, 'wb') as f:
        f.truncate(4 + 2 * size - (1 if case['cut'] else 0))
        f.write(np.uint32(rng.integers(1 << 32)).tobytes())
        for at in list(rng.integers(0, size, 200)) + [0, size - 2]:
            v = int(rng.integers(1, 1 << 16))
            f.seek(4 + 2 * int(at))
            f.write(np.uint16(v).tobytes())
            marks[int(at)] = v
    reader = call('reader', io.reader, p, 2)
    if case['cut']:
        try:
            reader.read()
        except ValueError:
            require(reader.read() is None, 'made-up-block')
        else:
            raise Violation('truncated-block-delivered')
        ctx.tag('v2', 'truncated-data')
        return
    b = call('read', reader.read)
    h = b.header
    require(h.images_in_block == 1600 and
            tuple(h.frame_dimensions) == (576, 576) and h.version == 2 and
            list(h.image_numbers) == list(range(1600)), 'header-v2')
    require(b.data.shape == (1600, 576, 576), 'shape-v2')
    flat = b.data.reshape(-1)
    at = np.flatnonzero(flat)
    require(list(at) == sorted(marks) and
            [int(x) for x in flat[at]] == [marks[k] for k in sorted(marks)],
            'pixels-v2')
    require(reader.read() is None, 'made-up-block')
    ctx.tag('v2')
    ctx.nontrivial(case)
