"""C02: random access through the multi-pass reader."""
import numpy as np

from vf import files
from vf.api import Violation, call, equal, require

ID = 'C02'
PHASES = [dict(variant='plain', count=dict(quick=1000, thorough=16000))]
RULE = ('Random v5 sector file sets with 1-4 frames per position (irregular '
        'frame numbers, missing sectors, absent positions, truncated last '
        'records, several files per sector) are opened with the multi-pass '
        'reader (1-12 threads); a random history of read_frames calls '
        '(tuple/integer positions; None, integer, slice, list, negative and '
        'out-of-range frame selections; invalid positions), property queries, '
        'electron_count calls and fresh readers is compared, frame by frame, '
        'with the model of the files. Non-trivial: at least one frame '
        'compared; distinct by layout and calls.')
REQUIRED = ['multi-frame', 'missing-sector', 'absent-frame', 'tuple', 'index',
            'slice', 'list', 'negative', 'single', 'refused-position',
            'refused-beside',
            'refused-frame', 'truncated', 'counted', 'threads1', 'threadsN',
            'nonsquare-scan', 'repeat', 'all-frames', 'large-scan',
            'large-frame-numbers', 'long-file', 'many-frames']
ASSUMPTIONS = ['Positions that have fewer frames than num_frames_per_scan, or '
               'none, deliver zero or are refused for the frames they lack; '
               'they never deliver the data of another frame.']


def gen(rng, i, tier, phase):
    lay = files.gen_layout(rng, big=.05, long=.03, crowd_frames=.02,
                           version=5, fpp=int(rng.choice([1, 2, 3, 4])),
                           missing=float(rng.choice([0, 0, .15, .4])),
                           max_frames=12)
    npos = lay['scan'][0] * lay['scan'][1]
    at = [f[0] for f in lay['frames']] if npos > 25 else range(npos)
    ops = []
    for _ in range(int(rng.integers(4, 11))):
        kind = str(rng.choice(['read', 'read', 'read', 'read', 'badpos',
                               'badframe', 'props', 'reopen']))
        ops.append([kind, int(rng.choice(at)), bool(rng.random() < .5),
                    str(rng.choice(['none', 'int', 'neg', 'slice', 'list',
                                    'nplist', 'rslice'])),
                    [int(x) for x in rng.integers(0, 1 << 20, 4)]])
    if rng.random() < 0.3:
        ops.insert(int(rng.integers(len(ops))), ['count', 0, False, 'none',
                                                 [0, 0, 0, 0]])
        lay['content'] = 'small'
    if rng.random() < 0.5:
        k = int(rng.integers(len(ops)))
        if ops[k][0] == 'read':
            ops.append(list(ops[k]))
    trunc = [[int(rng.integers(12)), int(rng.choice([1, 15, 16, 17, 5000,
                                                     files.RECORD - 1]))]] \
        if rng.random() < 0.25 and not lay['long'] else []
    return dict(lay=lay, ops=ops, threads=int(rng.choice([1, 1, 2, 3, 5, 12])),
                trunc=trunc)


def run(case, ctx):
    from stempy import io
    from stempy.image import electron_count
    lay = case['lay']
    fs = files.write(lay, ctx.tmpdir())
    scan = lay['scan']
    if (0, 0) in fs.full and lay['long']:
        ctx.tag('long-file')
    for which, keep in case['trunc']:
        p = sorted(fs.records)[which % len(fs.records)]
        if not fs.records[p]:
            continue
        with open(p, 'r+b') as f:
            f.truncate((len(fs.records[p]) - 1) * files.RECORD + keep)
        s, i = fs.records[p][-1]
        pos, fn, _ = lay['frames'][i]
        fs.sectors[pos, fn].discard(s)
        fs.full[pos, fn][files.FIRST[5](s)] = 0
        ctx.tag('truncated')
    model = {}
    for (pos, fn), sec in sorted(fs.sectors.items()):
        if sec:
            model.setdefault(pos, []).append(fs.full[pos, fn])
            if len(sec) < 4:
                ctx.tag('missing-sector')
    if not model:
        return
    nf = max(len(x) for x in model.values())
    if nf > 256:
        ctx.tag('many-frames')
    if nf > 1:
        ctx.tag('multi-frame')
    if scan[0] != scan[1]:
        ctx.tag('nonsquare-scan')
    if max(model) > 65535:
        ctx.tag('large-scan')
    if max(fn for _, fn in fs.full) >= 1 << 31:
        ctx.tag('large-frame-numbers')
    ctx.tag('threads1' if case['threads'] == 1 else 'threadsN')

    def open_():
        return call('reader', io.reader, fs.paths, 5, backend='multi-pass',
                    threads=case['threads'])

    reader = open_()
    seen = set()

    def props():
        require(tuple(call('scan_shape', lambda: reader.scan_shape)) ==
                (scan[1], scan[0]), 'scan-shape', reader.scan_shape)
        n = call('num_frames', lambda: reader.num_frames_per_scan)
        require(n == nf, 'num-frames', f'{n}, expected {nf}')

    def read(pos, tup, sel, r):
        p = (pos // scan[0], pos % scan[0]) if tup else pos
        have = model.get(pos, [])
        if sel == 'none':
            s, idx = None, list(range(nf))
        elif sel == 'int':
            k = r[0] % nf
            s, idx = k, [k]
        elif sel == 'neg':
            k = -1 - r[0] % nf
            s, idx = k, [k + nf]
        elif sel == 'slice':
            a, b = r[0] % (nf + 1), r[1] % (nf + 2)
            s = slice(a, b, 1 + r[2] % 2)
            idx = list(range(nf))[s]
        elif sel == 'rslice':
            s = slice(None, None, -1)
            idx = list(range(nf))[s]
        else:
            idx = [x % nf for x in r[:1 + r[3] % 4]]
            s = idx if sel == 'list' else np.array(idx)
        lacking = any(k >= len(have) for k in idx)
        try:
            got = reader.read_frames(p, s)
        except Exception as e:
            if lacking and isinstance(e, (ValueError, IndexError,
                                          RuntimeError)):
                ctx.tag('absent-frame')
                return
            raise Violation(f'exception:read_frames:{type(e).__name__}',
                            f'read_frames({p}, {s}) raised {e}') from e
        if sel in ('int', 'neg'):
            got = [got]
            ctx.tag('single')
        require(len(got) == len(idx), 'number-of-frames',
                f'read_frames({p}, {s}) gave {len(got)}, expected {len(idx)}')
        for k, b in zip(idx, got):
            w = have[k] if k < len(have) else np.zeros((576, 576), np.uint16)
            if k >= len(have):
                ctx.tag('absent-frame')
            equal('frame', b.data, w, f'position {p} frame {k} of {len(have)}')
            h = b.header
            require(tuple(h.frame_dimensions) == (576, 576), 'frame-dims')
            require(tuple(h.scan_dimensions) == tuple(scan), 'scan-dims',
                    h.scan_dimensions)
            if k < len(have):
                require(list(h.image_numbers) == [pos], 'image-number',
                        h.image_numbers)
            ctx.count('frames')
        ctx.tag('tuple' if tup else 'index')
        ctx.tag({'none': 'all-frames', 'neg': 'negative', 'nplist': 'list',
                 'rslice': 'slice', 'int': 'single'}.get(sel, sel))
        key = (pos, sel, tuple(r))
        if key in seen:
            ctx.tag('repeat')
        seen.add(key)

    def must_refuse(name, *args):
        try:
            got = reader.read_frames(*args)
        except (IndexError, ValueError, TypeError, OverflowError,
                RuntimeError):
            ctx.tag(f'refused-{name}')
            return
        raise Violation(f'not-refused:{name}',
                        f'read_frames{args} returned {type(got)}')

    npos = scan[0] * scan[1]
    for op, pos, tup, sel, r in case['ops']:
        if op == 'read':
            read(pos, tup, sel, r)
        elif op == 'props':
            props()
        elif op == 'reopen':
            reader = open_()
        elif op == 'badpos':
            bad = [npos, npos + r[0] % 1000, -1, (scan[1], 0), (0, scan[0]),
                   (-1, 0), (0, -1), 1 << 31][r[1] % 8]
            if r[2] % 3 == 0:
                # next to the scan, on any side (the flat index of some of
                # these is that of another position)
                row, col = r[0] % scan[1], r[1] % scan[0]
                bad = [(row, -1 - r[3] % scan[0]), (row, scan[0] + r[3] % 3),
                       (-1 - r[3] % scan[1], col), (scan[1] + r[3] % 3, col),
                       (-1, scan[0] + r[3] % 5), (scan[1], -1 - r[3] % 5),
                       ][(r[0] // 7) % 6]
                if r[1] % 2:
                    bad = list(bad)
                ctx.tag('refused-beside')
            must_refuse('position', bad)
        elif op == 'badframe':
            bad = [nf, -nf - 1, [0, nf], [nf + r[0] % 100], 1 << 31][r[1] % 5]
            must_refuse('frame', pos, bad)
        elif op == 'count':
            try:
                electron_count(reader, np.zeros((576, 576), np.float32),
                               number_of_samples=1, threshold_num_blocks=1)
                ctx.tag('counted')
            except (RuntimeError, ValueError):
                # the fit need not converge on such data, and there may be no
                # complete frame to sample
                ctx.tag('counted', 'count-failed')
    props()
    read(next(iter(model)), True, 'none', [0, 0, 0, 0])
    ctx.nontrivial(lay, case['ops'], case['threads'])
    files.cleanup(fs)
