"""C01: the sequential sector reader rebuilds every frame exactly once."""
import numpy as np

from vf import files
from vf.api import Violation, call, close, equal, require

ID = 'C01'
PHASES = [dict(variant='plain', count=dict(quick=1200, thorough=20000))]
RULE = ('Random v4/v5 sector file sets (1-3 files per sector, records in '
        'sorted, shuffled or split order, empty files, missing sectors, absent '
        'positions, truncated last records) are written and read through '
        'stempy.io.reader by a random history of read / iterate / reset / '
        'data_captured / drop operations; an online monitor keeps the multiset '
        'of blocks still due and compares header and every pixel of each '
        'block. Non-trivial: at least one block delivered; distinct by file '
        'layout and history.')
REQUIRED = ['v4', 'v5', 'complete', 'partial', 'split-files', 'shuffled',
            'truncated', 'reset-mid', 'reset-end', 'data_captured', 'iter',
            'empty-file', 'absent-position', 'nonsquare-scan', 'all-partial',
            'replayed', 'names:nodes', 'names:modules', 'names:long',
            'names:padded', 'large-scan', 'many-records']
ASSUMPTIONS = ['At most one frame per scan position (the reader is keyed by '
               'position).']


def gen(rng, i, tier, phase):
    lay = files.gen_layout(rng, big=.04, crowd=.03,
                           missing=float(rng.choice([0, 0, .1, .3, .8])),
                           max_frames=10)
    ops = []
    for _ in range(int(rng.integers(1, 7))):
        ops.append([str(rng.choice(['read', 'read', 'iter', 'reset',
                                    'captured', 'drain'])),
                    int(rng.integers(1, 6))])
    ops += [['drain', 0], ['read', 1], ['captured', 0], ['reset', 0],
            ['drain', 0]]
    trunc = []
    if rng.random() < 0.3:
        for _ in range(int(rng.integers(1, 3))):
            trunc.append([int(rng.integers(12)), int(rng.choice(
                [1, 8, 15, 16, 17, 100, 166, files.RECORD // 2,
                 files.RECORD - 1]))])
    return dict(lay=lay, ops=ops, trunc=trunc)


def run(case, ctx):
    from stempy import io
    lay = case['lay']
    d = ctx.tmpdir()
    fs = files.write(lay, d)
    v, scan = lay['version'], tuple(lay['scan'])
    nrec = sum(len(s) for s in fs.sectors.values())
    # cut the last record of some files: that sector is missing
    cut = set()
    for which, keep in case['trunc']:
        p = sorted(fs.records)[which % len(fs.records)]
        if p in cut or not fs.records[p]:
            continue
        cut.add(p)
        with open(p, 'r+b') as f:
            f.truncate((len(fs.records[p]) - 1) * files.RECORD + keep)
        s, i = fs.records[p][-1]
        pos, fn, _ = lay['frames'][i]
        fs.sectors[pos, fn].discard(s)
        fs.full[pos, fn][files.FIRST[v](s)] = 0
        nrec -= 1
        ctx.tag('truncated')
    want, complete = {}, set()
    for (pos, fn), sec in fs.sectors.items():
        if sec:
            want[pos] = fs.full[pos, fn]
            if len(sec) == 4:
                complete.add(pos)
    if not want:
        ctx.tag('nothing')
        return
    partial = sorted(set(want) - complete)
    ctx.tag(f'v{v}')
    if complete:
        ctx.tag('complete')
    else:
        ctx.tag('all-partial')
    if partial:
        ctx.tag('partial')
    if max(lay['nfiles']) > 1:
        ctx.tag('split-files')
    ctx.tag('names:' + fs.style)
    if lay['shuffle'] == 'shuffled':
        ctx.tag('shuffled')
    if lay['empty']:
        ctx.tag('empty-file')
    if len(want) < scan[0] * scan[1]:
        ctx.tag('absent-position')
    if scan[0] != scan[1]:
        ctx.tag('nonsquare-scan')
    if nrec > 256:
        ctx.tag('many-records')
    if max(want) > 65535:
        ctx.tag('large-scan')

    reader = call('reader', io.reader, fs.paths, v)
    state = dict(due=set(complete), partial=list(partial), seq=[], n=0)
    first_seq = []
    held = []

    def check(b):
        if b is None:
            require(not state['due'], 'lost-frame',
                    f'end reached but complete positions {sorted(state["due"])} '
                    f'were not delivered')
            require(not state['partial'], 'lost-partial',
                    f'end reached, positions {state["partial"]} missing')
            return False
        h = b.header
        nums = list(h.image_numbers)
        require(len(nums) == 1, 'image-numbers', nums)
        pos = nums[0]
        if state['due']:
            require(pos in state['due'], 'unexpected-block',
                    f'position {pos} delivered, due {sorted(state["due"])}, '
                    f'delivered {state["seq"]}')
            state['due'].remove(pos)
        else:
            require(state['partial'] and pos == state['partial'][0],
                    'unexpected-partial', f'position {pos} delivered, partial '
                    f'frames due {state["partial"]}')
            state['partial'].pop(0)
        require(tuple(h.scan_dimensions) == scan, 'scan-dimensions',
                h.scan_dimensions)
        require(tuple(h.frame_dimensions) == (576, 576), 'frame-dimensions')
        require(h.images_in_block == 1, 'images-in-block')
        require(h.version == v, 'version', h.version)
        a = b.data
        require(a.shape == (1, 576, 576) and a.dtype == np.uint16, 'shape',
                (a.shape, a.dtype))
        equal('block', a[0], want[pos], f'position {pos}')
        state['seq'].append(pos)
        ctx.count('blocks')
        if len(held) < 3:
            held.append((a, want[pos]))
        return True

    for op, k in case['ops']:
        if op == 'read':
            for _ in range(k):
                if not check(call('read', reader.read)):
                    break
        elif op == 'drain':
            while check(call('read', reader.read)):
                pass
            if first_seq and first_seq[0] == tuple(state['seq']):
                ctx.tag('replayed')
            if first_seq:
                require(first_seq[0] == tuple(state['seq']), 'replay-order',
                        f'{first_seq[0]} then {state["seq"]}')
            first_seq.append(tuple(state['seq']))
        elif op == 'iter':
            it = iter(reader)
            for _ in range(k):
                try:
                    b = next(it)
                except StopIteration:
                    check(None)
                    break
                check(b)
            ctx.tag('iter')
        elif op == 'reset':
            ctx.tag('reset-end' if not state['due'] and not state['partial']
                    else 'reset-mid')
            call('reset', reader.reset)
            state.update(due=set(complete), partial=list(partial), seq=[])
        elif op == 'captured':
            got = call('data_captured', reader.data_captured)
            if nrec:
                close('data_captured', got, nrec / (4 * scan[0] * scan[1]),
                      rtol=1e-6)
                ctx.tag('data_captured')
    for a, w in held:
        equal('held-block', a[0], w, 'after later reads')
    ctx.nontrivial(lay, case['ops'], case['trunc'])
    files.cleanup(fs)
