"""C04: counting loses and duplicates no frame under any thread schedule."""
import threading

import numpy as np

from vf import files, perturb
from vf.api import call, require

ID = 'C04'
PHASES = [dict(variant='plain', perturb=True, timeout=120,
               count=dict(quick=440, thorough=9000))]
RULE = ('Random v4/v5 sector file sets with 1-4 frames per position, whose '
        'frames carry unique sets of spots on noise, are counted repeatedly '
        'through the single-pass and multi-pass backends with 1 to 16 '
        'threads, every number of sample blocks from one to all complete '
        'frames, and seeded random delays injected (preloaded library) before '
        'locks, after unlocks, around notifications and file reads, some '
        'threads being slowed down persistently; also two counts running at '
        'once in two Python threads, and counts between random-access reads '
        'of the same multi-pass reader. Exactly-once monitor: the event lists '
        'of each position must be the multiset of the spot sets of the frames '
        'at that position. The order in which the frames of a position were '
        'counted is the observable trace of the interleaving; non-trivial '
        'evaluations are distinct (files, threads, order) combinations.')
REQUIRED = ['thread', 'multi-pass', 'v4', 'v5', 'perturbed', 'multi-frame',
            'threads:1', 'threads:2', 'threads:16', 'all-sampled',
            'one-sample', 'incomplete', 'repeated', 'concurrent',
            'reads-between', 'out-of-order', 'more-threads-than-files',
            'large-scan']
ASSUMPTIONS = ['Frame numbers are unique in an acquisition.',
               'Schedules are sampled: OS scheduling plus injected delays.']


def gen(rng, i, tier, phase):
    lay = files.gen_layout(rng, big=.02,
                           fpp=int(rng.choice([1, 2, 4])),
                           missing=float(rng.choice([0, 0, .05, .15])),
                           max_frames=10, unique=True)
    k = int(rng.integers(len(lay['frames'])))
    lay['frames'][k][2] = [0, 1, 2, 3]
    runs = []
    for _ in range(3):
        backend = str(rng.choice(['thread', 'multi-pass'])) \
            if lay['version'] == 5 else 'thread'
        runs.append(dict(
            backend=backend, threads=int(rng.choice([1, 2, 3, 4, 8, 16])),
            blocks=str(rng.choice(['one', 'all', 'random'])),
            frac=float(rng.random()), perturb=perturb.gen(rng),
            again=bool(rng.random() < .5), reads=bool(rng.random() < .3)))
    return dict(lay=lay, runs=runs, concurrent=bool(rng.random() < .15),
                seed=int(rng.integers(1 << 31)))


def spots(seed, n):
    """n frames with unique sets of isolated spots."""
    rng = np.random.default_rng(seed)
    base = rng.normal(60, 3, (576, 576)).clip(45, 75)
    frames = np.empty((n, 576, 576), np.uint16)
    for i in range(n):
        f = np.roll(base, (int(rng.integers(576)), int(rng.integers(576))),
                    (0, 1))
        k = int(rng.integers(1, 60))
        cells = rng.choice(144 * 144, k, replace=False)
        y, x = cells // 144 * 4 + 1, cells % 144 * 4 + 2
        f[y, x] = rng.integers(400, 2000, k)
        frames[i] = np.rint(f)
    return frames


def run(case, ctx):
    from stempy import io
    from stempy.image import electron_count
    lay = case['lay']
    w, h = lay['scan']
    fs = files.write(lay, ctx.tmpdir(), spots(case['seed'],
                                              len(lay['frames'])))
    ident = {k: tuple(int(x) for x in np.flatnonzero(a.reshape(-1) >= 400))
             for k, a in fs.full.items()}
    if max(ident)[0] > 65535:
        ctx.tag('large-scan')
    v = lay['version']
    complete = [k for k in ident if len(fs.sectors[k]) == 4]
    if len(complete) < len(ident):
        ctx.tag('incomplete')
    nfiles = sum(1 for p in fs.records if fs.records[p])
    first = dict(n=0)

    def check(got, backend):
        keys = complete if backend == 'thread' else list(ident)
        want = {}
        for k in keys:
            want.setdefault(k[0], []).append(k)
        m = got.metadata['electron_counting']
        require(80 < m['background_threshold'] < 390, 'threshold',
                m['background_threshold'])
        nmax = max(len(x) for x in want.values())
        require(got.data.shape == (w * h, nmax), 'data-shape',
                (got.data.shape, (w * h, nmax)))
        orders = []
        for pos in range(w * h):
            rows = [tuple(int(x) for x in e) for e in got.data[pos]]
            due = {}
            for k in want.get(pos, []):
                due.setdefault(ident[k], []).append(k[1])
            order = []
            for e in rows:
                if e in due and due[e]:
                    order.append(due[e].pop(0))
                    continue
                if not e:
                    order.append(None)
                    continue
                owner = [k for k in ident if ident[k] == e]
                if owner and owner[0][0] == pos:
                    require(False, 'counted-twice', f'frame {owner[0]}')
                require(not owner, 'wrong-position',
                        f'frame {owner[:1]} counted at position {pos}')
                require(False, 'wrong-events',
                        f'position {pos}: {len(e)} events, not those of any '
                        f'frame; closest to '
                        f'{[(k, len(set(e) ^ set(ident[k]))) for k in want.get(pos, [])]}')
            left = [x for e, y in due.items() if e for x in y]
            require(not left, 'lost-frame',
                    f'frames {left} of position {pos} were not counted')
            orders.append(tuple(order))
            real = [x for x in order if x is not None]
            if real != sorted(real):
                ctx.tag('out-of-order')
        ctx.count('frames', len(keys))
        ctx.count('counts')
        return tuple(orders)

    def one(r, reader=None):
        opts = dict(threads=r['threads'])
        if reader is None:
            reader = call('reader', io.reader, fs.paths, v,
                          backend=r['backend'], **opts)
        blocks = {'one': 1, 'all': len(complete),
                  'random': 1 + int(r['frac'] * len(complete) * .999)
                  }[r['blocks']]
        got = call('electron_count', electron_count, reader,
                   np.zeros((576, 576)), number_of_samples=2,
                   background_threshold_n_sigma=14,
                   xray_threshold_n_sigma=100000,
                   threshold_num_blocks=blocks)
        return reader, got, blocks

    for r in case['runs']:
        with perturb.Perturb(r['perturb'], ctx):
            reader, got, blocks = one(r)
            orders = check(got, r['backend'])
            ctx.tag(r['backend'], f'v{v}', f'threads:{r["threads"]}')
            if blocks == len(complete):
                ctx.tag('all-sampled')
            if blocks == 1:
                ctx.tag('one-sample')
            if r['threads'] > nfiles:
                ctx.tag('more-threads-than-files')
            if r['backend'] == 'multi-pass' and r['again']:
                if r['reads']:
                    k = list(ident)[0]
                    b = call('read_frames', reader.read_frames, k[0], 0)
                    first['n'] += int(b.data.sum())
                    ctx.tag('reads-between')
                _, got, _ = one(r, reader)
                check(got, r['backend'])
                ctx.tag('repeated')
        if got.data.shape[1] > 1:
            ctx.tag('multi-frame')
        ctx.nontrivial(lay, r['backend'], r['threads'], orders)

    if case['concurrent']:
        out, errors = {}, []

        def work(i):
            try:
                out[i] = one(case['runs'][i])[1]
            except Exception as e:
                errors.append(e)
        with perturb.Perturb(case['runs'][0]['perturb'], ctx):
            ts = [threading.Thread(target=work, args=(i,)) for i in range(2)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        for e in errors:
            raise e
        for i in range(2):
            check(out[i], case['runs'][i]['backend'])
        ctx.tag('concurrent')
    files.cleanup(fs)
