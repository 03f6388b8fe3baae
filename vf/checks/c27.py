"""C27: electron_count always ends, with a result or an exception."""
import gc
import os
import threading
import time

import numpy as np

from vf import files, perturb
from vf.api import call, equal, require
from vf.checks.c04 import spots

ID = 'C27'
PHASES = [dict(variant='plain', perturb=True, timeout=30,
               count=dict(quick=3000, thorough=60000))]
RULE = ('Sector file sets of both versions: complete, with missing sectors, '
        'no complete frame at all, no frame at all, positions outside of the '
        'scan given, constant frames, frames of one value, noise; counted '
        'over both threaded backends with 1 to 16 threads, hostile and '
        'ordinary values of every option (sample blocks from negative to more '
        'than there are frames, samples, n-sigmas, scan dimensions, row dark, '
        'gain, dark, verbose), with delays injected at locks, notifications '
        'and reads, and with reads of the files failing, ending early, '
        'returning less or being interrupted. Each call must return or raise '
        'within the time limit (a case that does not is re-run alone). After '
        'it all threads and files of the reader must be gone, another count '
        'of the same files (same reader where it can start again) must give '
        'the right events and frames (a used-up reader must end too), and '
        'Python threads must have kept running. '
        'Non-trivial: distinct (outcome, configuration) with a result or an '
        'exception.')
REQUIRED = ['thread', 'multi-pass', 'returned', 'raised', 'too-few', 'no-'
            'complete', 'no-frames', 'constant', 'outside-scan', 'many-blocks',
            'zero-blocks', 'negative-blocks', 'hostile-sigma', 'samples:0',
            'fault:eio', 'fault:eof', 'fault:short', 'fault:eintr',
            'perturbed', 'again-same-reader', 'again-new-reader', 'exact',
            'gain', 'row-dark', 'dark', 'waiting-workers', 'several-failures',
            'reader-dropped-in-handler', 'fit-failed', 'unused-reader',
            'read-after-count', 'rest-raised']
ASSUMPTIONS = ['Bounded time: 30 s for file sets of at most 14 frames, and '
               '60 s when run alone again; normal calls take well under a '
               'second.',
               'Dark and gain have the shape of the frames.']


def gen(rng, i, tier, phase):
    lay = files.gen_layout(
        rng, fpp=int(rng.choice([1, 2])),
        missing=float(rng.choice([0, 0, .1, .4])), max_frames=8, unique=True)
    shape = str(rng.choice(['full', 'full', 'full', 'no-complete', 'one',
                            'no-frames', 'outside', 'outside']))
    if shape == 'no-complete':
        for f in lay['frames']:
            f[2] = sorted(set(f[2]) - {int(rng.integers(4))}) or [1]
    elif shape == 'one':
        lay['frames'] = lay['frames'][:1]
        lay['frames'][0][2] = [0, 1, 2, 3]
    runs = []
    for _ in range(int(rng.choice([1, 1, 2, 3]))):
        runs.append(dict(
            backend=str(rng.choice(['thread', 'multi-pass'])) if
            lay['version'] == 5 else 'thread',
            threads=int(rng.choice([1, 2, 4, 16])),
            blocks=int(rng.choice([-1, 0, 1, 1, 2, 3, 5, 20, 10 ** 6])),
            samples=int(rng.choice([-3, 0, 1, 2, 2, 2, 40])),
            nb=rng.choice([0, -5, 4, 14, 1e30, float('nan'), float('inf')],
                          p=[.05, .05, .3, .3, .1, .1, .1]).item(),
            nx=rng.choice([0, -5, 10, 1000, 1e30, float('nan')],
                          p=[.05, .05, .3, .4, .1, .1]).item(),
            scan=[[0, 0], [0, 0], [1, 1], [7, 7], [0, 3]][rng.integers(5)],
            dark=bool(rng.random() < .6), gain=bool(rng.random() < .3),
            rowdark=bool(rng.random() < .2), mean=bool(rng.random() < .7),
            verbose=bool(rng.random() < .1),
            fault=[str(rng.choice(['eio', 'eof', 'short', 'eintr'])),
                   int(rng.choice([0, 1, 2, 5, 20])),
                   int(rng.choice([1, 1, 3, 1000]))]
            if rng.random() < .35 else None,
            perturb=perturb.gen(rng) if rng.random() < .7 else None,
            drop=bool(rng.random() < .5)))
        if rng.random() < .65:
            # ordinary but for one option (or none)
            plain = dict(blocks=int(rng.choice([1, 2, 3])), samples=2, nb=14.,
                         nx=1000., scan=[0, 0], rowdark=False, gain=False,
                         fault=None)
            plain.pop(str(rng.choice(list(plain) + ['none'])), None)
            runs[-1].update(plain)
    return dict(lay=lay, shape=shape,
                content=str(rng.choice(['spots', 'spots', 'spots', 'constant',
                                        'zero', 'two-values'])),
                runs=runs, idle=bool(rng.random() < .1),
                seed=int(rng.integers(1 << 31)))


def pixels(case, n):
    if case['content'] == 'spots':
        return spots(case['seed'], n)
    a = np.zeros((n, 576, 576), np.uint16)
    if case['content'] == 'constant':
        a += 37
    elif case['content'] == 'two-values':
        a[:, ::2] = 50
    return a


def threads_now():
    return len(os.listdir('/proc/self/task'))


def fds_now():
    n = 0
    for f in os.listdir('/proc/self/fd'):
        try:
            if os.readlink('/proc/self/fd/' + f).endswith('.data'):
                n += 1
        except OSError:
            pass
    return n


def settle(ctx, base):
    """Threads and files of readers that are gone are gone."""
    gc.collect()
    for k in range(200):
        if threads_now() <= base and fds_now() == 0:
            return
        time.sleep(.01 if k < 50 else .05)
    require(threads_now() <= base, 'threads-left',
            f'{threads_now()} threads, {base} before')
    require(fds_now() == 0, 'files-left-open', fds_now())


GOOD = dict(number_of_samples=2, background_threshold_n_sigma=14,
            xray_threshold_n_sigma=100000, threshold_num_blocks=1)


def run(case, ctx):
    from stempy import io
    from stempy.image import electron_count
    lay = case['lay']
    w, h = lay['scan']
    v = lay['version']
    d = ctx.tmpdir()
    fs = files.write(lay, d, pixels(case, len(lay['frames'])))
    if case['shape'] == 'no-frames':
        for p in fs.paths:
            open(p, 'wb').close()
        fs.full, fs.sectors = {}, {}
        ctx.tag('no-frames')
    outside = set()
    if case['shape'] == 'outside':
        # a record that names a position outside of the scan
        rng = np.random.default_rng(case['seed'])
        ps = [p for p in fs.paths if fs.records[p]]
        p = ps[int(rng.integers(len(ps)))]
        k = int(rng.integers(len(fs.records[p])))
        with open(p, 'r+b') as f:
            f.seek(k * files.RECORD + 12)
            f.write(np.array([w + int(rng.integers(3)), h + 2],
                             '<u2').tobytes())
        s, i = fs.records[p][k]
        outside.add(i)
        ctx.tag('outside-scan')
    ident = {k: np.flatnonzero(a.reshape(-1) >= 400)
             for k, a in fs.full.items()}
    complete = [k for k in ident if len(fs.sectors[k]) == 4]
    if not complete:
        ctx.tag('no-complete')
    if case['content'] != 'spots':
        ctx.tag('constant')
    base = threads_now()

    if case['idle']:
        # readers that are never used
        rs = [io.reader(fs.paths, v, backend='thread', threads=3)
              for _ in range(3)]
        del rs
        settle(ctx, base)
        ctx.tag('unused-reader')

    def check(got, backend):
        """Of good counts of well-formed files."""
        keys = complete if backend == 'thread' else list(ident)
        want = {}
        for k in keys:
            want.setdefault(k[0], []).append(ident[k])
        n = max(len(x) for x in want.values())
        require(got.data.shape == (w * h, n), 'shape', got.data.shape)
        for pos in range(w * h):
            a = sorted(tuple(map(int, e)) for e in got.data[pos])
            b = sorted(tuple(map(int, e)) for e in
                       want.get(pos, []) + [[]] * (n - len(want.get(pos, []))))
            require(a == b, 'events', f'position {pos}: {[len(x) for x in a]} '
                    f'events, expected {[len(x) for x in b]}')
        ctx.tag('exact')

    good = case['content'] == 'spots' and complete and not outside
    ticks = [0]
    stop = threading.Event()

    def ticker():
        while not stop.wait(.002):
            ticks[0] += 1

    failures = 0
    for r in case['runs']:
        reader = call('reader', io.reader, fs.paths, v, backend=r['backend'],
                      threads=r['threads'])
        kw = dict(number_of_samples=r['samples'],
                  background_threshold_n_sigma=r['nb'],
                  xray_threshold_n_sigma=r['nx'],
                  threshold_num_blocks=r['blocks'],
                  scan_dimensions=tuple(r['scan']), verbose=r['verbose'],
                  apply_row_dark=r['rowdark'],
                  apply_row_dark_use_mean=r['mean'])
        if r['dark']:
            kw['darkreference'] = np.zeros((576, 576))
            ctx.tag('dark')
        if r['gain']:
            kw['gain'] = np.ones((576, 576), np.float32)
            ctx.tag('gain')
        if r['rowdark']:
            ctx.tag('row-dark')
        ordinary = r['fault'] and r['fault'][0] in ('short', 'eintr') \
            and good and r['gain'] is False
        if ordinary:
            kw = dict(darkreference=np.zeros((576, 576)), **GOOD)
        outcome = None
        stop.clear()
        ticks[0] = 0
        t = threading.Thread(target=ticker)
        t.start()
        t0 = time.time()
        try:
            with perturb.Perturb(r['perturb'], ctx), \
                    perturb.Fault(r['fault'], ctx) as fault:
                try:
                    got = electron_count(reader, **kw)
                    outcome = 'returned'
                except Exception as e:
                    # the traceback holds on to the reader
                    outcome = 'raised'
                    text = f'{type(e).__name__}: {e}'
                    if r['drop']:
                        del reader
                        reader = None
                        ctx.tag('reader-dropped-in-handler')
        finally:
            took = time.time() - t0
            stop.set()
            t.join()
        if took > 2:
            require(ticks[0] > 5, 'interpreter-blocked',
                    f'{ticks[0]} ticks in {took:.1f} s')
        ctx.tag(outcome, r['backend'])
        if outcome == 'raised':
            failures += 1
            require(text.split(':')[0] in (
                'ValueError', 'RuntimeError', 'MemoryError', 'OverflowError',
                'IndexError', 'TypeError', 'OSError'), 'strange-exception',
                text)
            if 'complete frames' in text:
                ctx.tag('too-few')
            if text.startswith('RuntimeError'):
                ctx.tag('fit-failed')
            ctx.count('raised')
            if ordinary:
                require(False, 'raised-on-valid-input', text)
            if r['blocks'] == 1 and good and not r['fault'] and \
                    r['samples'] == 2 and r['nb'] == 14. and \
                    r['nx'] == 1000. and r['scan'] == [0, 0] and \
                    not r['rowdark']:
                require(False, 'raised-on-valid-input', text)
        else:
            ctx.count('returned')
            require(len(got.data) > 0, 'empty-result')
            if ordinary:
                check(got, r['backend'])
        b = kw['threshold_num_blocks']
        if b < 0:
            ctx.tag('negative-blocks')
            require(outcome == 'raised', 'negative-blocks')
        elif b == 0:
            ctx.tag('zero-blocks')
        elif b > 10:
            ctx.tag('many-blocks')
            require(outcome == 'raised', 'more-blocks-than-frames')
        if 1 <= b < len(complete) and r['threads'] > 1:
            ctx.tag('waiting-workers')
        if not np.isfinite(r['nb']) or not np.isfinite(r['nx']) or \
                abs(r['nb']) > 1e9 or r['nb'] <= 0:
            ctx.tag('hostile-sigma')
        ctx.tag(f'samples:{r["samples"]}')
        ctx.nontrivial(outcome, r['backend'], r['threads'], b, r['samples'],
                       str(r['nb']), str(r['nx']), case['content'],
                       case['shape'], r['fault'])
        # the reader and the process are still of use
        if good and reader is not None and r['backend'] == 'multi-pass' and \
                not (r['fault'] and r['fault'][0] in ('eio', 'eof')):
            got = call('count-again', electron_count, reader,
                       np.zeros((576, 576)), **GOOD)
            check(got, 'multi-pass')
            ctx.tag('again-same-reader')
            pos = sorted(p for p, _ in ident)[0]
            keys = sorted(k for k in fs.full if k[0] == pos)
            fr = call('read_frames', reader.read_frames, pos,
                      range(len(keys)))
            require(len(fr) == len(keys), 'frames-after-count', len(fr))
            for a, k in zip(fr, keys):
                equal('frames-after-count',
                      np.asarray(a.data).reshape(576, 576), fs.full[k])
            ctx.tag('read-after-count')
        if reader is not None and r['backend'] == 'thread' and \
                case['seed'] % 4 == 1:
            # the files are used up, as far as the reader got: a count of
            # the rest ends as well
            with perturb.Perturb(r['perturb'], ctx):
                try:
                    electron_count(reader, **kw)
                    ctx.tag('rest-returned')
                except (ValueError, RuntimeError, OverflowError, TypeError,
                        OSError, IndexError) as x:
                    ctx.tag('rest-raised')
        if good and case['seed'] % 3 == 0:
            back = r['backend']
            r2 = call('reader', io.reader, fs.paths, v, backend=back,
                      threads=2)
            got = call('count-anew', electron_count, r2,
                       np.zeros((576, 576)), **GOOD)
            check(got, back)
            del r2
            ctx.tag('again-new-reader')
        reader = got = e = None
        settle(ctx, base)
    if failures > 1:
        ctx.tag('several-failures')
    files.cleanup(fs)
