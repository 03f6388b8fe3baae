"""C30: counting distributed over MPI ranks gives every frame exactly once."""
import ctypes
import os
import pickle
import re
import signal
import socket
import sys
import time
import traceback

import numpy as np

from vf import files, perturb
from vf.api import Ctx, call, refused, require, Violation
from vf.checks.c04 import spots

ID = 'C30'
PHASES = [dict(variant='mpi', perturb=True, timeout=200,
               count=dict(quick=600, thorough=9000))]
RULE = ('The tree is built with stempy_ENABLE_MPI over stand-ins for the MPI, '
        'BigMPI and cereal libraries (none is installed): the ranks are '
        'processes joined by sockets, and the stand-in is at the same time '
        'the monitor of the communication (sizes and types of messages that '
        'do not match, collective operations in which the ranks disagree, '
        'messages nobody receives, calls from a second thread, a rank that '
        'waits for ever). Random v5 sector file sets whose frames carry '
        'unique sets of spots are counted by one to six ranks through the '
        'multi-pass reader: 1 to 4 threads each, file lists in a different '
        'order on every rank, random numbers of sample blocks, random '
        'delays in the ranks and before messages, random-access reads, '
        'second counts and further readers in between. Exactly-once monitor '
        'on rank 0: the events of every position are the multiset of the '
        'spot sets of its frames; on the other ranks, nothing that is not '
        'in the files. Random access on every rank is compared with the '
        'files, the shapes on every rank with the headers. Non-trivial '
        'evaluations are distinct (files, ranks, threads, samples, order of '
        'counting) combinations.')
REQUIRED = ['ranks:1', 'ranks:2', 'ranks:3', 'ranks:4', 'ranks:5', 'ranks:6',
            'rank-without-samples', 'rank-0-without-samples',
            'sampled-on-all', 'all-sampled', 'more-ranks-than-positions',
            'more-ranks-than-files', 'uneven-partition', 'multi-frame',
            'incomplete', 'recount', 'reads', 'new-reader', 'numframes',
            'large-scan', 'perturbed', 'frames-from-other-ranks',
            'dims-between', 'wide-samples', 'out-of-bounds', 'given-dimensions', 'row-dark']
ASSUMPTIONS = [
    'Only the multi-pass reader divides the scan among the ranks.',
    'The stand-ins behave as MPI, BigMPI and cereal do for the operations '
    'used; the real libraries are not installed.',
    'Every rank makes the same calls in the same order, every rank finds the '
    'complete frames it needs for its part of the samples, and a sector of a '
    'frame is in one file only.']


def gen(rng, i, tier, phase):
    lay = files.gen_layout(rng, version=5, big=.08,
                           fpp=int(rng.choice([1, 2, 4])),
                           missing=float(rng.choice([0, 0, .05, .2])),
                           max_frames=12, unique=True)
    # a complete frame at the last position: the last rank takes the rest of
    # the samples
    w, h = lay['scan']
    last = [f for f in lay['frames'] if f[0] == w * h - 1]
    if last:
        last[0][2] = [0, 1, 2, 3]
    else:
        fn = max(f[1] for f in lay['frames']) + 1
        lay['frames'].append([w * h - 1, fn & 0xffffffff, [0, 1, 2, 3]])
    ops = []
    for k in range(int(rng.choice([1, 2, 2, 3]))):
        for x in rng.permutation(4)[:int(rng.integers(3))]:
            ops.append([['reads', 'numframes', 'dims', 'bounds'][x],
                        int(rng.integers(1 << 30))])
        if k and rng.random() < .4:
            ops.append(['new', 0])
        ops.append(['count', float(rng.random()),
                    str(rng.choice(['one', 'all', 'few', 'random'])),
                    bool(rng.random() < .25), bool(rng.random() < .25)])
    if rng.random() < .4:
        ops.append(['reads', int(rng.integers(1 << 30))])
    return dict(lay=lay, ranks=int(rng.choice([1, 2, 2, 3, 3, 4, 5, 6])),
                threads=int(rng.choice([1, 2, 2, 4])), ops=ops,
                delay=int(rng.choice([0, 0, 300, 3000, 20000])),
                wide=bool(rng.random() < .15),
                perturb=perturb.gen(rng), seed=int(rng.integers(1 << 31)))


def library():
    with open('/proc/self/maps') as f:
        for line in f:
            if line.rstrip().endswith('libfakempi.so'):
                return ctypes.CDLL(line.split(None, 5)[5].rstrip())
    raise Violation('no-mpi', 'the module does not use the MPI library')


def share(n, ranks, r):
    """The share of rank r in n things: the last rank has the rest."""
    each = n // ranks
    return range(r * each, n if r == ranks - 1 else (r + 1) * each)


def possible(fs, ranks):
    """The numbers of sample blocks for which every rank has enough."""
    w, h = fs.scan
    have = []
    for r in range(ranks):
        part = share(w * h, ranks, r)
        have.append(sum(1 for k in fs.full
                        if k[0] in part and len(fs.sectors[k]) == 4))
    return [n for n in range(1, sum(have) + 1)
            if all(len(share(n, ranks, r)) <= have[r] for r in range(ranks))]


def wide(case):
    """Many samples: the frames of all ranks are seen in their statistics."""
    return case['wide'] and case['ranks'] in (2, 3)


def child(case, fs, ident, blocks, rank, ranks, d):
    """One rank: returns what it saw."""
    from stempy import io
    from stempy.image import electron_count
    ctx = Ctx(d)
    w, h = fs.scan
    rng = np.random.default_rng([case['seed'], rank])
    out = dict(counts=[], tags=ctx.tags, counters=ctx.counters)

    def reader():
        paths = [fs.paths[k] for k in rng.permutation(len(fs.paths))]
        return call('reader', io.reader, paths, 5, backend='multi-pass',
                    threads=case['threads'])

    with perturb.Perturb(case['perturb'], ctx):
        r = reader()
        counted = fresh = 0
        for op in case['ops']:
            if op[0] == 'new':
                r = reader()
                fresh += 1
                ctx.tag('new-reader')
            elif op[0] == 'reads':
                # another choice on every rank
                q = np.random.default_rng([op[1], rank])
                keys = sorted(fs.full)
                for _ in range(int(q.integers(1, 5))):
                    pos, fn = keys[int(q.integers(len(keys)))]
                    at = [k[1] for k in keys if k[0] == pos].index(fn)
                    got = call('read_frames', r.read_frames, pos, at)
                    require(np.array_equal(got.data, fs.full[pos, fn]),
                            'read-frames', f'rank {rank}: frame {fn} of '
                            f'position {pos} is not what the files hold')
                    ctx.count('reads')
                ctx.tag('reads')
            elif op[0] == 'bounds':
                refused('read_frames', r.read_frames, w * h, 0)
                refused('read_frames', r.read_frames, 0,
                        sum(1 for k in fs.full if k[0] == 0))
                ctx.tag('out-of-bounds')
            elif op[0] == 'numframes':
                n = call('num_frames_per_scan', lambda:
                         r.num_frames_per_scan)
                want = max(sum(1 for k in fs.full if k[0] == p)
                           for p in set(k[0] for k in fs.full))
                require(n == want, 'numframes',
                        f'rank {rank} of {ranks}: {n} instead of {want}')
                ctx.tag('numframes')
            elif op[0] == 'dims':
                s = call('scan_shape', lambda: r.scan_shape)
                require(tuple(s) == (h, w), 'scan-shape', f'rank {rank}: {s}')
                if counted:
                    ctx.tag('dims-between')
            else:
                kw = {}
                if op[3]:
                    kw = dict(scan_dimensions=(w, h))
                    ctx.tag('given-dimensions')
                if op[4]:
                    # (it scales the rows: the spots stay the only pixels
                    # above the threshold)
                    kw['apply_row_dark'] = True
                    ctx.tag('row-dark')
                got = call('electron_count', electron_count, r,
                           np.zeros((576, 576)),
                           number_of_samples=60 if wide(case) else 2,
                           background_threshold_n_sigma=14,
                           xray_threshold_n_sigma=100000,
                           threshold_num_blocks=blocks[len(out['counts'])],
                           **kw)
                if counted > fresh:
                    ctx.tag('recount')
                counted += 1
                require(tuple(got.scan_shape) == (h, w) and
                        tuple(got.frame_shape) == (576, 576), 'shapes',
                        f'rank {rank} of {ranks}: {got.scan_shape} '
                        f'{got.frame_shape}')
                out['counts'].append(dict(
                    shape=got.data.shape,
                    rows={p: [tuple(int(x) for x in e) for e in got.data[p]]
                          for p in range(len(got.data))
                          if any(len(e) for e in got.data[p])},
                    meta={k: float(v) for k, v in
                          (got.metadata.get('electron_counting') or {}).items()
                          if isinstance(v, (int, float))}))
    lib = library()
    lib.MPI_Finalize()
    stats = (ctypes.c_ulonglong * 3)()
    lib.vf_mpi_stats(stats)
    out['mpi'] = list(stats)
    return out


def check(ctx, case, fs, ident, rank, ranks, c):
    """Rank 0: all frames exactly once; others: none that does not exist."""
    w, h = fs.scan
    want = {}
    for k in ident:
        want.setdefault(k[0], []).append(k)
    nmax = max(len(x) for x in want.values())
    if rank == 0:
        require(c['shape'] == (w * h, nmax), 'data-shape',
                f'{c["shape"]} instead of {(w * h, nmax)}')
        require(80 < c['meta']['background_threshold'] < 390, 'threshold',
                c['meta'])
    require(c['shape'][0] == w * h and c['shape'][1] <= nmax, 'data-shape',
            f'rank {rank}: {c["shape"]}')
    orders = []
    for pos in sorted(set(c['rows']) | set(want)):
        due = {}
        for k in want.get(pos, []):
            due.setdefault(ident[k], []).append(k[1])
        order = []
        for e in c['rows'].get(pos, []):
            if e in due and due[e]:
                order.append(due[e].pop(0))
                continue
            if not e:
                continue
            owner = [k for k in ident if ident[k] == e]
            if owner and owner[0][0] == pos:
                require(False, 'counted-twice',
                        f'rank {rank} of {ranks}: frame {owner[0]}')
            require(not owner, 'wrong-position', f'rank {rank} of {ranks}: '
                    f'frame {owner[:1]} counted at position {pos}')
            require(False, 'wrong-events', f'rank {rank} of {ranks}: position '
                    f'{pos}: {len(e)} events, not those of any frame')
        left = [x for e, y in due.items() if e for x in y]
        if rank == 0:
            require(not left, 'lost-frame', f'{ranks} ranks: frames {left} of '
                    f'position {pos} were not counted')
            if ranks > 1 and pos not in share(w * h, ranks, 0):
                ctx.tag('frames-from-other-ranks')
        orders.append(tuple(order))
    return tuple(orders)


def run(case, ctx):
    import stempy.io, stempy.image                        # noqa: F401, E401
    lay, ranks = case['lay'], case['ranks']
    w, h = lay['scan']
    d = ctx.tmpdir()
    pixels = spots(case['seed'], len(lay['frames']))
    if wide(case):
        for i, f in enumerate(lay['frames']):
            # pixels of 4000 on the last rank, of 5 on the first
            if f[0] in share(w * h, ranks, ranks - 1):
                pixels[i][9::144, 8::144] = 4000
            elif f[0] in share(w * h, ranks, 0):
                pixels[i][7::144, 7::144] = 5
    fs = files.write(lay, d, pixels)
    ident = {k: tuple(int(x) for x in np.flatnonzero(a.reshape(-1) >= 400))
             for k, a in fs.full.items()}
    can = possible(fs, ranks)
    blocks = []
    for op in case['ops']:
        if op[0] == 'count':
            few = [n for n in can if n < ranks] or can
            blocks.append({'one': can[0], 'all': can[-1],
                           'few': few[int(op[1] * len(few) * .999)],
                           'random': can[int(op[1] * len(can) * .999)]}[op[2]])
    # the sockets between each two ranks
    ends = [[-1] * ranks for _ in range(ranks)]
    for a in range(ranks):
        for b in range(a):
            x, y = socket.socketpair()
            ends[a][b], ends[b][a] = x.detach(), y.detach()
    sys.stdout.flush()
    sys.stderr.flush()
    pids = {}
    for r in range(ranks):
        pid = os.fork()
        if pid == 0:
            status = 70
            try:
                for a in range(ranks):
                    for fd in ends[a]:
                        if a != r and fd >= 0:
                            os.close(fd)
                fd = os.open(os.path.join(d, f'err{r}'),
                             os.O_WRONLY | os.O_CREAT)
                os.dup2(fd, 2)
                os.environ['VF_MPI'] = ' '.join(
                    map(str, [r, ranks] + ends[r]))
                os.environ['VF_MPI_DELAY'] = f'{case["seed"]} {case["delay"]}'
                try:
                    res = child(case, fs, ident, blocks, r, ranks, d)
                    status = 0
                except Violation as e:
                    res, status = dict(viol=(e.key, e.msg)), 71
                except Exception as e:
                    res = dict(viol=(f'exception:{type(e).__name__}',
                                     traceback.format_exc()[-3000:]))
                    status = 71
                with open(os.path.join(d, f'res{r}'), 'wb') as f:
                    pickle.dump(res, f)
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(status)
        pids[pid] = r
    for a in range(ranks):
        for fd in ends[a]:
            if fd >= 0:
                os.close(fd)
    status, end = {}, time.time() + 90
    while pids and time.time() < end:
        for pid in list(pids):
            p, s = os.waitpid(pid, os.WNOHANG)
            if p:
                status[pids.pop(pid)] = s
        if pids:
            time.sleep(.003)
    hung = sorted(pids.values())
    for pid in pids:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)

    def err(r):
        with open(os.path.join(d, f'err{r}'), errors='replace') as f:
            return f.read()[-2500:]
    # The first cause, not what it does to the other ranks
    for r, s in sorted(status.items()):
        if os.WIFSIGNALED(s):
            text = err(r)
            kind = 'assertion' if 'Assertion' in text else 'crash'
            raise Violation(f'{kind}:{signal.Signals(os.WTERMSIG(s)).name}',
                            f'rank {r} of {ranks}, samples {blocks}: {text}')
    for r, s in sorted(status.items()):
        if os.WEXITSTATUS(s) == 71:
            with open(os.path.join(d, f'res{r}'), 'rb') as f:
                key, msg = pickle.load(f)['viol']
            raise Violation(key, f'rank {r} of {ranks}, samples {blocks}: '
                                 f'{msg}')
    for r, s in sorted(status.items()):
        if os.WEXITSTATUS(s) == 77:
            text = err(r)
            m = re.search(r'MPI-MONITOR: rank \d+: (.*)', text)
            raise Violation('communication', f'{ranks} ranks, samples '
                            f'{blocks}: rank {r}: {m.group(1) if m else text}')
    for r, s in sorted(status.items()):
        if os.WEXITSTATUS(s) != 0:
            raise RuntimeError(f'rank {r} of {ranks} ended with {s}: {err(r)}')
    require(not hung, 'hang', f'{ranks} ranks, samples {blocks}: ranks {hung} '
                              'did not come to their end within 90 s')

    out = []
    for r in range(ranks):
        with open(os.path.join(d, f'res{r}'), 'rb') as f:
            out.append(pickle.load(f))
    for r, o in enumerate(out):
        require(len(o['counts']) == len(blocks), 'counts', len(o['counts']))
        for k, c in enumerate(o['counts']):
            if r == 0 and wide(case):
                # (missed by chance once in 10^10 counts)
                m = c['meta']
                require(m['max_sample'] == 4000, 'samples-of-all-ranks',
                        f'{ranks} ranks, {blocks[k]} sample blocks: none of '
                        f'the last rank among 60 samples: {m}')
                if share(w * h, ranks, 0) and \
                        3 * len(share(blocks[k], ranks, 0)) >= blocks[k]:
                    require(m['min_sample'] == 5, 'samples-of-all-ranks',
                            f'{ranks} ranks, {blocks[k]} sample blocks: none '
                            f'of the first rank among 60 samples: {m}')
                ctx.tag('wide-samples')
            orders = check(ctx, case, fs, ident, r, ranks, c)
            ctx.count('counts')
            if r == 0:
                ctx.nontrivial(lay, ranks, case['threads'], blocks[k], orders)
                ctx.count('frames', len(ident))
        ctx.tag(*o['tags'])
        for k, n in o['counters'].items():
            ctx.count(k, n)
        ctx.count('mpi-operations', o['mpi'][0])
        ctx.count('mpi-bytes', o['mpi'][1])
    ctx.tag(f'ranks:{ranks}')
    for n in blocks:
        part = [len(share(n, ranks, r)) for r in range(ranks)]
        if ranks > 1:
            ctx.tag('rank-without-samples' if 0 in part else 'sampled-on-all')
            if part[0] == 0:
                ctx.tag('rank-0-without-samples')
        if n == sum(1 for k in ident if len(fs.sectors[k]) == 4):
            ctx.tag('all-sampled')
    if ranks > w * h:
        ctx.tag('more-ranks-than-positions')
    elif w * h % ranks:
        ctx.tag('uneven-partition')
    if ranks > len(fs.paths):
        ctx.tag('more-ranks-than-files')
    if w * h > 65535:
        ctx.tag('large-scan')
    if any(c['shape'][1] > 1 for c in out[0]['counts']):
        ctx.tag('multi-frame')
    if any(len(x) < 4 for x in fs.sectors.values()):
        ctx.tag('incomplete')
    files.cleanup(fs)
