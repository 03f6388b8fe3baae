"""C05: no data race in the threaded pipelines (ThreadSanitizer)."""
import os
import re
import threading

import numpy as np

from vf import counting, files, perturb, sources
from vf.api import Violation, call, equal

ID = 'C05'
PHASES = [dict(variant='tsan', perturb=True, timeout=240,
               count=dict(quick=240, thorough=8000))]
RULE = ('The library is built with ThreadSanitizer and driven through its '
        'Python API, with schedule perturbation: electron_count on '
        'single-pass and multi-pass readers (1-16 threads, all sampling '
        'options, dark, gain, row dark, incomplete and repeated sectors, too '
        'few frames, failing fits, image numbers outside of the scan), header '
        'scans and random access of multi-pass readers, STEM images and '
        'radial sums of all readers (with repeated positions), averages, and '
        'several Python threads running these on independent readers and on '
        'shared input arrays. Uses of open *.data files (read, seek, close) '
        'are reported to ThreadSanitizer as writes to a cell of that file, '
        'because the file streams themselves are not instrumented. Every race '
        'report that involves a frame of the library is a violation. '
        'Non-trivial: distinct cases in which at least two threads ran.')
REQUIRED = ['thread', 'multi-pass', 'stem', 'radial', 'headers', 'frames',
            'python-threads', 'incomplete', 'gain', 'rowdark', 'perturbed',
            'duplicates', 'classic', 'average', 'failed-count', 'threads:16',
            'same-position', 'truncated', 'repeated-sector', 'v4', 'v5',
            'outside-scan', 'shared-input', 'streams',
            'did:thread', 'did:multi-pass']
ASSUMPTIONS = ['A single reader is not used from two Python threads at the '
               'same time.',
               'Scan positions occur once in the data that STEM images are '
               'made of.',
               'libstdc++ and numpy are not instrumented; only reports with '
               'a frame in the library count.',
               'The pointer that the pybind11 headers initialise on first '
               'use (pybind11::detail::get_internals) is left out.']


def gen(rng, i, tier, phase):
    kind = str(rng.choice(['count', 'count', 'stem', 'radial', 'random',
                           'python']))
    case = dict(kind=kind, seed=int(rng.integers(1 << 31)),
                perturb=perturb.gen(rng))
    n = int(rng.integers(2, 4)) if kind == 'python' else 1
    case['jobs'] = [gen_job(rng, str(rng.choice(
        ['count', 'stem', 'radial', 'random'])) if kind == 'python' else kind)
        for _ in range(n)]
    case['shared'] = kind == 'python' and bool(rng.random() < .4)
    if case['shared']:
        case['jobs'] = [case['jobs'][0]] * n
    return case


def gen_job(rng, kind):
    job = dict(kind=kind)
    if kind in ('count', 'random'):
        lay = files.gen_layout(rng, version=5 if kind == 'random' else None,
                               fpp=int(rng.choice([1, 2, 4])), max_frames=7,
                               missing=float(rng.choice([0, .1, .3])),
                               unique=True)
        back = 'multi-pass' if kind == 'random' else str(rng.choice(
            ['thread', 'multi-pass']))
        if lay['version'] == 4:
            back = 'thread'
        job.update(lay=lay, backend=back, noise=counting.gen_noise(rng),
                   threads=int(rng.choice([1, 2, 3, 4, 8, 16])),
                   blocks=int(rng.integers(1, 5)),
                   dark=str(rng.choice(['none', 'zero', 'float'])),
                   gain=bool(rng.random() < .5),
                   rowdark=bool(rng.random() < .4),
                   usemean=bool(rng.random() < .5),
                   constant=bool(rng.random() < .1),
                   trunc=int(rng.choice([0, 0, 1, 2])),
                   repeat=bool(rng.random() < .25),
                   outside=bool(rng.random() < .08),
                   repeats=int(rng.choice([1, 1, 2])))
    else:
        src = sources.gen(rng, max_side=30, big=3,
                          duplicates=0 if kind == 'stem' else .5)
        job.update(src=src, center=bool(rng.random() < .5),
                   average=bool(rng.random() < .3),
                   classic=bool(rng.random() < .3))
    return job


def prepare(job, ctx):
    """Makes the input of a job (in the main thread)."""
    d = ctx.tmpdir()
    if 'lay' in job:
        lay = job['lay']
        if job['constant']:
            pix = np.full((len(lay['frames']), 576, 576), 60, np.uint16)
        else:
            pix = counting.noise(job['noise'], len(lay['frames']), floor=21)
        fs = files.write(lay, d, pix)
        ps = [p for p in sorted(fs.records) if fs.records[p]]
        for k in range(job['trunc']):
            p = ps[(k * 7) % len(ps)]
            with open(p, 'r+b') as f:
                f.truncate(len(fs.records[p]) * files.RECORD -
                           (100 if k else files.DATA + 3))
            ctx.tag('truncated')
        if job['repeat']:
            # the first record once more, at the end of another file
            first = fs.records[ps[0]][0][0]
            same = [p for p in ps if re.search(f'module0?{first}_',
                                               os.path.basename(p))]
            with open(ps[0], 'rb') as f:
                rec = f.read(files.RECORD)
            with open(same[-1], 'ab') as f:
                f.write(rec)
            ctx.tag('repeated-sector')
        if job['outside']:
            w, h = lay['scan']
            for s in range(4):
                p = [p for p in fs.paths
                     if re.search(f'module0?{s}_', os.path.basename(p))][0]
                with open(p, 'ab') as f:
                    f.write(files.header([w, h], 3 * w * h, 999999))
                    f.write(files.sector_data(pix[0], lay['version'], s))
            ctx.tag('outside-scan')
        if any(len(s) < 4 for s in fs.sectors.values()):
            ctx.tag('incomplete')
        if len({k[0] for k in fs.full}) < len(fs.full):
            ctx.tag('same-position')
        return fs
    src = job['src']
    rng = np.random.default_rng(src['seed'])
    frames = rng.integers(0, 3000, (len(src['pos']), *src['side'])) \
        .astype(np.uint16)
    if len(set(src['pos'])) < len(src['pos']):
        ctx.tag('duplicates')
    return frames, d


def drive(job, data, shared, ctx):
    """The work; may run in any thread. Exceptions are allowed, data races
    are what this check is about (other checks decide the results)."""
    from stempy import _image, io
    from stempy.image import (calculate_average, create_stem_images,
                              electron_count, radial_sum)
    tags = set()
    if 'lay' in job:
        fs = data
        lay = job['lay']
        reader = io.reader(fs.paths, lay['version'], backend=job['backend'],
                           threads=job['threads'])
        tags |= {job['backend'], f'threads:{job["threads"]}',
                 f'v{lay["version"]}'}
        if job['kind'] == 'random':
            reader.scan_shape
            tags.add('headers')
            try:
                n = reader.num_frames_per_scan
            except ValueError:
                return tags
            for pos, _ in list(fs.full)[:4]:
                try:
                    reader.read_frames(int(pos), None if n == 1 else 0)
                    tags.add('frames')
                except (ValueError, IndexError):
                    pass
        for _ in range(job['repeats'] if job['backend'] == 'multi-pass'
                       else 1):
            kw = {}
            if job['gain']:
                kw['gain'] = shared['gain']
                tags.add('gain')
            if job['rowdark']:
                tags.add('rowdark')
            try:
                electron_count(reader, {
                    'none': None, 'zero': shared['zero'],
                    'float': shared['dark']}[job['dark']],
                    number_of_samples=2, threshold_num_blocks=job['blocks'],
                    apply_row_dark=job['rowdark'],
                    apply_row_dark_use_mean=job['usemean'], **kw)
                tags.add(f'did:{job["backend"]}')
            except (ValueError, RuntimeError, IndexError):
                tags.add('failed-count')
        return tags
    frames, d = data
    src = job['src']
    s = sources.open_source(src, frames, d)
    kw = {}
    if not s.header_scan:
        kw['scan_dimensions'] = tuple(src['scan'])
    if job['center']:
        kw['center'] = (1, 2)
    if job['kind'] == 'stem':
        create_stem_images(s.reader, [0, 3, 5], [4, 9, 700], **kw)
        tags.add('stem')
    else:
        r = np.array(radial_sum(s.reader, **kw))
        tags.add('radial')
        h, w = src['side']
        c = kw.get('center', (w // 2, h // 2))
        if r.sum() != frames.sum(dtype=np.uint64):
            raise Violation('radial-sum', (r.sum(), frames.sum()))
    if job['average']:
        s.reader.reset()
        calculate_average(s.reader)
        tags.add('average')
    if job['classic'] and src['kind'] != 'stream1':
        s.reader.reset()
        o = _image.ElectronCountOptionsClassic()
        o.background_threshold, o.x_ray_threshold = 100., 2900.
        o.dark_reference = np.ones(src['side'], np.float32)
        _image.electron_count(s.reader.begin(), s.reader.end(), o)
        tags.add('classic')
    s.close()
    return tags


def run(case, ctx):
    rng = np.random.default_rng(case['seed'])
    shared = dict(zero=np.zeros((576, 576), np.float32),
                  dark=rng.uniform(0, 20, (576, 576)).astype(np.float32),
                  gain=rng.uniform(.8, 1.2, (576, 576)).astype(np.float32))
    if case['shared']:
        data = prepare(case['jobs'][0], ctx)
        datas = [data] * len(case['jobs'])
        if 'lay' not in case['jobs'][0]:
            datas = [(data[0], ctx.tmpdir()) for _ in case['jobs']]
        ctx.tag('shared-input')
    else:
        datas = [prepare(j, ctx) for j in case['jobs']]
    with perturb.Perturb(case['perturb'], ctx):
        if len(case['jobs']) == 1:
            ctx.tag(*drive(case['jobs'][0], datas[0], shared, ctx))
        else:
            out, errors = [], []
            go = threading.Barrier(len(case['jobs']))

            def work(j, x):
                try:
                    go.wait()
                    out.append(drive(j, x, shared, ctx))
                except BaseException as e:
                    errors.append(e)
            ts = [threading.Thread(target=work, args=z)
                  for z in zip(case['jobs'], datas)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            for e in errors:
                raise e
            for t in out:
                ctx.tag(*t)
            ctx.tag('python-threads')
    ctx.count('jobs', len(case['jobs']))
    ctx.nontrivial(case)
