"""C03: threaded counting returns exactly the thresholded local maxima."""
import numpy as np

from vf import counting, files
from vf.api import Violation, call, close, require

ID = 'C03'
PHASES = [dict(variant='plain', count=dict(quick=650, thorough=14000))]
RULE = ('Random v4/v5 sector files (1-3 frames per position, missing sectors, '
        'absent positions) holding detector noise with electron blobs, '
        'plateaus, border and corner hits and X-rays are counted with '
        'electron_count through the single-pass and multi-pass backends with '
        'random dark reference (none / zero / integer / fractional), gain, '
        'row dark (mean / median), sigmas, sample options and threads. Every '
        'event list is compared with the local maxima computed in numpy from '
        'the raw frames and the thresholds in the metadata. Non-trivial: at '
        'least one event expected.')
REQUIRED = ['thread', 'multi-pass', 'v4', 'v5', 'dark:none', 'dark:zero',
            'dark:int', 'dark:float', 'gain', 'nogain', 'rowdark-mean',
            'rowdark-median', 'multi-frame', 'incomplete', 'padded',
            'xray-cut', 'border-event', 'plateau', 'events', 'gain+rowdark',
            'scan-dims-option', 'large-scan', 'bright', 'bright-median']
ASSUMPTIONS = ['Frame numbers are unique in an acquisition.',
               'Thresholds are taken from the metadata (C06 decides whether '
               'they are right); the background threshold is not negative.',
               'Pixels stay below 50000 and row statistics are positive, so '
               'that every intermediate value of the row dark correction is '
               'representable.',
               'With row dark correction and without gain the dark reference '
               'does not exceed the pixel.']


def gen(rng, i, tier, phase):
    backend = str(rng.choice(['thread', 'multi-pass']))
    lay = files.gen_layout(rng, big=.02,
                           version=5 if backend == 'multi-pass' else None,
                           fpp=int(rng.choice([1, 1, 2, 3])),
                           missing=float(rng.choice([0, 0, .08])),
                           max_frames=7, unique=True)
    # at least one complete frame, to sample from
    lay['frames'][0][2] = [0, 1, 2, 3]
    nocomplete = sum(len(f[2]) == 4 for f in lay['frames'])
    return dict(backend=backend, lay=lay, noise=counting.gen_noise(rng, .15),
                dark=counting.gen_dark(rng),
                gain=int(rng.integers(1 << 31)) if rng.random() < .45 else None,
                rowdark=bool(rng.random() < 0.45),
                usemean=bool(rng.random() < 0.5),
                samples=int(rng.choice([1, 2, 4])),
                blocks=int(rng.integers(1, min(4, nocomplete) + 1)),
                bg=float(rng.choice([2, 3, 4, 4.5, 6])),
                xr=float(rng.choice([5, 10, 20, 50])),
                threads=int(rng.choice([0, 1, 2, 4, 8])),
                dims=bool(rng.random() < 0.3))


def run(case, ctx):
    from stempy import io
    from stempy.image import electron_count
    lay = case['lay']
    dark = counting.dark(case['dark'])
    floor = 0
    if dark is not None:
        floor = int(np.ceil(dark.max())) + 1
        if case['gain'] is None and not case['rowdark']:
            floor = 0
    gain = counting.gain(case['gain'])
    pix = counting.noise(case['noise'], len(lay['frames']), floor=floor)
    fs = files.write(lay, ctx.tmpdir(), pix)
    scan = lay['scan']
    opts = {}
    if case['threads']:
        opts['threads'] = case['threads']
    reader = call('reader', io.reader, fs.paths, lay['version'],
                  backend=case['backend'], **opts)
    dims = tuple(scan) if case['dims'] else (0, 0)
    try:
        got = call('electron_count', electron_count, reader, dark,
                   number_of_samples=case['samples'],
                   background_threshold_n_sigma=case['bg'],
                   xray_threshold_n_sigma=case['xr'],
                   threshold_num_blocks=case['blocks'], scan_dimensions=dims,
                   gain=gain, apply_row_dark=case['rowdark'],
                   apply_row_dark_use_mean=case['usemean'])
    except Violation as e:
        # far from zero the fit may fail, and then it has to say so
        if case['noise']['mu'] > 20000 and 'did not converge' in e.msg:
            ctx.tag('no-fit')
            return
        raise
    files.cleanup(fs)
    m = got.metadata['electron_counting']
    bg, xr = m['background_threshold'], m['x_ray_threshold']
    require(tuple(got.scan_shape) == (scan[1], scan[0]), 'scan-shape',
            got.scan_shape)
    require(tuple(got.frame_shape) == (576, 576), 'frame-shape')
    if bg < 0:
        ctx.tag('negative-threshold')
        return
    if case['noise']['mu'] > 20000:
        ctx.tag('bright')
        if case['rowdark'] and not case['usemean']:
            ctx.tag('bright-median')
    want = {}
    keys = [k for k in fs.full if case['backend'] == 'multi-pass' or
            len(fs.sectors[k]) == 4]
    stack = np.stack([fs.full[k] for k in keys])
    if case['rowdark'] and any(len(fs.sectors[k]) < 4 for k in keys):
        # rows of missing sectors have no positive statistic
        ctx.tag('skipped-incomplete-rowdark')
        return
    if any(len(fs.sectors[k]) < 4 for k in fs.full):
        ctx.tag('incomplete')
        if case['gain'] is None and dark is not None and \
                xr > 65536 - dark.max() - 1:
            return
    inv = counting.inverted(gain)
    args = dict(rowdark=case['rowdark'], optmean=m['optimized_mean'],
                usemean=case['usemean'])
    f = counting.preprocess(stack, dark, inv, bg, xr, **args)
    mx = counting.maxima(f)
    for j, k in enumerate(keys):
        want.setdefault(k[0], []).append(np.flatnonzero(mx[j]))
    nmax = max(len(x) for x in want.values())
    npos = scan[0] * scan[1]
    require(got.data.shape == (npos, nmax), 'data-shape',
            f'{got.data.shape}, expected {(npos, nmax)}')
    total = 0
    for pos in range(npos):
        total += counting.check_events('events', got.data[pos],
                                       want.get(pos, []), 576 * 576)
        if len(want.get(pos, [])) < nmax:
            ctx.tag('padded')
    ctx.count('events', total)
    ctx.count('frames', len(keys))
    # the situations that the statement singles out
    ctx.tag(case['backend'], f'v{lay["version"]}',
            f'dark:{case["dark"]["kind"]}')
    ctx.tag('gain' if gain is not None else 'nogain')
    if case['rowdark']:
        ctx.tag('rowdark-mean' if case['usemean'] else 'rowdark-median')
        if gain is not None:
            ctx.tag('gain+rowdark')
    if nmax > 1:
        ctx.tag('multi-frame')
    if max(want) > 65535:
        ctx.tag('large-scan')
    if case['dims']:
        ctx.tag('scan-dims-option')
    if total:
        ctx.tag('events')
    if mx[:, 0].any() or mx[:, -1].any() or mx[:, :, 0].any() or \
            mx[:, :, -1].any():
        ctx.tag('border-event')
    if (stack.astype(float) - (0 if dark is None else dark) >= xr).any():
        ctx.tag('xray-cut')
    a = f[:, :, 1:]
    if ((a == f[:, :, :-1]) & (a > 0)).any():
        ctx.tag('plateau')
    if total:
        ctx.nontrivial(case)
