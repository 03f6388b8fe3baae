"""C07: counting with iterator readers equals the definition."""
import warnings

import numpy as np

from vf import counting, sources
from vf.api import call, close, equal, require

ID = 'C07'
PHASES = [dict(variant='plain', count=dict(quick=2700, thorough=40000))]
RULE = ('The same generated frames (detector noise, blobs, plateaus, border '
        'hits, X-rays; 1 to 40 pixels a side, or 576x576) are counted through '
        'array, HDF5, stream (v1, v3) and sector readers with given '
        'thresholds, dark reference (none / zero / integer / fractional, '
        'several memory layouts), gain and row dark correction, and with '
        'stempy.image.electron_count, whose thresholds are recomputed. The '
        'events of each position are compared with the numpy definition. '
        'Non-trivial: at least one event expected.')
REQUIRED = ['array', 'hdf5', 'stream1', 'stream3', 'sector', 'dark:none',
            'dark:zero', 'dark:int', 'dark:float', 'gain', 'nogain',
            'rowdark-mean', 'rowdark-median', 'non-square', 'absent',
            'reordered', 'events', 'border-event', 'plateau', 'xray-cut',
            'high-level', 'odd-width', 'one-row', 'multi-block', 'permuted-'
            'dark', 'scan-dims-option', 'fractional-threshold', 'bright',
            'bright-median', 'large-scan', 'large-many', 'large-wide']
ASSUMPTIONS = ['The background threshold is not negative and frames have more '
               'than one pixel.',
               'The dark reference does not exceed the pixel when no gain is '
               'given; row statistics are positive.',
               'Every scan position occurs once in the data.']


def gen(rng, i, tier, phase):
    mode = str(rng.choice(['given', 'given', 'given', 'high']))
    if mode == 'high':
        src = sources.gen(rng, max_frames=12, min_side=36, max_side=64, big=2)
        # the samples come from one frame, so that they are known
        src['block'] = 1
        src['blocks'] = [1] * 64
        if src['kind'] == 'hdf5':
            src['pos'] = src['pos'][:1]
    else:
        src = sources.gen(rng, max_frames=25, min_side=1, max_side=30, big=3,
                          large=.012)
        if src['side'] == [1, 1]:
            src['side'] = [1, 2]
    noise = counting.gen_noise(rng, .15)
    level = noise['mu'] if noise['mu'] > 20000 else 0
    return dict(mode=mode, src=src, noise=noise,
                dark=counting.gen_dark(rng),
                darklayout=str(rng.choice(['C', 'F', 'strided', 'f8'])),
                gain=int(rng.integers(1 << 31)) if rng.random() < .45 else None,
                rowdark=bool(rng.random() < .4),
                usemean=bool(rng.random() < .5),
                optmean=float(np.float32(rng.uniform(20, 150)) +
                              np.float32(level)),
                # against the noise: low thresholds give dense events
                bg=float(rng.choice([0, 30, 60.5, 90, 120])) + level,
                xr=float(rng.choice([150, 300.5, 1000, 1e5])) + level,
                dims=bool(rng.random() < .4), seed=int(rng.integers(1 << 31)))


def layout(a, kind):
    if a is None:
        return None
    if kind == 'F':
        return np.asfortranarray(a)
    if kind == 'strided':
        b = np.zeros((a.shape[0] * 2, a.shape[1] * 3), a.dtype)
        b[::2, ::3] = a
        return b[::2, ::3]
    if kind == 'f8':
        return a.astype(np.float64)
    return a


def run(case, ctx):
    from stempy import _image
    from stempy.image import electron_count
    src = case['src']
    side = tuple(src['side'])
    dark = counting.dark(case['dark'], side)
    floor = 0 if dark is None else int(np.ceil(dark.max())) + 1
    noise = dict(case['noise'])
    if side[0] * side[1] < 5000:
        noise['density'] *= 10
    n = len(src['pos'])
    if noise['mu'] > 20000:
        ctx.tag('bright')
        if case['rowdark'] and not case['usemean']:
            ctx.tag('bright-median')
    frames = counting.noise(noise, n, side, floor=floor)
    gain = counting.gain(case['gain'], side)
    inv = counting.inverted(gain)
    s = sources.open_source(src, frames, ctx.tmpdir())
    w, h = src['scan']
    dims = (w, h) if case['dims'] or not s.header_scan else (0, 0)
    try:
        if case['mode'] == 'given':
            bg, xr = case['bg'], case['xr']
            optmean = case['optmean']
            o = _image.ElectronCountOptionsClassic()
            if dark is not None:
                o.dark_reference = layout(dark, case['darklayout'])
            if inv is not None:
                o.gain = layout(inv, case['darklayout'])
            o.background_threshold = bg
            o.x_ray_threshold = xr
            o.scan_dimensions = dims
            o.apply_row_dark_subtraction = case['rowdark']
            o.optimized_mean = optmean
            o.apply_row_dark_use_mean = case['usemean']
            data = call('electron_count', _image.electron_count,
                        s.reader.begin(), s.reader.end(), o)
            require(tuple(data.scan_dimensions) == (w, h), 'scan-dimensions',
                    data.scan_dimensions)
            require(tuple(data.frame_dimensions) == side[::-1],
                    'frame-dimensions', data.frame_dimensions)
            rows = [[np.array(e) for e in p] for p in data.data]
        else:
            if dark is None and gain is not None:
                dark = np.zeros(side, np.float32)
            first = next(s.reader)
            args = [[first._block]] + ([] if dark is None else [dark]) + \
                [2, 3.0, 15.0] + ([] if inv is None else [inv])
            try:
                t = _image.calculate_thresholds(*args)
            except RuntimeError:
                ctx.tag('no-fit')
                return
            s.reader.reset()
            bg, xr, optmean = t.background_threshold, t.xray_threshold, \
                np.float32(t.optimized_mean)
            del first, args
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                got = call('image.electron_count', electron_count, s.reader,
                           layout(dark, case['darklayout']),
                           number_of_samples=2,
                           background_threshold_n_sigma=3,
                           xray_threshold_n_sigma=15, scan_dimensions=dims,
                           gain=gain, apply_row_dark=case['rowdark'],
                           apply_row_dark_use_mean=case['usemean'])
            require(tuple(got.scan_shape) == (h, w), 'scan-shape',
                    got.scan_shape)
            require(tuple(got.frame_shape) == side, 'frame-shape',
                    got.frame_shape)
            rows = got.data
    finally:
        s.reader = None
        s.close()
    if bg < 0:
        ctx.tag('negative-threshold')
        return
    f = counting.preprocess(frames, dark, inv, bg, xr, classic=True,
                            rowdark=case['rowdark'], optmean=optmean,
                            usemean=case['usemean'])
    mx = counting.maxima(f)
    want = {p: [np.flatnonzero(mx[j])] for j, p in enumerate(src['pos'])}
    require(len(rows) == w * h, 'positions', len(rows))
    total = 0
    for p in range(w * h):
        require(len(rows[p]) == 1, 'frames-per-position', len(rows[p]))
        total += counting.check_events('events', rows[p], want.get(p, [()]),
                                       side[0] * side[1])
    ctx.count('events', total)
    ctx.count('frames', n)
    if src['large']:
        ctx.tag('large-' + src['large'])
    ctx.tag(src['kind'], f'dark:{case["dark"]["kind"]}',
            'gain' if gain is not None else 'nogain')
    if case['mode'] == 'high':
        ctx.tag('high-level')
    if case['rowdark']:
        ctx.tag('rowdark-mean' if case['usemean'] else 'rowdark-median')
    if side[0] != side[1]:
        ctx.tag('non-square')
    if side[1] % 2:
        ctx.tag('odd-width')
    if 1 in side:
        ctx.tag('one-row')
    if n < w * h:
        ctx.tag('absent')
    if src['pos'] != sorted(src['pos']):
        ctx.tag('reordered')
    if dark is not None and case['darklayout'] in ('F', 'strided'):
        ctx.tag('permuted-dark')
    if case['dims']:
        ctx.tag('scan-dims-option')
    if src['kind'] == 'array' and src['block'] < n or \
            src['kind'] == 'stream1' and len(s.sizes) > 1:
        ctx.tag('multi-block')
    if bg % 1:
        ctx.tag('fractional-threshold')
    if mx[:, 0].any() or mx[:, -1].any() or mx[:, :, 0].any() or \
            mx[:, :, -1].any():
        ctx.tag('border-event')
    if (frames.astype(float) - (0 if dark is None else dark) >= xr).any():
        ctx.tag('xray-cut')
    a = f[:, :, 1:]
    if ((a == f[:, :, :-1]) & (a > 0)).any():
        ctx.tag('plateau')
    if total:
        ctx.tag('events')
        ctx.nontrivial(case)
