"""C23: phase reconstruction checked in real space with an explicit DFT."""
import warnings

import numpy as np

from vf.api import Violation, call, close, equal, require

ID = 'C23'
PHASES = [dict(variant='none', count=dict(quick=18000, thorough=600000))]
RULE = ('Random centre-of-mass fields of every small shape (even, odd, '
        'non-square, single row) go through phase_from_com with random '
        'angle, flip and regularisation; the result is compared with the '
        'defining equation evaluated by an explicit DFT matrix (no FFT), '
        'plus linearity, offset invariance and purity. filter_bad_sectors is '
        'compared with the neighbourhood median on the surviving values. '
        'Non-trivial: a non-constant field.')
REQUIRED = ['even', 'odd', 'nonsquare', 'flip', 'rotated', 'single-row',
            'filter', 'filter-edge', 'filter-corner', 'filter-none',
            'filter-adjacent', 'filter-isolated']


def gen(rng, i, tier, phase):
    return dict(shape=[int(rng.integers(1, 11)), int(rng.integers(1, 11))],
                theta=float(rng.choice([0, 0, np.pi / 2, -0.3, 1.234,
                                        rng.normal()])),
                flip=bool(rng.random() < 0.4),
                reg=float(rng.choice([1e-10, 1e-10, 1e-3, 0.5, 0])),
                seed=int(rng.integers(1 << 30)),
                dtype=str(rng.choice(['float64', 'float32'])),
                nbad=int(rng.choice([0, 1, 1, 2, 4])))


def freq(n):
    k = np.arange(n)
    return np.where(k < (n + 1) // 2, k, k - n) / n


def dft(n):
    k = np.arange(n)
    return np.exp(-2j * np.pi * np.outer(k, k) / n)


def phase_ref(com, theta, flip, reg):
    y, x = com[0].astype(float), com[1].astype(float)
    c, s = np.cos(theta), np.sin(theta)
    if flip:
        a, b = y * c + x * s, y * s - x * c
    else:
        a, b = y * c - x * s, y * s + x * c
    ny, nx = a.shape
    wy, wx = dft(ny), dft(nx)
    fa, fb = wy @ a @ wx.T, wy @ b @ wx.T
    ky, kx = freq(ny)[:, None], freq(nx)[None, :]
    den = 2j * np.pi * (kx ** 2 + ky ** 2) + reg
    den[0, 0] = 1
    f = (ky * fa + kx * fb) / den
    f[0, 0] = 0
    return (wy.conj() @ f @ wx.conj().T / (ny * nx)).real


def median_ref(com, cut, sequential):
    out = com.copy()
    bad = (com[1] > cut[1]) | (com[1] < cut[0])
    out[:, bad] = np.nan
    src = out if sequential else out.copy()
    for i, j in zip(*np.where(bad)):
        for k in range(2):
            win = src[k, max(0, i - 1):i + 2, max(0, j - 1):j + 2]
            v = win[~np.isnan(win)]
            out[k, i, j] = np.median(v) if len(v) else np.nan
    return out, bad


def run(case, ctx):
    from stempy.image import filter_bad_sectors, phase_from_com
    warnings.simplefilter('ignore')
    rng = np.random.default_rng(case['seed'])
    ny, nx = case['shape']
    com = rng.normal(0, 5, (2, ny, nx)).astype(case['dtype'])
    th, flip, reg = case['theta'], case['flip'], case['reg']
    keep = com.copy()
    got = call('phase_from_com', phase_from_com, com, theta=th, flip=flip,
               reg=reg)
    equal('purity:phase_from_com', com, keep)
    want = phase_ref(com, th, flip, reg)
    scale = 1e-9 * (1 + np.abs(want).max())
    if case['dtype'] == 'float32':
        scale = 2e-4 * (1 + np.abs(want).max()) * max(ny, nx)
    close('phase_from_com', got, want, atol=scale)
    require(np.isrealobj(got), 'real:phase_from_com')
    require(abs(got.mean()) <= scale, 'mean:phase_from_com', got.mean())
    ctx.tag('even' if nx % 2 == 0 and ny % 2 == 0 else 'odd')
    if nx != ny:
        ctx.tag('nonsquare')
    if ny == 1:
        ctx.tag('single-row')
    if flip:
        ctx.tag('flip')
    if th:
        ctx.tag('rotated')
    if case['dtype'] == 'float64':
        other = rng.normal(0, 5, com.shape)
        p2 = phase_from_com(other, theta=th, flip=flip, reg=reg)
        a, b = 2.5, -0.75
        lin = phase_from_com(a * com + b * other, theta=th, flip=flip, reg=reg)
        close('linearity', lin, a * got + b * p2, atol=10 * scale)
        off = com + np.array([3.0, -7.0])[:, None, None]
        close('offset', phase_from_com(off, theta=th, flip=flip, reg=reg), got,
              atol=10 * scale)
    if nx * ny > 1:
        ctx.nontrivial(case)
    # filter
    com = rng.normal(100, 1, (2, ny, nx)).astype(case['dtype'])
    n = min(case['nbad'], ny * nx)
    for _ in range(n):
        i, j = int(rng.integers(ny)), int(rng.integers(nx))
        if rng.random() < 0.4:
            i = int(rng.choice([0, ny - 1]))
        if rng.random() < 0.4:
            j = int(rng.choice([0, nx - 1]))
        com[1, i, j] = 500 if rng.random() < 0.5 else -500
    cut = (50, 150)
    if n == 0 and rng.random() < 0.5 and nx * ny > 3:
        # the bounds themselves are inside
        cut = (float(com[1].min()), float(com[1].max()))
    w1, bad = median_ref(com, cut, False)
    w2, _ = median_ref(com, cut, True)
    got = call('filter_bad_sectors', filter_bad_sectors, com.copy(), cut)
    if not bad.any():
        ctx.tag('filter-none')
    else:
        ctx.tag('filter')
        ii, jj = np.where(bad)
        e = ((ii == 0) | (ii == ny - 1), (jj == 0) | (jj == nx - 1))
        if (e[0] | e[1]).any():
            ctx.tag('filter-edge')
        if (e[0] & e[1]).any():
            ctx.tag('filter-corner')
        ctx.tag('filter-adjacent' if not np.array_equal(w1, w2, equal_nan=True)
                else 'filter-isolated')
    equal('filter.untouched', got[:, ~bad], com[:, ~bad])
    try:
        close('filter', got, w1, rtol=1e-6)
    except Violation:
        # repairing in scan order, from already repaired neighbours, is
        # accepted as well
        close('filter', got, w2, rtol=1e-6)
