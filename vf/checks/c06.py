"""C06: threshold statistics are those of the sampled data."""
import itertools
import math

import numpy as np

from vf import counting, files
from vf.api import Violation, call, close, require

ID = 'C06'
PHASES = [dict(variant='plain', count=dict(quick=1600, thorough=40000))]
RULE = ('_image.calculate_thresholds on blocks of array, HDF5, stream and '
        'sector readers (1-3 blocks, 1-3 frames each, square and non-square; up '
        'to 129 blocks for the range, mean and variance of the samples), '
        'and the metadata of electron_count on threaded readers. Every choice '
        'of frames that the random sampling could have made is enumerated in '
        'numpy; the reported mean, variance, minimum and maximum must be those '
        'of one of them. For that choice the histogram is rebuilt and the '
        'reported Gaussian must be a stationary point of its least-squares '
        'error; thresholds and echoed options are recomputed. With many '
        'samples every offered frame must have been drawn. Non-trivial: a '
        'unique choice was identified.')
REQUIRED = ['direct', 'thread', 'multi-pass', 'dark', 'nodark', 'gain',
            'nogain', 'dark>pixel', 'multi-block', 'multi-frame-block',
            'all-drawn', 'fit-checked', 'non-square', 'incomplete-present',
            'many']
ASSUMPTIONS = ['The fit is only examined for noise-like samples (standard '
               'deviation 1.5 to 40, not clipped at 0), for which the problem is well '
               'conditioned.',
               'The reported maximum is rounded up to an integer.',
               'Which frames are drawn is random; that every offered frame '
               'can be drawn is tested with error probability below 1e-12.']


def gen(rng, i, tier, phase):
    kind = str(rng.choice(['direct', 'many', 'thread', 'multi-pass'],
                          p=[.62, .08, .15, .15]))
    base = dict(kind=kind, dark=str(rng.choice(['none', 'zero', 'int', 'float',
                                                'large'])),
                gain=bool(rng.random() < .5),
                bg=float(rng.choice([0, 1, 4, 4.5, 7])),
                xr=float(rng.choice([1, 5, 10, 30])),
                mu=float(rng.uniform(20, 3000)), sd=float(rng.uniform(1.5, 40)),
                density=float(rng.choice([0, 0, .002, .01])),
                seed=int(rng.integers(1 << 31)))
    base['mu'] = max(base['mu'], 20 + 5 * base['sd'])
    if base['gain'] and base['dark'] == 'none' and kind == 'direct':
        base['dark'] = 'zero'
    if kind == 'many':
        nb = int(rng.choice([4, 9, 17, 33, 65, 129]))
        per = int(rng.choice([1, 1, 2, 5]))
        frames = nb * per
        base.update(side=[int(rng.integers(6, 12)), int(rng.integers(6, 12))],
                    blocks=[per] * nb, source='array', mu=300,
                    sd=float(rng.uniform(4, 20)), density=0, xr=30,
                    which=[int(rng.choice([frames - 1, 0, rng.integers(frames),
                                           rng.integers(frames)]))
                           for _ in range(2)])
        # the probability of missing a frame is below 1e-12
        n = math.ceil(28 * frames)
    elif kind == 'direct':
        side = [int(rng.integers(30, 80)), int(rng.integers(30, 80))]
        blocks = [int(rng.integers(1, 4))
                  for _ in range(int(rng.choice([1, 1, 2, 3])))]
        # all blocks but the last of a reader have the block size
        blocks = [blocks[0]] * (len(blocks) - 1) + \
            [min(blocks[0], blocks[-1])]
        base.update(side=side, blocks=blocks,
                    source=str(rng.choice(['array', 'stream'])))
        nf = sum(blocks)
        if rng.random() < .5 and nf <= 3:
            n = {1: int(rng.integers(1, 30)), 2: 45, 3: 75}[nf]
        else:
            n = int(rng.integers(1, 5))
    else:
        lay = files.gen_layout(rng, version=5 if kind == 'multi-pass' else None,
                               fpp=2, missing=float(rng.choice([0, .1])),
                               max_frames=5, unique=True)
        lay['frames'][0][2] = [0, 1, 2, 3]
        k = sum(len(f[2]) == 4 for f in lay['frames'])
        base.update(lay=lay, blocks=int(rng.integers(1, k + 1)),
                    threads=int(rng.choice([1, 2, 4])))
        n = int(rng.integers(1, 4))
    base['n'] = n
    return base


def make(case, n, shape):
    c = dict(mu=case['mu'], sd=case['sd'], density=case['density'], amp=150,
             plateau=False, border=False, xrays=0, seed=case['seed'])
    f = counting.noise(c, n, shape).astype(np.int64)
    if case['seed'] % 6 == 0 and not case['gain'] and \
            case['dark'] in ('none', 'zero'):
        # many pixels have the smallest value
        mu = int(case['mu'] - .9 * case['sd'])
        f = mu + abs(f - mu)
    # frames differ, so that choices can be told apart
    rng = np.random.default_rng(case['seed'] + 1)
    f += (rng.permutation(16)[:n])[:, None, None]
    f[:, 0, 0] += rng.permutation(200)[:n]
    return np.clip(f, 0, 60000).astype(np.uint16)


def make_dark(case, shape):
    rng = np.random.default_rng(case['seed'] + 2)
    k = case['dark']
    if k == 'none':
        return None
    if k == 'zero':
        return np.zeros(shape, np.float32)
    if k == 'int':
        return rng.integers(0, 15, shape).astype(np.float32)
    if k == 'float':
        return rng.uniform(0, 15, shape).astype(np.float32)
    # partly above the pixels: negative samples
    return (case['mu'] + rng.uniform(-20, 20, shape)).astype(np.float32)


def transform(frames, dark, inv):
    if inv is None:
        s = frames.astype(np.int64)
        if dark is not None:
            s = s - dark.astype(np.int64)
        return s
    s = frames.astype(np.float32)
    if dark is not None:
        s = s - dark
    s = s * inv
    assert s.dtype == np.float32
    return s


def check(ctx, r, case, frames, dark, inv, n, groups):
    """r: dict of statistics; frames: (k, h, w); groups: choices allowed."""
    require(r['number_of_samples'] == n, 'number-of-samples')
    require(r['x_ray_threshold_n_sigma'] == case['xr'] and
            r['background_threshold_n_sigma'] == case['bg'], 'n-sigma')
    s = transform(frames, dark, inv)
    k = len(s)
    flat = s.reshape(k, -1).astype(np.float64)
    npix = flat.shape[1]
    sums = np.array([math.fsum(x) for x in flat])
    mins, maxs = flat.min(1), flat.max(1)
    ref = flat.mean()
    sq = ((flat - ref) ** 2).sum(1)
    lin = (flat - ref).sum(1)
    matches = []
    for combo in itertools.combinations_with_replacement(range(k), n) \
            if n <= 4 else compositions(n, k):
        c = np.bincount(combo, minlength=k) if n <= 4 else np.array(combo)
        m = n * npix
        mean = (c @ sums) / m
        if not math.isclose(mean, r['mean'], rel_tol=1e-9, abs_tol=1e-7):
            continue
        d = mean - ref
        var = ((c @ sq) - 2 * d * (c @ lin) + m * d * d) / (m - 1)
        if not math.isclose(var, r['variance'], rel_tol=1e-7):
            continue
        used = c > 0
        if mins[used].min() != r['min_sample'] or \
                math.ceil(maxs[used].max()) != r['max_sample']:
            continue
        matches.append((c, mean, var))
    if not matches:
        raise Violation('sample-statistics',
                        f'no choice of {n} of the {k} frames has mean '
                        f'{r["mean"]!r}, variance {r["variance"]!r}, minimum '
                        f'{r["min_sample"]!r}, maximum {r["max_sample"]!r}; '
                        f'frame means {list(sums / npix)}, minima '
                        f'{list(mins)}, maxima {list(maxs)}')
    c, mean, var = matches[0]
    std = math.sqrt(var)
    require(math.isclose(r['std_dev'], std, rel_tol=1e-7), 'std-dev',
            (r['std_dev'], std))
    xr = mean + case['xr'] * std
    require(math.isclose(r['x_ray_threshold'], xr, rel_tol=1e-7, abs_tol=1e-6),
            'xray-threshold', (r['x_ray_threshold'], xr))
    om, os_ = r['optimized_mean'], r['optimized_std_dev']
    require(os_ >= 0, 'negative-std', os_)
    require(math.isclose(r['background_threshold'], om + case['bg'] * os_,
                         rel_tol=1e-12, abs_tol=1e-9),
            'background-threshold', (r['background_threshold'], om, os_))
    ctx.count('choices-identified')
    if len(matches) > 1:
        ctx.tag('ambiguous-choice')
        return
    ctx.nontrivial(case['seed'], n, k)
    # every offered frame can be drawn
    p = k * (1 - min(1 / groups, 1)) ** n if groups else 1
    if k == 1 or p < 1e-12:
        require(np.all(c > 0), 'frame-never-drawn', f'drawn {list(c)} of {n}')
        ctx.tag('all-drawn' if k > 1 else 'one-frame')
    # the histogram and its fit
    lo = max(r['min_sample'], mean - xr * std)
    hi = min(r['max_sample'], mean + xr * std)
    lo, hi = int(lo), int(hi)
    require(r['number_of_bins'] == hi - lo, 'number-of-bins',
            (r['number_of_bins'], lo, hi))
    hist = np.zeros(hi - lo)
    for j in range(k):
        v = flat[j]
        v = v[(v >= lo) & (v < hi)]
        if inv is not None:
            b = (v.astype(np.float32) - np.float32(lo)).astype(np.int64)
        else:
            b = (v - lo).astype(np.int64)
        hist += c[j] * np.bincount(b, minlength=hi - lo)
    if not 1.2 < std < 200 or len(hist) < 8:
        return
    x = np.arange(lo, hi, dtype=float)
    g = np.exp(-(x - om) ** 2 / (2 * os_ * os_))
    den = g @ g
    if not os_ > .5 or den < 1e-6:
        raise Violation('degenerate-fit', f'mean {om} std {os_} for samples '
                        f'of mean {mean} std {std}')
    a = (g @ hist) / den
    jac = np.stack([g, a * g * (x - om) / os_ ** 2,
                    a * g * (x - om) ** 2 / os_ ** 3], 1)
    res = hist - a * g
    if np.linalg.cond(jac / np.linalg.norm(jac, axis=0)) > 1e4:
        ctx.tag('ill-conditioned')
        return
    step = np.linalg.lstsq(jac, res, rcond=None)[0]
    ctx.tag('fit-checked')
    ctx.count('fits')
    require(abs(step[1]) < 5e-3 * os_ and abs(step[2]) < 5e-3 * os_,
            'fit-not-stationary', f'optimized mean {om}, std {os_}: one '
            f'Gauss-Newton step moves them by {step[1]}, {step[2]}')
    # of the noise, not of something else
    best = np.linalg.norm(res)
    require(best < 0.9 * np.linalg.norm(hist), 'fit-misses-the-histogram',
            (om, os_, mean, std))


def many(ctx, r, case, frames, dark, inv):
    """So many samples that every frame is among them."""
    s = transform(frames, dark, inv).reshape(len(frames), -1)
    s = s.astype(np.float64)
    require(r['number_of_samples'] == case['n'], 'number-of-samples')
    require(r['min_sample'] == s.min() and
            r['max_sample'] == math.ceil(s.max()), 'frame-never-drawn',
            f'minimum {r["min_sample"]}, maximum {r["max_sample"]}, not '
            f'{s.min()} of frame {s.min(1).argmin()}, {s.max()} of frame '
            f'{s.max(1).argmax()}; {len(s)} frames')
    # the frames are drawn independently: 12 standard deviations
    means = s.mean(1)
    n = case['n']
    require(abs(r['mean'] - means.mean()) <= 12 * means.std() / n ** .5 +
            1e-6 * abs(means.mean()), 'mean-of-many',
            (r['mean'], means.mean(), means.std()))
    sq = ((s - means.mean()) ** 2).mean(1)
    require(abs(r['variance'] - sq.mean()) <= 12 * sq.std() / n ** .5 +
            (12 * means.std() / n ** .5) ** 2 + 1e-3 * sq.mean(),
            'variance-of-many', (r['variance'], sq.mean(), sq.std()))
    ctx.count('frames-of-many', len(s))
    ctx.nontrivial(case['seed'], 'many')


def compositions(n, k):
    if k == 1:
        yield (n,)
        return
    for a in range(n + 1):
        for rest in compositions(n - a, k - 1):
            yield (a,) + rest


def run(case, ctx):
    from stempy import _image, io
    from stempy.image import electron_count
    if case['kind'] in ('direct', 'many'):
        h, w = case['side']
        n = sum(case['blocks'])
        if case['kind'] == 'many':
            frames = counting.noise(dict(
                case, amp=0, plateau=False, border=False, xrays=0),
                n, (h, w)).clip(100, 600)
            for v, j in zip((20, 900), case['which']):
                frames[j, 1 + (v > 20), 2] = v
        else:
            frames = make(case, n, (h, w))
        d = ctx.tmpdir()
        if case['source'] == 'array':
            reader = io.PyReader(frames, np.arange(n), (n, 1),
                                 case['blocks'][0], n)
        else:
            path = d + '/s'
            with open(path, 'wb') as f:
                k = 0
                for b in case['blocks']:
                    f.write(files.v1_block(frames[k:k + b],
                                           np.arange(k, k + b)))
                    k += b
            reader = io.reader(path, 1)
        # calculate_thresholds wants blocks of the same frame dimensions
        blocks = [b._block for b in reader]
        require(len(blocks) == len(case['blocks']), 'blocks', len(blocks))
        dark = make_dark(case, (h, w))
        rng = np.random.default_rng(case['seed'] + 3)
        inv = rng.uniform(.8, 1.25, (h, w)).astype(np.float32) \
            if case['gain'] else None
        args = [blocks] + ([] if dark is None else [dark]) + \
            [case['n'], case['bg'], case['xr']] + \
            ([] if inv is None else [inv])
        try:
            res = _image.calculate_thresholds(*args)
        except RuntimeError as e:
            raise Violation('fit-failed', str(e))
        r = {k: getattr(res, k) for k in (
            'background_threshold', 'number_of_samples', 'min_sample',
            'max_sample', 'mean', 'variance', 'std_dev', 'number_of_bins',
            'background_threshold_n_sigma', 'optimized_mean',
            'optimized_std_dev')}
        r['x_ray_threshold'] = res.xray_threshold
        r['x_ray_threshold_n_sigma'] = res.xray_threshold_n_sigma
        # probability of a frame is at least 1 / blocks / frames
        groups = len(case['blocks']) * max(case['blocks'])
        if case['kind'] == 'many':
            many(ctx, r, case, frames, dark, inv)
        else:
            check(ctx, r, case, frames, dark, inv, case['n'], groups)
        if len(blocks) > 1:
            ctx.tag('multi-block')
        if max(case['blocks']) > 1:
            ctx.tag('multi-frame-block')
        if h != w:
            ctx.tag('non-square')
    else:
        lay = case['lay']
        nf = len(lay['frames'])
        frames = make(case, nf, (576, 576))
        dark = make_dark(case, (576, 576))
        gain = counting.gain(case['seed']) if case['gain'] else None
        fs = files.write(lay, ctx.tmpdir(), frames)
        reader = call('reader', io.reader, fs.paths, lay['version'],
                      backend=case['kind'], threads=case['threads'])
        try:
            got = electron_count(
                reader, dark, number_of_samples=case['n'],
                background_threshold_n_sigma=case['bg'],
                xray_threshold_n_sigma=case['xr'],
                threshold_num_blocks=case['blocks'], gain=gain)
        except RuntimeError as e:
            raise Violation('fit-failed', str(e))
        finally:
            files.cleanup(fs)
        m = got.metadata['electron_counting']
        require(m['threshold_calculated'] is True, 'threshold-calculated')
        keep = [i for i, f in enumerate(lay['frames']) if len(f[2]) == 4]
        if len(keep) < nf:
            ctx.tag('incomplete-present')
        check(ctx, m, case, frames[keep], dark, counting.inverted(gain),
              case['n'], 0)
    ctx.tag(case['kind'], 'dark' if dark is not None else 'nodark',
            'gain' if case['gain'] else 'nogain')
    if case['dark'] == 'large':
        ctx.tag('dark>pixel')
