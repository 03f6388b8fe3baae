"""Reference model of electron counting, and frames to count.

Everything here is written from the documented definition in float32/uint16
numpy arithmetic; contents are chosen so that every intermediate result is
well defined (no negative float to unsigned conversion, sums exact)."""
import numpy as np

from vf.api import Violation, require

F = np.float32


def preprocess(frames, dark, gain, bg, xray, rowdark=False, optmean=0.0,
               usemean=True, classic=False):
    """frames: (n, h, w) uint16; gain: the inverted gain that is multiplied.
    Returns the thresholded frames (uint16 or float32)."""
    n, h, w = frames.shape
    if rowdark:
        left = w // 2
        fac = np.empty((n, h, 2), F)
        for k, sl in enumerate((slice(0, left), slice(left, w))):
            part = frames[:, :, sl]
            if part.shape[2] == 0:
                fac[:, :, k] = 1
                continue
            if usemean:
                stat = np.add.accumulate(part.astype(F), axis=2)[:, :, -1] / \
                    F(part.shape[2])
            else:
                s = np.sort(part, axis=2).astype(F)
                m = s.shape[2] // 2
                if s.shape[2] & 1:
                    stat = s[:, :, m]
                else:
                    stat = (s[:, :, m - 1] + s[:, :, m]) / F(2)
            fac[:, :, k] = F(optmean) / stat
        fac = np.repeat(fac, [left, w - left], axis=2)
    if gain is None:
        if rowdark:
            f = frames
            if dark is not None:
                f = (f.astype(F) - dark).astype(np.uint16)
            f = (f.astype(F) * fac).astype(np.uint16)
        elif dark is None:
            f = frames.copy()
        elif classic:
            f = (frames.astype(F) - dark).astype(np.uint16)
        else:
            f = frames - dark.astype(np.uint16)
    else:
        f = frames.astype(F)
        if dark is not None:
            f = f - dark
        if rowdark:
            f = f * fac
        f = f * gain
        assert f.dtype == F
    g = f.astype(np.float64)
    f = np.where((g <= bg) | (g >= xray), f.dtype.type(0), f)
    return f


def maxima(f):
    """Boolean map of the pixels strictly larger than all in-frame neighbours;
    a frame of zeros has none."""
    n, h, w = f.shape
    p = np.full((n, h + 2, w + 2), -1.0)
    p[:, 1:-1, 1:-1] = f
    c = p[:, 1:-1, 1:-1]
    ok = c > 0
    for dy in (0, 1, 2):
        for dx in (0, 1, 2):
            if (dy, dx) != (1, 1):
                ok &= c > p[:, dy:dy + h, dx:dx + w]
    return ok


def events(frames, *args, **kw):
    """List of sorted flat indices per frame."""
    m = maxima(preprocess(frames, *args, **kw))
    return [np.flatnonzero(x) for x in m.reshape(len(m), -1)]


def gen_noise(rng, bright=0.0):
    """bright: probability of a detector level in the upper half of 16 bits."""
    if bright and rng.random() < bright:
        c = gen_noise(rng)
        c['mu'] += float(rng.uniform(32000, 42000))
        return c
    return dict(mu=float(rng.uniform(40, 120)), sd=float(rng.uniform(3, 8)),
                density=float(rng.choice([0, 1e-4, 1e-3, 1e-2])),
                amp=int(rng.choice([60, 150, 400])),
                plateau=bool(rng.random() < 0.6),
                border=bool(rng.random() < 0.6),
                xrays=int(rng.choice([0, 0, 3])),
                seed=int(rng.integers(1 << 31)))


def noise(c, n, shape=(576, 576), floor=0):
    """n frames: detector noise, electrons (blobs, plateaus, border hits),
    X-rays."""
    rng = np.random.default_rng(c['seed'])
    h, w = shape
    base = rng.normal(c['mu'], c['sd'], (h, w))
    f = np.empty((n, h, w))
    for i in range(n):
        # cheaper than independent noise for every frame: shifted copies
        f[i] = np.roll(base, (int(rng.integers(h)), int(rng.integers(w))),
                       (0, 1))
    k = int(n * h * w * c['density'])
    if k:
        i, y, x = rng.integers(n, size=k), rng.integers(h, size=k), \
            rng.integers(w, size=k)
        a = rng.uniform(0.3, 2, k) * c['amp']
        f[i, y, x] += a
        q = rng.random(k) < 0.5
        f[i[q], y[q], np.minimum(x[q] + 1, w - 1)] += a[q] / 2
        q = rng.random(k) < 0.5
        f[i[q], np.minimum(y[q] + 1, h - 1), x[q]] += a[q] / 2
    if c['plateau']:
        for _ in range(8):
            i, y, x = rng.integers(n), rng.integers(h), rng.integers(w)
            f[i, y:y + int(rng.integers(1, 3)), x:x + 2] = \
                c['mu'] + c['amp'] * rng.uniform(0.5, 2)
    if c['border']:
        for _ in range(40):
            i = rng.integers(n)
            y, x = rng.integers(h), rng.integers(w)
            v = c['mu'] + c['amp'] * rng.uniform(0.5, 2)
            edge = rng.integers(5)
            if edge == 0:
                y = 0
            elif edge == 1:
                y = h - 1
            elif edge == 2:
                x = 0
            elif edge == 3:
                x = w - 1
            else:
                y, x = rng.choice([0, h - 1]), rng.choice([0, w - 1])
            f[i, y, x] = v
    for _ in range(c['xrays']):
        f[rng.integers(n), rng.integers(h), rng.integers(w)] = \
            rng.uniform(c['mu'] + 2000, max(c['mu'] + 3000, 40000))
    return np.clip(np.rint(f), max(floor, 1), 50000).astype(np.uint16)


def gen_dark(rng, kind=None):
    kind = kind or str(rng.choice(['none', 'zero', 'int', 'float']))
    return dict(kind=kind, level=float(rng.uniform(1, 20)),
                seed=int(rng.integers(1 << 31)))


def dark(c, shape=(576, 576)):
    rng = np.random.default_rng(c['seed'])
    if c['kind'] == 'none':
        return None
    if c['kind'] == 'zero':
        return np.zeros(shape, F)
    d = rng.uniform(0, c['level'], shape)
    if c['kind'] == 'int':
        d = np.rint(d)
    return d.astype(F)


def gain(c, shape=(576, 576)):
    """The gain to pass to electron_count (it is inverted there)."""
    if c is None:
        return None
    rng = np.random.default_rng(c)
    g = rng.uniform(0.8, 1.25, shape).astype(F)
    return g


def inverted(g):
    return None if g is None else np.power(g, -1)


def frames_of(row):
    return [np.asarray(x) for x in row]


def check_events(name, got, want, size):
    """got: event lists of a position (object row); want: list of arrays.
    Compared as multisets after padding with empty frames."""
    rows = []
    for ev in got:
        ev = np.asarray(ev)
        require(ev.ndim == 1, f'shape:{name}', ev.shape)
        if len(ev):
            require(np.all(np.diff(ev.astype(np.int64)) > 0),
                    f'order:{name}', 'event list not strictly increasing')
            require(int(ev[-1]) < size, f'range:{name}', int(ev[-1]))
        rows.append(tuple(int(x) for x in ev))
    want = [tuple(int(x) for x in w) for w in want]
    require(len(rows) >= len(want), f'lost-frames:{name}',
            f'{len(rows)} event lists for {len(want)} frames')
    want += [()] * (len(rows) - len(want))
    if sorted(rows) != sorted(want):
        from collections import Counter
        a, b = Counter(rows), Counter(want)
        extra, lost = list((a - b)), list((b - a))
        detail = ''
        if extra and lost:
            e, l = set(extra[0]), set(lost[0])
            detail = (f'; e.g. {len(e - l)} extra {sorted(e - l)[:5]}, '
                      f'{len(l - e)} missing {sorted(l - e)[:5]}')
        raise Violation(f'value:{name}', f'{len(extra)} wrong event lists '
                        f'(lengths {[len(x) for x in extra][:5]}), expected '
                        f'{[len(x) for x in lost][:5]}{detail}')
    return sum(len(r) for r in rows)
