"""Random sparse electron data and its dense model (independent of stempy)."""
import numpy as np

from vf.api import Violation, require


def rand_shape(rng, lo=1, hi=7):
    return [int(rng.integers(lo, hi + 1)), int(rng.integers(lo, hi + 1))]


def huge(i, every):
    """These take seconds: a fixed number of them in every run."""
    return {7: 'huge', 8: 'huge-frames'}.get(i % every)


def gen_params(rng, scan_dims=(1, 2), frame=None, scan=None, fps=None,
               large=0.0, huge=None):
    """JSON description of one random array. large: probability of numbers
    that do not fit into one or two bytes (scan positions, pixels, frames);
    huge: more than 65536 scan positions ('huge') or frames at one position
    ('huge-frames')."""
    p = _gen_params(rng, scan_dims, frame, scan, fps)
    if huge:
        p.update(scan=[260, 260] if len(p['scan']) == 2 else [67600],
                 frame=[min(x, 3) for x in p['frame']] if frame is None
                 else frame, fps=1, mode='sparse', large='huge')
        if huge == 'huge-frames':
            p.update(scan=[1] * len(p['scan']), fps=70000,
                     frame=[min(x, 2) for x in p['frame']],
                     large='huge-frames')
        return p
    if large and rng.random() < large:
        kinds = ['frames'] if fps is None else []
        if scan is None:
            kinds.append('scan')
        if frame is None:
            kinds += ['frame'] * 2
        kind = str(rng.choice(kinds)) if kinds else None
        if kind == 'frame':
            p['frame'] = [[1, 300], [300, 2], [20, 17], [300, 230], [2, 70000],
                          [40000, 2]][int(rng.integers(6))]
            p['scan'] = [min(x, 3) for x in p['scan']] if scan is None \
                else scan
        elif kind == 'scan':
            p['scan'] = [[17, 16], [2, 150], [300, 1]][
                int(rng.integers(3))] if len(p['scan']) == 2 else \
                [int(rng.choice([257, 300]))]
            p['frame'] = [min(x, 4) for x in p['frame']] if frame is None \
                else frame
        elif kind == 'frames':
            p['fps'] = int(rng.choice([257, 300]))
            p['scan'] = [min(x, 2) for x in p['scan']] if scan is None \
                else scan
        p['large'] = kind
        if p['mode'] in ('dense', 'equal', 'mixed', 'onepos'):
            p['mode'] = 'sparse'
    return p


def _gen_params(rng, scan_dims, frame, scan, fps):
    nd = int(rng.choice(scan_dims))
    scan = scan or (rand_shape(rng, 1, 5) if nd == 2
                    else [int(rng.integers(1, 9))])
    if rng.random() < 0.1:
        scan = [1] * len(scan)
    frame = frame or rand_shape(rng, 1, 7)
    return dict(scan=scan, frame=frame,
                fps=int(fps or rng.choice([1, 1, 2, 3, 5])),
                mode=str(rng.choice(['sparse', 'dense', 'mixed', 'equal',
                                     'onepos', 'corners', 'empty'],
                                    p=[.25, .2, .25, .1, .08, .07, .05])),
                dtype=str(rng.choice(['uint32', 'int64', 'uint32', 'uint64',
                                      'int32'])),
                dseed=int(rng.integers(1 << 31)))


def build(p):
    """Event lists [position][frame] -> sorted unique flat indices, as
    object array (num_scans, fps)."""
    rng = np.random.default_rng(p['dseed'])
    n = int(np.prod(p['scan']))
    size = int(np.prod(p['frame']))
    dt = np.dtype(p['dtype'])
    data = np.empty((n, p['fps']), dtype=object)
    mode = p['mode']
    k_eq = int(rng.integers(0, size + 1))
    special = int(rng.integers(n))
    few = rng.poisson(.4, n) if n > 65536 else None
    many = rng.poisson(2, p['fps']) if p['fps'] > 65536 else None
    for i in range(n):
        for j in range(p['fps']):
            if mode == 'empty':
                k = 0
            elif mode == 'equal':
                k = k_eq
            elif mode == 'dense':
                k = int(rng.integers(max(0, size - 3), size + 1))
            elif n > 65536:
                k = int(min(size, few[i]))
            elif p['fps'] > 65536:
                k = int(min(size, many[j]))
            elif mode == 'sparse':
                k = int(min(size, rng.poisson(1.2 if n * p['fps'] > 50 else
                                              min(200, 1.2 + size / 300))))
            elif mode == 'onepos':
                k = int(rng.integers(0, size + 1)) if i == special else 0
            elif mode == 'corners':
                k = -1
            else:
                k = int(rng.choice([0, 1, size, rng.integers(0, size + 1)]))
            if k < 0:
                h, w = p['frame']
                c = np.unique([0, w - 1, (h - 1) * w, h * w - 1])
                ev = c[rng.random(len(c)) < 0.6]
            elif k == 1:
                ev = rng.integers(size, size=1)
            else:
                ev = rng.choice(size, size=k, replace=False)
            if rng.random() < 0.8:
                ev = np.sort(ev)
            data[i, j] = np.ascontiguousarray(ev.astype(dt))
    if p['dseed'] % 11 == 0 and data.size < 5000:
        layouts(rng, data)
    return outer_layout(p['dseed'] % 7, data)


def outer_layout(k, data):
    """The same array of frames in another order in memory."""
    if k == 0:
        return np.asfortranarray(data)
    if k == 1:
        return data[::-1, ::-1].copy()[::-1, ::-1]
    if k == 2 and data.size < 100000:
        base = np.empty((data.shape[0] * 2, data.shape[1] + 1), object)
        base[::2, 1:] = data
        return base[::2, 1:]
    return data


def layouts(rng, data):
    """The same events in views: strided, reversed, write-protected."""
    for k in np.ndindex(data.shape):
        ev, u = data[k], rng.random()
        if u < .4:
            base = np.full(2 * len(ev) + 1, 3, ev.dtype)
            base[1::2] = ev
            ev = base[1::2]
        elif u < .6:
            ev = ev[::-1].copy()[::-1]
        elif u < .8:
            ev = np.concatenate([[1], ev, [2]]).astype(ev.dtype)[1:-1]
        if rng.random() < .3:
            ev.setflags(write=False)
        data[k] = ev
    return data


def flat(p, data, ctx):
    """One frame per position may be given as a one-dimensional array."""
    if p['fps'] == 1 and p['dseed'] % 3 == 0:
        ctx.tag('flat-data')
        return data[:, 0]
    return data


def dense(data, scan, frame):
    """The model: counts[scan..., row, col]."""
    n, size = int(np.prod(scan)), int(np.prod(frame))
    out = np.zeros((n, size), dtype=np.int64)
    for i in range(n):
        for ev in data[i]:
            np.add.at(out[i], np.asarray(ev).astype(np.int64), 1)
    return out.reshape(tuple(scan) + tuple(frame))


def lists(data):
    return [[np.asarray(x).astype(np.int64).tolist() for x in row]
            for row in data]


def check_wellformed(name, arr, unique=True):
    """Structural invariant of a SparseArray at a quiescent point."""
    size = int(np.prod(arr.frame_shape))
    n = int(np.prod(arr.scan_shape))
    require(arr.data.ndim == 2 and arr.data.shape[0] == n,
            f'structure:{name}', f'data shape {arr.data.shape} for scan shape '
            f'{arr.scan_shape}')
    for ev in arr.data.ravel():
        what = None
        if not (isinstance(ev, np.ndarray) and ev.ndim == 1 and
                ev.dtype.kind in 'iu'):
            what = 'frame entry'
        elif len(ev):
            if ev.min() < 0 or ev.max() >= size:
                what = 'coordinate out of frame'
            elif unique and len(ev) > 1 and len(np.unique(ev)) != len(ev):
                what = 'duplicate coordinate in a frame'
        if what:
            raise Violation(f'structure:{name}', f'{what}: {ev!r}')
