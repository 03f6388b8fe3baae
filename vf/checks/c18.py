"""C18: SparseArray indexing against numpy on an independent dense model."""
import numpy as np

from vf import sparse
from vf.api import Violation, call, equal, refused, require

ID = 'C18'
PHASES = [dict(variant='none', count=dict(quick=36000, thorough=1500000))]
RULE = ('Random event arrays (1-D/2-D scans, non-square, several frames per '
        'position) are indexed with random keys (integers, slices with '
        'negative and over-long bounds and steps, integer lists with repeats '
        'and negatives, 1-D and 2-D boolean masks, Ellipsis) in sparse and '
        'dense mode, chained up to twice; every result is compared with the '
        'scan part and then the frame part applied to a numpy model. '
        'Non-trivial: the selected region contains at least one event.')
REQUIRED = ['mode:sparse', 'mode:dense', 'scan:int', 'scan:slice', 'scan:list',
            'scan:mask1', 'scan:mask2', 'frame:int', 'frame:slice',
            'frame:list', 'frame:mask1', 'frame:mask2', 'negative-step',
            'repeated-index', 'refused', 'independence', 'ellipsis',
            'result:sparse', 'result:dense', 'chained', 'empty-selection',
            'large-frame', 'large-scan', 'large-frames', 'large-huge', 'large-huge-frames', 'flat-data']
ASSUMPTIONS = ['Coordinates inside one event list are unique (the documented '
               'meaning: each value stands for 1 at that index).']


def gen_part(rng, dims):
    """One random index part for the given dims (list of encoded items)."""
    out = []
    if len(dims) == 2 and rng.random() < 0.15:
        m = rng.random(dims) < rng.choice([0.1, 0.5, 0.9])
        return [['m2', m.astype(int).tolist()]]
    n = len(dims) if rng.random() < 0.75 else int(rng.integers(0, len(dims)))
    adv = None
    for k in range(n):
        d = dims[k]
        r = rng.random()
        if r < 0.25:
            out.append(['i', int(rng.integers(-d, d))])
        elif r < 0.7:
            def b():
                return None if rng.random() < 0.35 else \
                    int(rng.integers(-d - 2, d + 3))
            step = rng.choice([None, 1, 2, 3, -1, -2])
            out.append(['s', b(), b(), None if step is None else int(step)])
        else:
            kind = rng.choice(['l', 'm1', 'a'])
            if kind == 'm1':
                out.append(['m1', (rng.random(d) < 0.5).astype(int).tolist()])
            else:
                ln = adv if adv is not None else int(rng.integers(1, d + 2))
                adv = ln
                out.append([str(kind), rng.integers(-d, d, ln).tolist()])
    # two advanced indices must broadcast: equal lengths
    lens = [np.sum(x[1]) if x[0] == 'm1' else len(x[1])
            for x in out if x[0] in ('l', 'a', 'm1')]
    if len(lens) == 2 and lens[0] != lens[1] and 1 not in lens:
        out[-1] = ['s', None, None, None]
    return out


ADV = ('l', 'a', 'm1', 'm2')


def decode(part):
    out = []
    for x in part:
        if x[0] == 'i':
            out.append(int(x[1]))
        elif x[0] == 'I':
            out.append(np.int64(x[1]))
        elif x[0] == 's':
            out.append(slice(*x[1:]))
        elif x[0] == 'l':
            out.append(list(x[1]))
        elif x[0] == 'a':
            out.append(np.array(x[1], dtype=np.int64))
        else:
            out.append(np.array(x[1], dtype=bool))
    return tuple(out)


def gen(rng, i, tier, phase):
    p = sparse.gen_params(rng, large=.012, huge=sparse.huge(i, 12000))
    keys = []
    scan, frame = p['scan'], p['frame']
    sp = gen_part(rng, scan)
    if any(x[0] == 'm2' for x in sp) or len(sp) == len(scan):
        fp = gen_part(rng, frame)
        if any(x[0] in ADV for x in sp) and any(x[0] in ADV for x in fp):
            fp = [x if x[0] not in ADV else ['s', None, None, None]
                  for x in fp]
    else:
        fp = []
    return dict(p=p, sp=sp, fp=fp, dense=bool(rng.random() < 0.4),
                ellipsis=int(rng.integers(0, 10)),
                bad=int(rng.integers(0, 20)), chain=bool(rng.random() < 0.3),
                cseed=int(rng.integers(1 << 30)))


def reference(model, nscan, sp, fp):
    frame = model.shape[nscan:]
    s = model[sp] if sp else model
    new_scan = np.empty(model.shape[:nscan], dtype=bool)[sp].shape
    flat = s.reshape((-1,) + frame)
    new_frame = np.empty(frame, dtype=bool)[fp].shape
    out = np.empty((len(flat),) + new_frame, dtype=model.dtype)
    for k in range(len(flat)):
        out[k] = flat[k][fp]
    return out.reshape(new_scan + new_frame), new_scan, new_frame


def as_dense(res, ctx, name):
    from stempy.io import SparseArray
    if isinstance(res, SparseArray):
        ctx.tag('result:sparse')
        sparse.check_wellformed(name, res)
        return sparse.dense(res.data, res.scan_shape, res.frame_shape)
    ctx.tag('result:dense')
    return np.asarray(res)


def tag_parts(ctx, where, part):
    names = {'i': 'int', 's': 'slice', 'l': 'list', 'a': 'list',
             'm1': 'mask1', 'm2': 'mask2'}
    for x in part:
        ctx.tag(f'{where}:{names[x[0]]}')
        if x[0] == 's' and x[3] is not None and x[3] < 0:
            ctx.tag('negative-step')
        if x[0] in ('l', 'a') and len(set(x[1])) < len(x[1]):
            ctx.tag('repeated-index')


def run(case, ctx):
    from stempy.io import SparseArray
    p = case['p']
    nscan = len(p['scan'])
    data = sparse.build(p)
    if p.get('large'):
        ctx.tag('large-' + p['large'])
    model = sparse.dense(data, p['scan'], p['frame'])
    a = SparseArray(sparse.flat(p, data, ctx), p['scan'], p['frame'],
                    sparse_slicing=not case['dense'], allow_full_expand=True)
    ctx.tag('mode:dense' if case['dense'] else 'mode:sparse')
    tag_parts(ctx, 'scan', case['sp'])
    tag_parts(ctx, 'frame', case['fp'])
    sp, fp = decode(case['sp']), decode(case['fp'])
    want, new_scan, new_frame = reference(model, nscan, sp, fp)
    key = sp + fp
    masks = sum(1 for x in case['sp'] + case['fp'] if x[0] == 'm2')
    used = len(key) + masks
    if case['ellipsis'] == 0 and used < len(p['scan']) + 2 and not fp and \
            len(sp) + (1 if masks else 0) == nscan:
        key = key + (Ellipsis,)
        ctx.tag('ellipsis')
    elif case['ellipsis'] == 1 and not sp:
        # numpy's meaning: the ellipsis stands for all missing axes
        fp2 = decode(gen_part(np.random.default_rng(case['cseed']),
                              p['frame']))
        if sum(2 if isinstance(x, np.ndarray) and x.ndim == 2 else 1
               for x in fp2) == 2:
            want, new_scan, new_frame = reference(model, nscan, (), fp2)
            key = (Ellipsis,) + fp2
            ctx.tag('ellipsis')
    if len(key) == 1 and case['ellipsis'] % 2:
        key = key[0]
    before = sparse.lists(a.data)
    res = call('getitem', a.__getitem__, key)
    got = as_dense(res, ctx, 'getitem')
    equal('getitem', got, want, f'key {key!r}')
    is_sparse = isinstance(res, SparseArray)
    scan_scalar = new_scan == () and sp
    if not case['dense'] and not scan_scalar and new_frame != ():
        require(is_sparse, 'kind:getitem', f'dense result for {key!r}')
    if case['dense']:
        require(not is_sparse, 'kind:getitem', 'sparse result in dense mode')
    if want.size == 0:
        ctx.tag('empty-selection')
    if want.any():
        ctx.nontrivial(p, case['sp'], case['fp'], case['dense'])
    # independence of the source
    if is_sparse:
        for row in res.data:
            for ev in row:
                ev[...] = 0
        res.data[...] = None
        ctx.tag('independence')
    elif isinstance(res, np.ndarray) and res.ndim:
        res[...] = 7
    require(sparse.lists(a.data) == before, 'aliasing:getitem',
            f'source changed through the result of {key!r}')
    require(a.shape == tuple(p['scan'] + p['frame']), 'purity:getitem')
    # a second indexing step on the result
    if case['chain'] and is_sparse and len(new_scan) in (1, 2) and \
            len(new_frame) == 2 and want.size:
        rng = np.random.default_rng(case['cseed'])
        res = a[key]
        sp2 = gen_part(rng, list(new_scan))
        fp2 = []
        if len(sp2) == len(new_scan):
            fp2 = gen_part(rng, list(new_frame))
            if any(x[0] in ADV for x in sp2) and any(x[0] in ADV for x in fp2):
                fp2 = []
        k2 = decode(sp2) + decode(fp2)
        want2, *_ = reference(want, len(new_scan), decode(sp2), decode(fp2))
        got2 = as_dense(call('getitem', res.__getitem__, k2), ctx, 'getitem')
        equal('getitem', got2, want2, f'keys {key!r} then {k2!r}')
        ctx.tag('chained')
    # indices that must be refused
    scan, frame = p['scan'], p['frame']
    full = (slice(None),) * nscan
    bad = [
        (scan[0],), (-scan[0] - 1,), full + (frame[0],), full + (0, frame[1]),
        full + (0, 0, 0), ([0],) + full[1:] + ([0],),
        (np.zeros((nscan + 1,) * 3, dtype=bool),),
        (np.zeros([x + 1 for x in scan], dtype=bool),),
        full + (np.zeros([x + 1 for x in frame], dtype=bool),),
        full + (np.zeros((2, 2), dtype=int),), (np.zeros((2, 2), dtype=int),),
        (None,), (Ellipsis, 0, Ellipsis), full + (None, 0),
        full + (np.zeros(frame[::-1] + [1], dtype=bool),),
        full + (0, np.zeros((1, 1), dtype=bool)), ('a',), (1.5,),
        full + (2.0,), full + (0, 'b'),
    ][case['bad']]
    refused('getitem', a.__getitem__, bad)
    ctx.tag('refused')
    if not case['dense'] or case['bad'] % 2:
        b = SparseArray(data, p['scan'], p['frame'])
        b.sparse_slicing = False
        refused('full-expansion', b.__getitem__, slice(None))
