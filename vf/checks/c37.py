"""C37: the HDF5 layer: what is written is read, and anything else refused."""
import os
import subprocess

import numpy as np

from vf import native
from vf.api import Violation, require

ID = 'C37'
TECHNIQUE = ('runtime monitoring of the real HDF5 layer under AddressSanitizer '
             'and UndefinedBehaviorSanitizer: every result of random programs '
             'against a model of the files and h5py, and the identifiers of '
             'the HDF5 library in use after every operation')
PHASES = [dict(variant='none', timeout=120,
               count=dict(quick=2500, thorough=60000))]
RULE = ('Random programs of up to 60 operations on up to two files at a time '
        '(groups, data sets of every type, rank 1 to 4, contiguous and '
        'chunked, written whole or region by region, attributes of every '
        'type, scalars, vectors and strings, on groups and data sets; every '
        'query and every way of reading, whole or with start, counts and '
        'strides; wrong types, missing, existing and misplaced paths, regions '
        'outside, files that cannot be opened, closed files, files opened for '
        'reading), on files written by the same layer and on files written by '
        'h5py (other types, byte orders, scalars, empty data spaces, fixed '
        'strings, soft links). Each result is compared with a model, the file '
        'afterwards with h5py, and after each operation no identifier of the '
        'library may be left open but those of the files, and the error '
        'handler of the program must be back. Non-trivial: programs with at '
        'least one value read back and one refusal.')
OPS = ['group', 'writev', 'writep', 'writed', 'create', 'update', 'setattr',
       'setattrv', 'setattrc', 'children', 'alldata', 'alldefault', 'hasany',
       'hasattr', 'attrtype', 'attrs', 'attr', 'isdata', 'isgroup', 'dtype',
       'ndim', 'dims', 'read1', 'readn', 'readp', 'readh']
REQUIRED = ['did:' + x for x in OPS if x not in
            ('isdata', 'isgroup', 'hasany', 'hasattr', 'children', 'alldata',
             'alldefault')] + \
    ['refused:' + x for x in OPS if x not in ('alldefault',)] + \
    ['foreign', 'reopened', 'read-only', 'cannot-open', 'closed',
     'two-files', 'chunked', 'strides', 'start', 'counts', 'wrong-type',
     'exists', 'large', 'truncated-old', 'multi-attr-refused', 'soft-link',
     'fixed-string', 'zero-size', 'scalar', 'long-name', 'deep'] + \
    ['type:%d' % k for k in range(10)]
ASSUMPTIONS = ['Arguments agree with each other: as many starts, counts, '
               'strides and dimensions as the data set has, buffers of the '
               'size asked for, strides and sizes positive, attribute vectors '
               'not empty.',
               'One thread.']
TYPES = ['i1', 'i2', 'i4', 'i8', 'u1', 'u2', 'u4', 'u8', 'f4', 'f8']
NAMES = ['Int8', 'Int16', 'Int32', 'Int64', 'UInt8', 'UInt16', 'UInt32',
         'UInt64', 'Float', 'Double', 'String']


def gen(rng, i, tier, phase):
    return dict(seed=int(rng.integers(1 << 31)), foreign=bool(i % 3 == 1),
                ops=int(rng.choice([8, 25, 60])), large=bool(i % 45 == 7))


def hx(b):
    return (b.encode('utf-8', 'surrogateescape') if isinstance(b, str)
            else bytes(b)).hex() or '-'


def lst(v):
    return '-' if v is None else ','.join(str(int(x)) for x in v)


class Node:
    def __init__(self, value=None, chunks=None, known=True):
        # known: of one of the types that the layer has; value: None for
        # groups
        self.value, self.chunks, self.known = value, chunks, known
        self.children, self.attrs = {}, {}
        self.link = None


class File:
    def __init__(self, path):
        self.path, self.root = path, Node()
        self.mode = None  # None (closed or not open), 'R', 'W'

    def find(self, path, depth=0):
        """The object at that path (absolute or from the root)."""
        if path == '' or depth > 9:
            return None
        n = self.root
        for part in [x for x in path.split('/') if x]:
            if n.value is not None or part not in n.children:
                return None
            n = n.children[part]
            if n.link is not None:
                n = self.find(n.link, depth + 1)
                if n is None:
                    return None
        return n

    def walk(self):
        out = []

        def go(n, path):
            out.append((path or '/', n))
            if n.value is None:
                for k, c in n.children.items():
                    if c.link is None:
                        go(c, path + '/' + k)
        go(self.root, '')
        return out


def datasets(n, prefix=''):
    out = []
    for k, c in n.children.items():
        if c.link is not None:
            continue
        if c.value is not None:
            out.append(prefix + k)
        else:
            out += datasets(c, prefix + k + '/')
    return out


def random_values(rng, t, shape):
    dt = np.dtype('<' + TYPES[t])
    n = int(np.prod(shape))
    a = np.frombuffer(rng.bytes(n * dt.itemsize), dt).reshape(shape)
    return a


NICE = ['a', 'b', 'data', 'frames', 'scan_positions', 'ü', 'with space',
        'Δ/x'.replace('/', '-'), 'A', 'a.b', 'zz', '0']


class Program:
    def __init__(self, rng, ctx, case, d):
        self.rng, self.ctx, self.case, self.d = rng, ctx, case, d
        self.lines, self.want = [], []
        self.files = {}
        self.live = 0

    def add(self, op, k, *args, want):
        self.lines.append(' '.join([op, str(k), *map(str, args)]))
        n = sum(f.mode is not None for f in self.files.values())
        self.want.append((want, n))

    # --- choices
    def pick_path(self, f, kind=None):
        rng = self.rng
        if kind is not None and rng.random() < .85:
            all_ = [p for p, n in f.walk()
                    if (n.value is None) == (kind == 'group')]
            links = [p for p in self.links(f)]
            if links and rng.random() < .2:
                p = str(rng.choice(links))
            elif not all_:
                return '/none'
            else:
                p = str(rng.choice(all_))
        elif rng.random() < .3:
            p = str(rng.choice(['/nothing', '/a/b/nothing', 'x', '/data/none',
                                '/A/']))
        else:
            p = str(rng.choice([p for p, n in f.walk()] + self.links(f)))
        if p != '/' and rng.random() < .15:
            p = p.lstrip('/') or '/'
        return p

    def links(self, f):
        out = []
        for p, n in f.walk():
            if n.value is None:
                out += [p.rstrip('/') + '/' + k for k, c in n.children.items()
                        if c.link is not None]
        return out

    def new_name(self, n):
        rng = self.rng
        if rng.random() < .08:
            self.ctx.tag('long-name')
            return 'n' * int(rng.choice([200, 1000])) + str(rng.integers(100))
        name = str(rng.choice(NICE))
        if n is not None and name in n.children and rng.random() < .7:
            name += str(rng.integers(1000))
        return name

    def shape(self):
        rng = self.rng
        if self.case['large'] and rng.random() < .5:
            self.ctx.tag('large')
            return [[70000], [300, 300], [2, 70000], [70000, 2],
                    [3, 40, 600]][rng.integers(5)]
        rank = int(rng.integers(1, 5))
        return [int(x) for x in rng.integers(1, [0, 13, 8, 6, 5][rank], rank)]

    # --- writing
    def did(self, op, ok, *tags):
        self.ctx.tag(('did:' if ok else 'refused:') + op)
        if ok:
            self.ctx.tag(*tags)
        return int(ok)

    def group(self, k):
        f = self.files[k]
        parent = self.pick_path(f, 'group')
        n = f.find(parent)
        name = self.new_name(n)
        path = parent.rstrip('/') + '/' + name
        ok = f.mode == 'W' and n is not None and n.value is None and \
            name not in n.children
        if ok:
            n.children[name] = Node()
            if path.count('/') > 3:
                self.ctx.tag('deep')
        self.add('group', k, hx(path), want=str(self.did('group', ok)))

    def write(self, k):
        rng, f = self.rng, self.files[k]
        op = str(rng.choice(['writev', 'writep', 'writed']))
        parent = self.pick_path(f, 'group')
        n = f.find(parent)
        name = self.new_name(n)
        t = int(rng.integers(10))
        shape = self.shape()
        v = random_values(rng, t, shape)
        ok = f.mode == 'W' and n is not None and n.value is None and \
            name not in n.children
        if n is not None and name in n.children:
            self.ctx.tag('exists')
        if op == 'writed' and rng.random() < .08:
            # not a type that data sets can have
            self.add(op, k, 10, hx(parent), hx(name), lst(shape),
                     hx(v.tobytes()), want=str(self.did(op, False)))
            return
        if ok:
            n.children[name] = Node(v)
        a = (hx(parent), hx(name), lst(shape), hx(v.tobytes()))
        self.ctx.tag(f'type:{t}')
        if op == 'writed':
            a = (t, *a)
        else:
            op = f'{op}:{t}'
        self.add(op, k, *a, want=str(self.did(op.split(':')[0], ok)))

    def create(self, k):
        rng, f = self.rng, self.files[k]
        parent = self.pick_path(f, 'group')
        n = f.find(parent)
        name = self.new_name(n)
        t = int(rng.integers(10)) if rng.random() < .95 else 10
        shape = self.shape()
        chunks = None
        valid = True
        how = rng.random()
        if how < .6:
            chunks = [int(rng.integers(1, min(s, 90) + 1)) for s in shape]
            if rng.random() < .1:
                chunks = chunks + [1]
                valid = False
            elif rng.random() < .1:
                j = int(rng.integers(len(shape)))
                chunks[j] = shape[j] + 1
                valid = False
        ok = f.mode == 'W' and n is not None and n.value is None and \
            name not in n.children and t < 10 and valid
        if ok:
            n.children[name] = Node(
                np.zeros(shape, '<' + TYPES[t]), chunks and tuple(chunks))
        self.add('create', k, t, hx(parent), hx(name), lst(shape),
                 lst(chunks) if chunks else
                 str(rng.choice(['default', '-'])),
                 want=str(self.did('create', ok,
                                   *(['chunked'] if chunks else []))))

    def region(self, shape):
        """start, counts (either may be None), whether it is inside, and the
        part of the array."""
        rng = self.rng
        start = [int(rng.integers(s)) for s in shape] \
            if rng.random() < .7 else None
        a = start or [0] * len(shape)
        counts = [int(rng.integers(1, s - b + 1)) for s, b in zip(shape, a)] \
            if rng.random() < .7 else None
        inside = True
        if counts and rng.random() < .12:
            j = int(rng.integers(len(shape)))
            counts[j] = shape[j] - a[j] + int(rng.integers(1, 3))
            inside = False
        n = counts or [s - b for s, b in zip(shape, a)]
        return start, counts, a, n, inside

    def update(self, k):
        rng, f = self.rng, self.files[k]
        path = self.pick_path(f, 'data')
        n = f.find(path)
        data = n is not None and n.value is not None and n.known and \
            n.value.ndim > 0 and n.value.size
        if data:
            shape = list(n.value.shape)
            t = TYPES.index(n.value.dtype.str[1:])
        else:
            shape, t = [2, 2], 5
        start, counts, a, m, inside = self.region(shape)
        v = random_values(rng, t, m)
        ok = f.mode == 'W' and bool(data) and inside
        if n is not None and n.value is not None and not data:
            return
        if rng.random() < .05:
            t, ok = 10, False
        if ok:
            new = n.value.copy()
            new[tuple(slice(x, x + y) for x, y in zip(a, m))] = v
            n.value = new
        self.add('update', k, t, hx(path), lst(shape), hx(v.tobytes()),
                 lst(start), lst(counts), want=str(self.did('update', ok)))

    def setattr(self, k):
        rng, f = self.rng, self.files[k]
        op = str(rng.choice(['setattr', 'setattrv', 'setattrc']))
        path = self.pick_path(f)
        n = f.find(path)
        name = str(rng.choice(NICE)) + (str(rng.integers(9)) if
                                        rng.random() < .5 else '')
        ok = f.mode == 'W' and n is not None and name not in n.attrs
        if n is not None and name in n.attrs:
            self.ctx.tag('exists')
        if op == 'setattrc':
            v = str(rng.choice(['', 'x', 'äöü', 'a longer text, 42 ' * 9,
                                'line\nbreak']))
            if ok:
                n.attrs[name] = ('s', v.encode())
            self.add(op, k, hx(path), hx(name), hx(v),
                     want=str(self.did(op, ok)))
            return
        t = int(rng.integers(10))
        v = random_values(rng, t, [1 if op == 'setattr' else
                                   int(rng.integers(1, 6))])
        if ok:
            n.attrs[name] = ('v', v)
        self.ctx.tag(f'type:{t}')
        self.add(f'{op}:{t}', k, hx(path), hx(name), hx(v.tobytes()),
                 want=str(self.did(op, ok)))

    # --- queries
    def query(self, k):
        rng, f = self.rng, self.files[k]
        op = str(rng.choice([
            'children', 'alldata', 'alldefault', 'hasany', 'hasattr',
            'attrtype', 'attrs', 'attr', 'attr', 'isdata', 'isgroup', 'dtype',
            'ndim', 'dims', 'read1', 'readn', 'readp', 'readh', 'readh']))
        if op.startswith('read') or op in ('dtype', 'ndim', 'dims'):
            return self.read(k, op)
        if 'attr' in op:
            return self.attr(k, op)
        group_op = op in ('children', 'alldata')
        path = self.pick_path(f, 'group' if group_op else None)
        n = f.find(path) if f.mode else None
        if op == 'alldefault':
            names = datasets(f.root) if f.mode else []
            self.add(op, k, want=('list', len(names), names))
        elif op == 'alldata':
            if rng.random() < .1:
                path, n = str(rng.choice(['', '/'])), f.root
                n = n if f.mode else None
            ok = n is not None and n.value is None
            names = datasets(n) if ok else []
            self.did(op, ok)
            self.add(op, k, hx(path), want=('list', len(names), names))
        elif op == 'children':
            ok = n is not None and n.value is None
            self.add(op, k, hx(path), want=('list', f'{self.did(op, ok)} 1',
                                            list(n.children) if ok else []))
        elif op == 'hasany':
            self.add(op, k, hx(path), want=str(self.did(
                op, n is not None and bool(n.attrs))))
        else:
            ok = n is not None and (n.value is not None) == (op == 'isdata')
            self.add(op, k, hx(path), want=str(self.did(op, ok)))

    def attr(self, k, op):
        rng, f = self.rng, self.files[k]
        # rather where there are some
        cand = [(p, a) for p, n in f.walk() for a in n.attrs]
        if cand and rng.random() < .85:
            path, name = cand[int(rng.integers(len(cand)))]
        else:
            path, name = self.pick_path(f), str(rng.choice(NICE))
        n = f.find(path) if f.mode else None
        have = n.attrs.get(name) if n is not None else None
        a = (hx(path), hx(name))
        if op == 'hasattr':
            self.add(op, k, *a, want=str(self.did(op, have is not None)))
        elif op == 'attrtype':
            name = 'None'
            if have is not None and have[0] in ('s', 'S'):
                name = 'String'
            elif have is not None and have[0] == 'v':
                name = NAMES[TYPES.index(have[1].dtype.str[1:])]
            self.did(op, name != 'None')
            self.add(op, k, *a, want=name)
        elif op == 'attrs':
            ok = have is not None and have[0] == 's'
            if have is not None and have[0] == 'S':
                self.ctx.tag('multi-attr-refused')
            self.add(op, k, *a, want='%d 1 %s' % (
                self.did(op, ok), hx(have[1]) if ok else '-'))
        else:
            t = int(rng.integers(10))
            if have is not None and have[0] == 'v' and rng.random() < .75:
                t = TYPES.index(have[1].dtype.str[1:])
            ok = have is not None and have[0] == 'v' and \
                TYPES.index(have[1].dtype.str[1:]) == t
            if have is not None and have[0] == 'v' and not ok:
                self.ctx.tag('wrong-type')
            if ok and have[1].size != 1:
                # more (or less) than one value is not a value
                self.ctx.tag('multi-attr-refused')
                ok = False
            self.add(f'attr:{t}', k, *a, want='%d %s' % (
                self.did(op, ok), hx(have[1].tobytes()) if ok else '-'))

    def read(self, k, op):
        rng, f = self.rng, self.files[k]
        path = self.pick_path(f, 'data')
        n = f.find(path) if f.mode else None
        data = n is not None and n.value is not None
        known = data and n.known
        t0 = TYPES.index(n.value.dtype.str[1:]) if known else None
        shape = list(n.value.shape) if data else None
        if op == 'dtype':
            self.did(op, known)
            return self.add(op, k, hx(path),
                            want=NAMES[t0] if known else 'None')
        if op == 'ndim':
            ok = data and len(shape) > 0
            self.did(op, ok)
            return self.add(op, k, hx(path), want=str(
                len(shape) if ok else -1))
        if op == 'dims':
            ok = data and len(shape) > 0
            self.did(op, ok)
            return self.add(op, k, hx(path), want=' '.join(
                map(str, [len(shape), *shape] if ok else [0])))
        t = t0 if known and rng.random() < .8 else int(rng.integers(10))
        right = known and t == t0
        if known and not right:
            self.ctx.tag('wrong-type')
        if right:
            self.ctx.tag(f'type:{t}')
        if op == 'read1':
            ok = right and len(shape) == 1
            self.did(op, ok)
            return self.add(f'{op}:{t}', k, hx(path), want=hx(
                n.value.tobytes()) if ok else '-')
        if op == 'readn':
            ok = right and len(shape) > 0
            if ok and n.value.size == 0:
                self.ctx.tag('zero-size')
            self.did(op, ok)
            dims = shape if data else []
            return self.add(f'{op}:{t}', k, hx(path), want=' '.join(
                [str(len(dims)), *map(str, dims),
                 hx(n.value.tobytes()) if ok else '-']))
        if op == 'readp':
            size = n.value.size if data else 3
            if data and not known:
                # a buffer for the data as it is
                size = n.value.size * 16
            ok = self.did(op, right)
            return self.add(f'{op}:{t}', k, hx(path), size, want='%d %s' % (
                ok, hx(n.value.tobytes()) if ok else '-'))
        # readh
        if data and (len(shape) == 0 or n.value.size == 0):
            return None
        if rng.random() < .05:
            t, right = 10, False
        s = shape or [2, 3]
        start, counts, a, m, inside = self.region(s)
        strides = None
        if rng.random() < .5:
            strides = [int(rng.integers(1, 4)) for _ in s]
            left = [(x - y) // z for x, y, z in zip(s, a, strides)]
            if counts is None:
                m = left
                if any(x == 0 for x in m):
                    # nothing to read: not what this is about
                    strides = [1] * len(s)
                    m = [x - y for x, y in zip(s, a)]
            else:
                last = [x + (c - 1) * z for x, c, z in zip(a, counts, strides)]
                inside = all(x < y for x, y in zip(last, s))
        if start is None and counts is None and strides is None:
            m = s
        st = strides or [1] * len(s)
        sel = tuple(slice(x, x + (c - 1) * z + 1, z)
                    for x, c, z in zip(a, m, st))
        ok = self.did(op, right and inside,
                      *[x for x, y in (('strides', strides), ('start', start),
                                       ('counts', counts)) if y])
        size = int(np.prod(m)) * (np.dtype(TYPES[t]).itemsize if t < 10 else 1)
        if known:
            size = int(np.prod(m)) * n.value.itemsize if not right else size
        self.add(op, k, t, hx(path), size, lst(strides), lst(start),
                 lst(counts), want='%d %s' % (
                     ok, hx(n.value[sel].tobytes()) if ok else '-'))
        return None

    # --- files
    def open(self, k, mode, path, content=None):
        """content: what a file opened for reading holds."""
        f = File(path)
        if mode == 'W':
            ok = os.path.isdir(os.path.dirname(path))
        else:
            ok = content is not None
            if ok:
                f.root = content
        f.mode = mode if ok else None
        if not ok:
            self.ctx.tag('cannot-open')
        self.files[k] = f
        how = mode if mode == 'W' else str(self.rng.choice(['R', 'r']))
        self.add('open', k, how, hx(path), want='')
        return f

    def close(self, k):
        op = str(self.rng.choice(['close', 'drop', 'close-drop']))
        f = self.files[k]
        f.mode = None
        if op != 'drop':
            self.add('close', k, want='')
            if self.rng.random() < .5:
                # everything is refused from now on
                self.ctx.tag('closed')
                for _ in range(3):
                    self.step(k)
                self.add('close', k, want='')
        self.add('drop', k, want='')
        del self.files[k]
        return f

    def step(self, k):
        f = self.files[k]
        x = self.rng.random()
        w = .5 if f.mode == 'W' else .12
        if x < w:
            if f.mode == 'R':
                self.ctx.tag('read-only')
            what = self.rng.choice(['group', 'write', 'write', 'create',
                                    'update', 'update', 'setattr', 'setattr'])
            getattr(self, str(what))(k)
        else:
            self.query(k)


def foreign(rng, path, ctx):
    """A file written by h5py, and its model."""
    import h5py
    root = Node()
    with h5py.File(path, 'w', track_order=bool(rng.random() < .3)) as f:
        where = [(f, root)]
        for _ in range(int(rng.integers(3, 12))):
            g, n = where[int(rng.integers(len(where)))]
            name = str(rng.choice(NICE)) + str(rng.integers(100))
            if name in n.children:
                continue
            kind = str(rng.choice(['group', 'data', 'data', 'data', 'other',
                                   'scalar', 'zero', 'link', 'order']))
            c = Node()
            if kind == 'group':
                where.append((g.create_group(name), c))
            elif kind == 'link':
                ctx.tag('soft-link')
                target = str(rng.choice(['/nowhere'] + [
                    '/' + x for x in datasets(root)]))
                g[name] = h5py.SoftLink(target)
                c.link = target
                n.children[name] = c
                continue
            else:
                t = int(rng.integers(10))
                shape = [int(x) for x in
                         rng.integers(1, 6, int(rng.integers(1, 4)))]
                if kind == 'scalar':
                    shape = []
                    ctx.tag('scalar')
                elif kind == 'zero':
                    shape[0] = 0
                v = random_values(rng, t, shape)
                c.value = v
                kw = {}
                if kind == 'other':
                    c.known = False
                    o = int(rng.integers(5))
                    if o == 0:
                        v = np.zeros(shape, 'f2')
                    elif o == 1:
                        v = np.zeros(shape, bool)
                    elif o == 2:
                        v = np.zeros(shape, [('x', 'u2'), ('y', 'f4')])
                    elif o == 3:
                        v = np.full(shape, b'text', 'S9')
                    else:
                        v = np.full(shape, 'text', object)
                        kw['dtype'] = h5py.string_dtype()
                    c.value = np.zeros(shape, 'u1')
                elif kind == 'order':
                    v = v.astype('>u4')
                    c.value, c.known = np.zeros(shape, 'u1'), False
                elif kind == 'data' and rng.random() < .5:
                    kw = dict(chunks=True, compression='gzip')
                g.create_dataset(name, data=v, **kw)
            n.children[name] = c
            o = g[name]
            for _ in range(int(rng.integers(0, 4))):
                an = str(rng.choice(NICE)) + str(rng.integers(9))
                if an in c.attrs:
                    continue
                a = str(rng.choice(['scalar', 'one', 'many', 'vlen', 'fixed',
                                    'strings', 'other', 'null', 'null-text']))
                t = int(rng.integers(10))
                if a == 'scalar':
                    v = random_values(rng, t, [])
                    c.attrs[an] = ('v', v)
                elif a in ('one', 'many'):
                    v = random_values(rng, t, [1] if a == 'one' else
                                      [int(rng.integers(2, 200))])
                    c.attrs[an] = ('v', v)
                elif a == 'vlen':
                    v = 'text äö ' * int(rng.integers(0, 5))
                    c.attrs[an] = ('s', v.encode())
                elif a == 'fixed':
                    ctx.tag('fixed-string')
                    v = b'fixed' * int(rng.integers(1, 5))
                    c.attrs[an] = ('s', v)
                    v = np.array(v, 'S%d' % (len(v) +
                                             int(rng.choice([0, 1, 20]))))
                elif a == 'strings':
                    v = np.array(['a', 'bc', 'd' * 100], object)
                    if rng.random() < .5:
                        v = v.astype('S100')
                    c.attrs[an] = ('S', None)
                elif a == 'other':
                    v = np.float16(2)
                    c.attrs[an] = ('x', None)
                elif a == 'null':
                    v = h5py.Empty('<' + TYPES[t])
                    c.attrs[an] = ('v', np.zeros(0, '<' + TYPES[t]))
                else:
                    v = h5py.Empty('S5')
                    c.attrs[an] = ('S', None)
                if isinstance(v, np.ndarray) and v.dtype == object:
                    o.attrs.create(an, v, dtype=h5py.string_dtype())
                else:
                    o.attrs[an] = v
    return root


def compare(path, root):
    """The file, read by h5py, against the model."""
    import h5py

    def go(g, n, where):
        require(isinstance(g, h5py.Dataset) == (n.value is not None),
                'file:kind', f'{where}: {g}')
        require(sorted(g.attrs) == sorted(n.attrs), 'file:attributes',
                f'{where}: {sorted(g.attrs)}, expected {sorted(n.attrs)}')
        for a, (kind, v) in n.attrs.items():
            got = g.attrs[a]
            if kind == 's':
                got = np.asarray(got, object).ravel()
                require(len(got) == 1, 'file:attribute', f'{where} {a}')
                s = got[0]
                s = s if isinstance(s, bytes) else \
                    s.encode('utf-8', 'surrogateescape')
                require(s == v, 'file:attribute', f'{where} {a}: {s} {v}')
            else:
                got = np.asarray(got)
                require(got.dtype == v.dtype and
                        got.tobytes() == v.tobytes(), 'file:attribute',
                        f'{where} {a}: {got!r}, expected {v!r}')
        if n.value is not None:
            got = g[()]
            require(got.dtype == n.value.dtype and got.shape == n.value.shape
                    and got.tobytes() == n.value.tobytes(), 'file:data',
                    f'{where}: {got!r:.300}, expected {n.value!r:.300}')
            require(g.chunks == n.chunks, 'file:chunks',
                    f'{where}: {g.chunks}, expected {n.chunks}')
            return
        require(sorted(g) == sorted(n.children), 'file:members',
                f'{where}: {sorted(g)}, expected {sorted(n.children)}')
        for k, c in n.children.items():
            go(g[k], c, where + '/' + k)
    with h5py.File(path, 'r') as f:
        go(f, root, '')


FLAGS = ('-O1 -g1 -fsanitize=address,undefined -fno-sanitize=vptr,function '
         '-fno-sanitize-recover=all -I/usr/include/hdf5/serial '
         '-L/usr/lib/x86_64-linux-gnu/hdf5/serial -Wl,--no-as-needed -lhdf5')


def run(case, ctx):
    rng = np.random.default_rng(case['seed'])
    d = ctx.tmpdir()
    exe = native.build('h5rw', FLAGS, ['.'], ['h5cpp/h5readwrite.cpp'],
                       cxx='clang++')
    p = Program(rng, ctx, case, d)
    p.add('names', 0, want=' '.join(['None'] + NAMES))
    written = {}
    if case['foreign']:
        ctx.tag('foreign')
        path = os.path.join(d, 'f.h5')
        root = foreign(rng, path, ctx)
        with open(path, 'rb') as f:
            before = f.read()
        p.open(0, 'R', path, root)
        n = 1
        if rng.random() < .3:
            p.open(1, 'R', path, root)
            n = 2
            ctx.tag('two-files')
        for _ in range(case['ops']):
            p.step(int(rng.integers(n)))
        for k in range(n):
            p.close(k)
    else:
        n = int(rng.choice([1, 1, 2]))
        if n == 2:
            ctx.tag('two-files')
        for k in range(n):
            path = os.path.join(d, f'w{k}.h5')
            if rng.random() < .3:
                # an old file is replaced
                foreign(rng, path, ctx)
                ctx.tag('truncated-old')
            if rng.random() < .06:
                path = os.path.join(d, 'missing', 'w.h5')
            p.open(k, 'W', path)
        for _ in range(case['ops']):
            p.step(int(rng.integers(n)))
        for k in range(n):
            opened = p.files[k].mode
            f = p.close(k)
            if opened:
                written[f.path] = f.root
        for path, root in written.items():
            if rng.random() < .6:
                ctx.tag('reopened')
                p.open(3, 'R', path, root)
                for _ in range(case['ops'] // 2 + 4):
                    p.step(3)
                p.close(3)
        if rng.random() < .2:
            bad = os.path.join(d, 'bad.h5')
            if rng.random() < .5:
                with open(bad, 'wb') as f:
                    f.write(rng.bytes(int(rng.choice([0, 8, 3000]))))
            p.open(4, 'R', bad)
            for _ in range(5):
                p.step(4)
            p.close(4)
    env = {k: v for k, v in os.environ.items() if not k.startswith('LD_')}
    env['ASAN_OPTIONS'] = 'detect_leaks=0:disable_coredump=1'
    env['UBSAN_OPTIONS'] = 'print_stacktrace=1'
    try:
        r = subprocess.run([exe], input='\n'.join(p.lines) + '\n', env=env,
                           capture_output=True, text=True, timeout=100,
                           errors='surrogateescape')
    except subprocess.TimeoutExpired as e:
        raise Violation('hang', f'{case}') from e
    lines = [x for x in r.stdout.split('\n') if x.startswith('R ')]
    values = refusals = 0
    for i, ((want, live), line) in enumerate(zip(p.want, p.lines)):
        op = line.split(' ')[0].split(':')[0]
        if i >= len(lines):
            break
        got, state = lines[i][2:].split('#')
        got = got.strip()
        if isinstance(want, tuple):
            head, names = want[1:]
            head = str(head)
            require(got == head or got.startswith(head + ' '), f'result:{op}',
                    f'{line}: {got}, expected {head}')
            rest = [bytes.fromhex(x).decode('utf-8', 'surrogateescape')
                    for x in got[len(head):].split()]
            require(sorted(rest) == sorted(names), f'result:{op}',
                    f'{line}: {rest}, expected {names}')
        else:
            require(got == want, f'result:{op}',
                    f'{line:.300}: {got:.300}, expected {want:.300}')
            if op.startswith(('read', 'attr')) and len(got) > 3:
                values += 1
            refusals += want.startswith('0')
        s = [int(x) for x in state.split()]
        require(s[:3] == [0, 0, 0] and s[4:8] == [0] * 4, f'left-open:{op}',
                f'{line:.300}: types, spaces, lists, files, sets, groups, '
                f'types, attributes in use: {s[:8]}')
        require(s[3] == live, f'files-open:{op}',
                f'{line:.300}: {s[3]} files, expected {live}')
        require(s[8] == 1, f'error-handler:{op}', f'{line:.300}')
    i = len(lines)
    at = p.lines[i].split(' ')[0].split(':')[0] if i < len(p.lines) else 'end'
    require(r.returncode == 0 and i == len(p.lines) + 1,
            f'died:{at}', f'{r.returncode} {r.stderr[-4000:]}')
    for path, root in written.items():
        compare(path, root)
    if case['foreign']:
        with open(path, 'rb') as f:
            require(f.read() == before, 'file:changed', path)
    ctx.count('operations', len(p.lines))
    ctx.count('values', values)
    ctx.evals = len(p.lines)
    if values and refusals:
        ctx.nontrivial(case)
    ctx.sample = dict(case, first=[x[:80] for x in p.lines[:4]])
