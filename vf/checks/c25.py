"""C25: scan path lookup against an independent reading of the names."""
import os
import re
from pathlib import Path

import numpy as np

from vf.api import Violation, require

ID = 'C25'
PHASES = [dict(variant='none', count=dict(quick=60000, thorough=1500000))]
RULE = ('Random directories of files in both naming schemes (numbers that are '
        'prefixes and ends of one another, all suffixes, thresholds, unrelated files) '
        'are queried with random scan numbers, ids, thresholds, suffixes and '
        'versions; result or exception is compared with an independent parse '
        'of the names. Non-trivial: the directory has a file of the scheme.')
REQUIRED = ['found', 'none', 'ambiguous', 'v1', 'v0', 'fallback', 'prefix-id',
            'prefix-num', 'end-of-id', 'end-of-num', 'suffix', 'th', 'by-id', 'by-num', 'both',
            'no-argument']
ASSUMPTIONS = ['Names follow the two documented schemes, or are unrelated '
               'names without a scan number or id; when both a scan number '
               'and an id are given they select by id (documented as unique) '
               'and the file must carry both.']
SUF = ['', '_offsets', '_centered']
EXT = {'': 'h5', '_offsets': 'emd', '_centered': 'h5'}
NUMS = [1, 2, 12, 21, 112, 10, 5]
LONG = [10001, 10012, 11200, 12000, 1120, 20112, 0]


def number(rng):
    return int(rng.choice(NUMS if rng.random() < .8 else LONG))


def name0(num, id_, th, suf):
    s = f'data_scan{num}'
    if th is not None:
        s += f'_th{th}'
    if id_ is not None:
        s += f'_id{id_}'
    return s + f'_electrons{suf}.{EXT[suf]}'


def name1(num, id_, suf, r):
    return (f'FOURD_2{r % 10}0{1 + r % 9}1{r % 10}_1{r % 10}2{r % 6}_'
            f'{id_:05d}_{num:05d}{suf}.{EXT[suf]}')


def gen(rng, i, tier, phase):
    files = []
    for _ in range(int(rng.integers(0, 6))):
        num, id_ = number(rng), number(rng)
        suf = str(rng.choice(SUF, p=[.6, .2, .2]))
        r = rng.random()
        if r < 0.45:
            files.append(['1', num, id_, None, suf,
                          name1(num, id_, suf, int(rng.integers(100)))])
        elif r < 0.7:
            files.append(['0', num, id_, None, suf, name0(num, id_, None, suf)])
        elif r < 0.92:
            th = int(rng.choice([4, 5, 45]))
            files.append(['0', num, None, th, suf, name0(num, None, th, suf)])
        else:
            files.append(['x', None, None, None, None,
                          str(rng.choice(['notes.txt', 'dark.h5', 'gain.emd']))])
    names = set()
    files = [f for f in files if not (f[5] in names or names.add(f[5]))]
    known = [f for f in files if f[0] != 'x']
    q = dict(num=None, id=None, th=None, suf=str(rng.choice(SUF, p=[.7, .15, .15])),
             version=[None, None, 0, 1][int(rng.integers(4))])
    kind = int(rng.integers(8))
    ref = known[int(rng.integers(len(known)))] if known else None
    hit = ref is not None and rng.random() < 0.7
    if hit:
        q['suf'] = ref[4] if rng.random() < 0.9 else q['suf']
    if kind < 3 or kind == 6:
        q['id'] = ref[2] if hit and ref[2] is not None else number(rng)
    if kind in (3, 4, 5, 6):
        q['num'] = ref[1] if hit else number(rng)
    if kind in (4, 5) and rng.random() < 0.6:
        q['th'] = ref[3] if hit and ref[3] else int(rng.choice([4, 5, 45]))
    return dict(files=files, q=q)


def expected(files, q, version):
    out = []
    for sch, num, id_, th, suf, name in files:
        if sch != str(version) or suf != q['suf']:
            continue
        if q['id'] is not None and id_ != q['id']:
            continue
        if q['num'] is not None and num != q['num']:
            continue
        # the threshold selects among old names without id only
        if version == 0 and q['th'] is not None and q['id'] is None and \
                th != q['th']:
            continue
        out.append((name, num, id_))
    return out


def run(case, ctx):
    from stempy.contrib import FileSuffix, get_scan_path
    d = Path(ctx.tmpdir())
    for f in case['files']:
        (d / f[5]).write_bytes(b'')
    q = case['q']
    suf = {s.value: s for s in FileSuffix}[q['suf']]
    if q['id'] is None and q['num'] is None:
        ctx.tag('no-argument')
    else:
        ctx.tag('both' if q['id'] is not None and q['num'] is not None else
                'by-id' if q['id'] is not None else 'by-num')
    if q['suf']:
        ctx.tag('suffix')
    if q['th'] is not None:
        ctx.tag('th')
    for f in case['files']:
        if f[0] == '0' and q['id'] is not None and f[2] is not None and \
                f[2] != q['id'] and str(f[2]).startswith(str(q['id'])):
            ctx.tag('prefix-id')
        if f[0] == '0' and q['num'] is not None and f[1] != q['num'] and \
                str(f[1]).startswith(str(q['num'])):
            ctx.tag('prefix-num')
        for k, name in ((1, 'num'), (2, 'id')):
            if f[0] != 'x' and q[name] and f[k] and f[k] != q[name] and \
                    str(f[k]).endswith(str(q[name])):
                ctx.tag('end-of-' + name)
    versions = [1, 0] if q['version'] is None else [q['version']]
    want = FileNotFoundError
    if q['id'] is None and q['num'] is None:
        want = TypeError
    else:
        for k, v in enumerate(versions):
            c = expected(case['files'], q, v)
            if len(c) > 1:
                want = ValueError
                ctx.tag('ambiguous')
                break
            if c:
                want = c[0]
                ctx.tag('found', f'v{v}')
                if k:
                    ctx.tag('fallback')
                break
        else:
            ctx.tag('none')
    try:
        got = get_scan_path(d, scan_num=q['num'], scan_id=q['id'], th=q['th'],
                            file_suffix=suf, version=q['version'])
    except Exception as e:
        require(want in (FileNotFoundError, ValueError, TypeError) and
                type(e) is want, f'outcome:{type(e).__name__}',
                f'{type(e).__name__}: {e}; expected {want}; query {q}, files '
                f'{[f[5] for f in case["files"]]}')
    else:
        require(isinstance(want, tuple), 'outcome:returned',
                f'returned {got}; expected {want}; query {q}, files '
                f'{[f[5] for f in case["files"]]}')
        require(Path(got[0]) == d / want[0], 'wrong-file',
                f'{got} instead of {want}; query {q}')
        require(got[1] == want[1], 'wrong-number', f'{got} {want} {q}')
        if want[2] is not None or q['id'] is None:
            require(got[2] == want[2], 'wrong-id', f'{got} {want} {q}')
    if any(f[0] != 'x' for f in case['files']):
        ctx.nontrivial(case)
