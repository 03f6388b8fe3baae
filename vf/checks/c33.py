"""C33: the pipeline decorators record and pass on what was declared."""
import inspect

import numpy as np

from vf.api import call, require

ID = 'C33'
PHASES = [dict(variant='none', count=dict(quick=6000, thorough=200000))]
RULE = ('Random sets of pipeline functions, each declared with zero to six '
        'parameters (names, types, labels, descriptions, defaults of many '
        'kinds, None and mutable ones too) and the pipeline decorator at any '
        'place among them or absent, are called in random histories: '
        'parameters left out, given by keyword (None and values equal to the '
        'default as well), positional data, other keywords, exceptions and '
        'return values. A recorder in every function notes what arrived; it '
        'is compared with the declarations, and so are NAME, DESCRIPTION, '
        'INPUT, OUTPUT, AGGREGATION and PARAMETERS of every function, before '
        'and after all calls. Non-trivial: a call of a function with '
        'parameters.')
REQUIRED = ['no-parameters', 'several-parameters', 'default', 'given',
            'given-none', 'given-falsy', 'mutable-default', 'pipeline-first',
            'pipeline-last', 'pipeline-between', 'no-pipeline', 'raised',
            'two-functions', 'defaults-of-pipeline', 'identity']
ASSUMPTIONS = ['Parameters are passed by keyword; a parameter is declared '
               'once per function.']
NAMES = ['sigma', 'threshold', 'radii', 'x', 'center', 'label', 'mode',
         'number_of_samples']


def gen(rng, i, tier, phase):
    return dict(seed=int(rng.integers(1 << 31)))


class Boom(Exception):
    pass


def value(rng):
    c = int(rng.integers(11))
    return [None, 0, 1, 2.5, '', 'abc', False, True, [1, 2], {'a': 1},
            (1, 2)][c]


def declare(rng, ctx):
    from stempy import pipeline as P
    n = int(rng.choice([0, 1, 2, 3, 6]))
    names = [str(x) for x in rng.choice(NAMES, n, replace=False)]
    params = {}
    for name in names:
        full = rng.random() < .7
        params[name] = dict(type=str(rng.choice(['string', 'integer', 'json'])),
                            label='L ' + name, description='D ' + name,
                            default=value(rng)) if full else {}
    log = []

    def func(*args, **kwargs):
        """doc"""
        log.append((args, kwargs))
        if kwargs.get('boom'):
            raise Boom()
        return log

    f = func
    at = int(rng.integers(0, n + 2))
    pl = None
    if at <= n:
        pl = {} if rng.random() < .2 else dict(
            name=f'N{rng.integers(99)}', description='what', input=str(
                rng.choice([P.PipelineIO.FRAME, P.PipelineIO.IMAGE])),
            output=str(rng.choice([P.PipelineIO.FRAME, P.PipelineIO.IMAGE])),
            aggregation=str(rng.choice([
                P.PipelineAggregation.SUM, P.PipelineAggregation.MAX,
                P.PipelineAggregation.MIN, P.PipelineAggregation.MEAN,
                P.PipelineAggregation.MEDIAN])))
        ctx.tag('defaults-of-pipeline' if not pl else 'pipeline')
        if n:
            ctx.tag('pipeline-first' if at == 0 else 'pipeline-last'
                    if at == n else 'pipeline-between')
    else:
        ctx.tag('no-pipeline')
    for k in range(n + 1):
        if k == at:
            f = call('pipeline', P.pipeline(**pl), f)
        if k < n:
            f = call('parameter', P.parameter(names[k], **params[names[k]]), f)
    ctx.tag('no-parameters' if n == 0 else 'several-parameters' if n > 1
            else 'one-parameter')
    return dict(f=f, params=params, pl=pl, log=log, n=n)


def check_metadata(e):
    f = e['f']
    if e['pl'] is None and e['n'] == 0:
        return
    want = {k: dict(type=v.get('type', 'string'), label=v.get('label'),
                    description=v.get('description'),
                    default=v.get('default')) for k, v in e['params'].items()}
    require(hasattr(f, 'PARAMETERS'), 'no-PARAMETERS')
    require(dict(f.PARAMETERS) == want, 'PARAMETERS',
            f'{f.PARAMETERS} declared {want}')
    # listed in the order in which they were declared
    require(list(f.PARAMETERS) == list(want), 'PARAMETERS-order',
            f'{list(f.PARAMETERS)} declared {list(want)}')
    if e['pl'] is not None:
        d = dict(name=None, description=None, input='frame', output='image',
                 aggregation='sum')
        d.update(e['pl'])
        for k, v in d.items():
            got = getattr(f, k.upper(), 'missing')
            require(got == v, f'{k.upper()}', f'{got!r} declared {v!r}')
    require(f.__name__ == 'func' and inspect.getdoc(f) == 'doc', 'wrapped',
            f.__name__)


def run(case, ctx):
    rng = np.random.default_rng(case['seed'])
    fs = [declare(rng, ctx) for _ in range(int(rng.integers(1, 4)))]
    if len(fs) > 1:
        ctx.tag('two-functions')
    for e in fs:
        check_metadata(e)
    for _ in range(int(rng.integers(2, 9))):
        e = fs[int(rng.integers(len(fs)))]
        kw = {}
        for name in e['params']:
            if rng.random() < .5:
                kw[name] = value(rng)
                ctx.tag('given')
                if kw[name] is None:
                    ctx.tag('given-none')
                elif not kw[name]:
                    ctx.tag('given-falsy')
        if rng.random() < .3:
            kw['other'] = value(rng)
        boom = rng.random() < .15
        if boom:
            kw['boom'] = True
        args = tuple(object() for _ in range(int(rng.integers(0, 3))))
        want = {k: v.get('default') for k, v in e['params'].items()}
        for k, v in want.items():
            if k not in kw:
                ctx.tag('default')
                if isinstance(v, (list, dict)):
                    ctx.tag('mutable-default')
        want.update(kw)
        given = dict(kw)
        others = [len(x['log']) for x in fs]
        try:
            r = e['f'](*args, **kw)
            require(not boom, 'exception-lost')
            require(r is e['log'], 'return-value')
        except Boom:
            require(boom, 'boom')
            ctx.tag('raised')
        require(kw == given, 'caller-keywords-changed')
        for x, n in zip(fs, others):
            require(len(x['log']) == n + (x is e), 'calls',
                    f'{len(x["log"]) - n} calls')
        a, k = e['log'][-1]
        require(len(a) == len(args) and all(x is y for x, y in zip(a, args)),
                'positional', f'{a}')
        require(k == want, 'arrived', f'{k} expected {want}')
        for name, v in given.items():
            require(k[name] is v, 'identity', name)
            ctx.tag('identity')
        ctx.count('calls')
        if e['params']:
            ctx.nontrivial(case['seed'], sorted(want.items(), key=repr))
    for e in fs:
        check_metadata(e)
