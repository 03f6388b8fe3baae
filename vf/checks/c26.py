"""C26: the thread pool runs every accepted task exactly once."""
import os
import re
import subprocess

from vf import build as B
from vf import native
from vf.api import Violation, require

ID = 'C26'
TECHNIQUE = ('runtime monitoring of the real thread pool: exactly-once, '
             'future-delivery and destruction monitors in a driver, under '
             'ThreadSanitizer, AddressSanitizer and injected delays at locks '
             'and notifications')
PHASES = [dict(variant='none', mode='tsan', timeout=150,
               count=dict(quick=160, thorough=20000)),
          dict(variant='none', mode='perturb', timeout=150,
               count=dict(quick=160, thorough=20000)),
          dict(variant='none', mode='asan', timeout=150,
               count=dict(quick=60, thorough=6000))]
RULE = ('Random programs over the pool: 1 to 12 workers, 1 to 6 producer '
        'threads, up to 120 tasks a producer that return, throw, move results, '
        'take arguments or enqueue more tasks, waited for one by one, all '
        'together or not at all, then destruction while tasks are queued; a '
        'monitor counts the runs of every task. Under ThreadSanitizer, with '
        'delays injected at locks and notifications, and under '
        'AddressSanitizer. Non-trivial: programs in which tasks ran in '
        'parallel or were unfinished at destruction.')
REQUIRED = ['tsan', 'perturb', 'asan', 'each', 'wait', 'mixed', 'destroy',
            'one-worker', 'many-workers', 'several-producers',
            'unfinished-at-destruction', 'parallel', 'threw', 'nested',
            'refused']
ASSUMPTIONS = ['At least one worker.',
               'The pool is not used from other threads (than its own) after '
               'its destruction began.']
FLAGS = dict(tsan='-O1 -g1 -fsanitize=thread',
             asan='-O1 -g1 -fsanitize=address,undefined '
                  '-fno-sanitize-recover=all',
             perturb='-O2')


def gen(rng, i, tier, phase):
    heavy = phase['mode'] == 'tsan'
    return dict(mode=phase['mode'], seed=int(rng.integers(1 << 31)),
                workers=int(rng.choice([1, 1, 2, 3, 4, 8, 12])),
                producers=int(rng.choice([1, 1, 2, 3, 6])),
                tasks=int(rng.choice([0, 1, 2, 7, 30] + [120] * (not heavy))),
                rounds=int(rng.choice([5, 20] if heavy else [20, 60])),
                us=int(rng.choice([0, 0, 20, 200])),
                how=str(rng.choice(['each', 'wait', 'mixed', 'destroy',
                                    'destroy'])),
                perturb=[int(rng.integers(1 << 31)),
                         int(rng.choice([30, 100, 300])),
                         int(rng.choice([0, 20, 200])),
                         int(rng.choice([0, 1, 2, 6, 0xfff0]))])


def run(case, ctx):
    mode = case['mode']
    exe = native.build('pool', FLAGS[mode], ['thirdparty/ThreadPool'])
    env = {k: v for k, v in os.environ.items() if not k.startswith('LD_')}
    env['TSAN_OPTIONS'] = ('halt_on_error=1:exitcode=66:suppressions=' +
                           os.path.join(B.ROOT, 'vf', 'tsan.supp'))
    env['ASAN_OPTIONS'] = 'detect_leaks=0:disable_coredump=1'
    env['UBSAN_OPTIONS'] = 'print_stacktrace=1'
    if mode == 'perturb':
        env['LD_PRELOAD'] = B.build_perturb()
        env['VF_PERTURB'] = ' '.join(map(str, case['perturb']))
    n = case['tasks'] * case['producers'] * case['rounds']
    rounds = max(1, case['rounds'] if n * (case['us'] + 5) < 4e6 else
                 int(4e6 / (case['us'] + 5) /
                     max(1, case['tasks'] * case['producers'])))
    cmd = [exe] + [str(case[k]) for k in ('seed', 'workers', 'producers',
                                          'tasks')]
    cmd += [str(rounds), str(case['us']), case['how']]
    try:
        p = subprocess.run(cmd, env=env, capture_output=True, text=True,
                           timeout=60)
    except subprocess.TimeoutExpired as e:
        # once more, to be sure that it isn't the machine
        try:
            p = subprocess.run(cmd, env=env, capture_output=True, text=True,
                               timeout=60)
        except subprocess.TimeoutExpired:
            raise Violation('hang', f'{cmd[1:]} did not end') from e
    m = re.search(r'^VIOL (\S+) (.*)$', p.stdout, re.M)
    if m:
        raise Violation(m.group(1), f'{m.group(2)} ({cmd[1:]})')
    if 'WARNING: ThreadSanitizer' in p.stderr:
        kind = re.search(r'WARNING: ThreadSanitizer: ([^(\n]*)', p.stderr)
        raise Violation('race:' + kind.group(1).strip(), p.stderr[:5000])
    require(p.returncode == 0, f'died:{p.returncode}', p.stderr[:5000])
    got = dict((k, int(v)) for k, v in
               re.findall(r'(\S+)=(\d+)', p.stdout))
    for k, v in got.items():
        ctx.count(k, v)
        if v:
            ctx.tag(k)
    ctx.tag(mode, case['how'])
    ctx.count('rounds', rounds)
    if case['workers'] == 1:
        ctx.tag('one-worker')
    if case['workers'] > 3:
        ctx.tag('many-workers')
    if case['producers'] > 1:
        ctx.tag('several-producers')
    if got.get('parallel') or got.get('unfinished-at-destruction'):
        ctx.nontrivial(case)
