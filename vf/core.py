"""Runs one check: builds /repo's tree, shards cases over workers, gives verdicts.

Verdicts are three-valued: held (exit 0), violated (exit 1 and a VIOLATION
line), inconclusive / harness failure (exit 2 and an ERROR line).
"""
import collections
import hashlib
import importlib
import json
import os
import re
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time

from . import build as B

ROOT = B.ROOT
EVIDENCE = os.path.join(ROOT, 'evidence')
REPLAYS = os.path.join(ROOT, 'replays')
KNOWN = os.path.join(ROOT, 'known_findings.json')
NWORKERS = int(os.environ.get('VF_WORKERS', '8'))


class HarnessError(Exception):
    pass


def load_check(pid):
    return importlib.import_module(f'vf.checks.{pid.lower()}')


def known_findings(pid):
    with open(KNOWN) as f:
        data = json.load(f)
    return {e['key']: e for e in data['findings']
            if e['property'] == pid and e['status'] == 'known'}


def scratch_base():
    for d in ('/dev/shm', '/tmp'):
        try:
            st = os.statvfs(d)
        except OSError:
            continue
        if st.f_bavail * st.f_frsize > 4 << 30:
            return d
    return '/tmp'


def worker_env(phase, lib, scratch):
    env = {k: v for k, v in os.environ.items()
           if not k.startswith(('ASAN', 'TSAN', 'UBSAN', 'LSAN', 'LD_',
                                'PYTHON', 'MALLOC'))}
    env['PYTHONPATH'] = lib + ':' + ROOT
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env['PYTHONHASHSEED'] = '0'
    env['OMP_NUM_THREADS'] = env['OPENBLAS_NUM_THREADS'] = '1'
    env['VF_SCRATCH'] = scratch
    env['HDF5_USE_FILE_LOCKING'] = 'FALSE'
    variant = phase['variant']
    preload = []
    if variant == 'asan':
        preload = [B.runtime_lib('asan'), B.runtime_lib('stdcxx')]
        env['ASAN_OPTIONS'] = ('detect_leaks=0:abort_on_error=1:'
                               'allocator_may_return_null=1:'
                               'detect_stack_use_after_return=0:'
                               'strict_init_order=0:max_malloc_fill_size=4096:'
                               'malloc_fill_byte=0xcb:'
                               'handle_segv=1:disable_coredump=1')
        env['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:abort_on_error=1'
        env['ASAN_SYMBOLIZER_PATH'] = shutil.which('llvm-symbolizer-18') or \
            shutil.which('llvm-symbolizer') or ''
    elif variant == 'tsan':
        preload = [B.runtime_lib('tsan')]
        env['TSAN_OPTIONS'] = (f'halt_on_error=0:exitcode=0:'
                               f'log_path={scratch}/tsan:history_size=4:'
                               f'report_signal_unsafe=0:'
                               f'suppressions={ROOT}/vf/tsan.supp')
    if phase.get('perturb'):
        preload.append(os.path.join(B.BUILD, 'perturb.so'))
    if preload:
        env['LD_PRELOAD'] = ' '.join(preload)
    env.update(phase.get('env', {}))
    return env


class Worker:
    def __init__(self, pid, phase_no, phase, lib, tier, seed, indices,
                 case=None):
        self.scratch = tempfile.mkdtemp(prefix=f'vf-{pid}-', dir=scratch_base())
        self.remaining = list(indices)
        self.current = None      # (index, case, start time)
        self.finished = False
        r, w = os.pipe()
        self.r = r
        self.buf = b''
        self.errpath = os.path.join(self.scratch, 'stderr')
        spec = dict(pid=pid, phase=phase_no, tier=tier, seed=seed,
                    indices=list(indices), case=case, fd=w,
                    variant=phase['variant'])
        env = worker_env(phase, lib, self.scratch)
        cmd = [B.PY, '-X', 'faulthandler', '-m', 'vf.worker']
        if phase['variant'] == 'tsan':
            # ASLR makes TSan's shadow mapping fail on some kernels
            cmd = ['setarch', '-R'] + cmd if phase.get('noaslr') else cmd
        # (an argument could not hold the indices of a thorough run)
        with open(self.errpath, 'wb') as err, \
                tempfile.TemporaryFile('w+') as f:
            json.dump(spec, f)
            f.seek(0)
            self.p = subprocess.Popen(cmd, env=env, pass_fds=(w,), stdout=err,
                                      stderr=err, stdin=f,
                                      cwd=self.scratch, start_new_session=True)
        os.close(w)
        self.started = time.time()
        self.eof = False

    def messages(self):
        """Reads what is available; returns the decoded messages."""
        data = os.read(self.r, 1 << 20)
        if not data:
            self.eof = True
            return []
        self.buf += data
        *lines, self.buf = self.buf.split(b'\n')
        return [json.loads(x) for x in lines]

    def kill(self, sig=signal.SIGKILL):
        try:
            os.killpg(self.p.pid, sig)
        except ProcessLookupError:
            pass

    def stderr_tail(self, n=12000):
        try:
            with open(self.errpath, 'rb') as f:
                f.seek(0, 2)
                size = f.tell()
                f.seek(max(0, size - n))
                return f.read().decode('utf8', 'replace')
        except OSError:
            return ''

    def close(self):
        self.kill()
        self.p.wait()
        if self.r is not None:
            os.close(self.r)
            self.r = None
        shutil.rmtree(self.scratch, ignore_errors=True)


def crash_signature(text, rc):
    """A stable key for a crash: kind plus innermost function of the tree."""
    kind = None
    m = re.search(r'ERROR: AddressSanitizer: ([\w-]+)', text)
    if m:
        kind = 'asan:' + m.group(1)
    m2 = re.search(r'runtime error: ([^\n]*)', text)
    if kind is None and m2:
        kind = 'ubsan:' + re.sub(r'0x[0-9a-f]+|-?\d+', 'N', m2.group(1))[:60]
    if kind is None:
        kind = f'signal:{-rc}' if rc < 0 else f'exit:{rc}'
    frame = ''
    for m in re.finditer(r'#\d+ 0x[0-9a-f]+ in (.+?) (/\S+)', text):
        if '/repo/' in m.group(2) or 'stempy' in m.group(1):
            frame = re.sub(r'[<(].*', '', m.group(1).split(' ')[-1]
                           if m.group(1).startswith('void ') else m.group(1))
            break
    return f'crash:{kind}' + (f':{frame}' if frame else '')


class Run:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.mod = load_check(pid)
        self.tags = collections.Counter()
        self.counters = collections.Counter()
        self.sigs = set()
        self.evaluations = 0
        self.nontrivial = 0
        self.samples = []
        self.violations = {}      # key -> (msg, phase_no, case)
        self.errors = []
        self.known = known_findings(pid)
        self.known_seen = {}
        self.t0 = time.time()
        self.builds = {}
        self.max_keys = 4
        self.confirmed = 0
        self.retry = []           # (phase_no, case index, case, reason)

    # -- cases ---------------------------------------------------------
    def add_done(self, msg, phase_no):
        st = msg['stats']
        self.evaluations += st.get('evals', 1)
        for t, n in st.get('tags', {}).items():
            self.tags[t] += n
        for k, n in st.get('counters', {}).items():
            self.counters[k] += n
        for s in st.get('sigs', []):
            self.sigs.add(s)
        if len(self.samples) < 6 and st.get('sample') is not None and \
                (msg['i'] % 7 == 0 or len(self.samples) < 2):
            self.samples.append(st['sample'])

    def add_violation(self, key, text, phase_no, case):
        if key in self.known:
            self.known_seen.setdefault(key, text)
        elif key not in self.violations:
            self.violations[key] = (text, phase_no, case)
            if len(self.violations) == 1:
                self.t_first = time.time()

    def enough(self):
        # (the verdict is known: others are looked for only for a while)
        if self.violations and time.time() - self.t_first > 45:
            return True
        return len(self.violations) >= self.max_keys or len(self.errors) >= 3

    # -- one phase -----------------------------------------------------
    def lib(self, phase):
        v = phase['variant']
        if v == 'none':
            return os.path.join(B.REPO, 'python')
        if v not in self.builds:
            t = time.time()
            self.builds[v] = B.build(v)
            self.counters[f'build_{v}_s'] = round(time.time() - t)
        if phase.get('perturb'):
            B.build_perturb()
        return self.builds[v]

    def phase(self, phase_no, phase, deadline):
        lib = self.lib(phase)
        n = phase['count'][self.tier]
        nw = min(phase.get('workers', NWORKERS), n) or 1
        shards = [list(range(n))[k::nw] for k in range(nw)]
        timeout = phase.get('timeout', 90)
        workers = [Worker(self.pid, phase_no, phase, lib, self.tier, self.seed,
                          s) for s in shards]
        respawns, hung = 0, False
        try:
            while workers:
                if hung:
                    # Without the others' waiting for their time to run out
                    hung = False
                    if not self.violations and self.confirmed < 4:
                        self.confirm(deadline)
                if self.enough():
                    return
                if time.time() > deadline:
                    if self.violations:
                        return
                    raise HarnessError('deadline exceeded (inconclusive)')
                ready, _, _ = select.select([w.r for w in workers], [], [], 1.0)
                for w in list(workers):
                    if w.r in ready:
                        for m in w.messages():
                            self.handle(w, m, phase_no)
                    dead = w.eof
                    if not dead and w.current and \
                            time.time() - w.current[2] > timeout:
                        w.kill(signal.SIGABRT)
                        time.sleep(0.5)
                        w.kill()
                        w.p.wait()
                        self.retry.append((phase_no, w.current[0], w.current[1],
                                           'hang', w.stderr_tail(4000)))
                        w.current, dead = None, True
                        w.finished = False
                        hung = True
                    elif not dead and not w.current and not w.finished and \
                            time.time() - w.started > 240 and \
                            w.p.poll() is None and not w.remaining:
                        w.kill()
                    if dead:
                        workers.remove(w)
                        rc = w.p.wait()
                        if w.current:
                            i, case, _ = w.current
                            self.crashed(w, rc, i, case, phase_no)
                        elif not w.finished and rc != 0 and \
                                not any(r[1] in w.remaining for r in self.retry) \
                                and not w.remaining and respawns == 0 and \
                                w.stderr_tail():
                            # died at exit, after all cases
                            if rc > 0 and rc != 1 or rc < 0:
                                self.crashed(w, rc, -1, None, phase_no)
                        elif not w.finished and w.remaining and not w.started_any:
                            self.errors.append('worker failed to start: ' +
                                               w.stderr_tail(3000))
                        rest = w.remaining
                        w.close()
                        if rest and not self.errors and respawns < 40:
                            respawns += 1
                            workers.append(Worker(self.pid, phase_no, phase,
                                                  lib, self.tier, self.seed,
                                                  rest))
        finally:
            for w in workers:
                w.close()

    def handle(self, w, m, phase_no):
        k = m['k']
        if k == 'start':
            w.started_any = True
            w.remaining = [x for x in w.remaining if x != m['i']]
            w.current = (m['i'], m['case'], time.time())
        elif k == 'done':
            w.current = None
            self.add_done(m, phase_no)
        elif k == 'viol':
            self.add_violation(m['key'], m['msg'], phase_no, m['case'])
        elif k == 'err':
            w.current = None
            self.errors.append(f'case {m["i"]}: {m["msg"]}')
        elif k == 'bye':
            w.finished = True

    def crashed(self, w, rc, i, case, phase_no):
        text = w.stderr_tail(20000)
        if rc == -signal.SIGKILL:
            self.retry.append((phase_no, i, case, 'killed', text[-2000:]))
            return
        self.add_violation(crash_signature(text, rc),
                           f'process died (status {rc})\n{text[-6000:]}',
                           phase_no, case)

    def confirm(self, deadline):
        """Re-runs, alone and with a larger budget, cases that hung."""
        todo, self.retry = self.retry[:2], self.retry[2:]
        for phase_no, i, case, reason, text in todo:
            self.confirmed += 1
            # (a schedule that hangs may need more than one attempt)
            t = time.time()
            for k in range(12 if reason == 'hang' else 1):
                if time.time() - t > 40 and k or self.violations or \
                        time.time() > deadline:
                    break
                self.again(phase_no, i, case, reason, deadline)
            if self.violations:
                break

    def again(self, phase_no, i, case, reason, deadline):
        phase = self.mod.PHASES[phase_no]
        w = Worker(self.pid, phase_no, phase, self.lib(phase), self.tier,
                   self.seed, [i], case=case)
        limit = 2 * phase.get('timeout', 90)
        t = time.time()
        try:
            while not w.eof:
                r, _, _ = select.select([w.r], [], [], 1.0)
                if r:
                    for m in w.messages():
                        self.handle(w, m, phase_no)
                if time.time() - t > limit or time.time() > deadline + limit:
                    break
            if w.eof:
                rc = w.p.wait()
                if w.current and rc == -signal.SIGKILL:
                    self.errors.append('killed twice (out of memory?)')
                elif w.current:
                    self.crashed(w, rc, i, case, phase_no)
            elif reason == 'hang':
                if time.time() - t <= limit:
                    raise HarnessError('deadline exceeded (inconclusive)')
                w.kill(signal.SIGABRT)
                time.sleep(1)
                self.add_violation(
                    'hang', f'no answer within {limit} s, twice\n' +
                    w.stderr_tail(6000), phase_no, case)
            else:
                self.errors.append('no answer when re-run after a kill')
        finally:
            w.close()

    # -- whole check ---------------------------------------------------
    def execute(self):
        deadline = self.t0 + (780 if self.tier == 'quick' else 6 * 3600)
        for phase_no, phase in enumerate(self.mod.PHASES):
            if self.violations or self.enough():
                break
            if phase['count'].get(self.tier, 0) == 0:
                continue
            self.phase(phase_no, phase, deadline)
        if self.retry and not self.violations:
            self.confirm(deadline)
        if self.errors and not self.violations:
            raise HarnessError('; '.join(self.errors[:3]))
        missing = [t for t in getattr(self.mod, 'REQUIRED', ())
                   if not self.tags.get(t)]
        if not self.violations and missing:
            raise HarnessError(f'never observed: {missing} (inconclusive)')
        if not self.violations and not self.sigs:
            raise HarnessError('nothing was observed')

    def report(self):
        os.makedirs(EVIDENCE, exist_ok=True)
        lines = []
        for key, (text, phase_no, case) in self.violations.items():
            os.makedirs(REPLAYS, exist_ok=True)
            h = hashlib.sha256((key + json.dumps(case)).encode()).hexdigest()[:10]
            path = os.path.join(REPLAYS, f'{self.pid}-{h}.json')
            with open(path, 'w') as f:
                json.dump(dict(property=self.pid, phase=phase_no, case=case,
                               key=key, tier=self.tier, seed=self.seed,
                               message=text), f, indent=1)
            lines.append((key, path, text))
        for key, e in self.known.items():
            if key in self.known_seen:
                print(f'KNOWN-FINDING: property={self.pid} {e["what"]}')
            else:
                print(f'note: listed finding {key!r} was not reproduced')
        ev = dict(
            property=self.pid, tier=self.tier, seed=self.seed,
            level='exploration',
            coverage=dict(
                evaluations=self.evaluations,
                distinct_nontrivial=len(self.sigs),
                rule=self.mod.RULE,
                samples=self.samples or ['(none)'],
                observed_tags=dict(sorted(self.tags.items())),
                observed_events=dict(sorted(self.counters.items())),
                phases=[dict(variant=p['variant'],
                             perturbed=bool(p.get('perturb')),
                             cases=p['count'].get(self.tier, 0))
                        for p in self.mod.PHASES]),
            assumptions=getattr(self.mod, 'ASSUMPTIONS', []),
            wall_s=round(time.time() - self.t0, 2),
            violations=len(self.violations))
        with open(os.path.join(EVIDENCE, f'{self.pid}.json'), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
        for key, path, text in lines:
            print(f'--- {self.pid} {key}\n{text[:3000]}')
            print(f'VIOLATION property={self.pid} replay={path}')
        return 1 if lines else 0


Worker.started_any = False


def run(pid, tier=None, seed=None):
    tier = tier or os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(seed if seed is not None else os.environ.get('VERIF_SEED', '1'))
    r = Run(pid, tier, seed)
    try:
        r.execute()
    except (HarnessError, B.BuildError) as e:
        r.report()
        print(f'ERROR property={pid} {e}')
        return 2
    rc = r.report()
    print(f'{pid} {tier} seed={seed}: {r.evaluations} evaluations, '
          f'{len(r.sigs)} distinct non-trivial, '
          f'{len(r.violations)} violations, {time.time() - r.t0:.1f} s')
    return rc


def replay(path):
    with open(path) as f:
        d = json.load(f)
    r = Run(d['property'], d['tier'], d['seed'])
    phase = r.mod.PHASES[d['phase']]
    w = Worker(d['property'], d['phase'], phase, r.lib(phase), d['tier'],
               d['seed'], [0], case=d['case'])
    try:
        t = time.time()
        while not w.eof and time.time() - t < 300:
            ready, _, _ = select.select([w.r], [], [], 1.0)
            if ready:
                for m in w.messages():
                    r.handle(w, m, d['phase'])
        rc = w.p.poll()
        if w.current:
            if rc is None and not w.eof:
                r.add_violation('hang', 'hang', d['phase'], d['case'])
            else:
                r.crashed(w, w.p.wait(), 0, d['case'], d['phase'])
    finally:
        w.close()
    for key, (text, _, _) in r.violations.items():
        print(f'--- {key}\n{text}')
    print('reproduced' if r.violations else 'not reproduced', r.errors or '')
    return 1 if r.violations else 0
