#!/usr/bin/env python3
"""Hand-written changes: which of them do the checks not see?

hand.py SPEC.py [--slots N] [--scale S] [--only NAME,NAME]

SPEC.py defines M = [(name, file, [(old, new), ...], 'C01,C02'), ...].  Each is
made in a scratch copy of /repo and the quick checks are run there, one after
another, until one reports a violation.  A development tool, like mutate.py.
"""
import argparse
import os
import queue
import runpy
import shutil
import subprocess
import sys
import threading

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mutate import PY, ROOT, WRAP  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('spec')
    ap.add_argument('--slots', type=int, default=3)
    ap.add_argument('--workers', default='2')
    ap.add_argument('--scale', default='1')
    ap.add_argument('--timeout', type=int, default=900)
    ap.add_argument('--only')
    a = ap.parse_args()
    q = queue.Queue()
    for m in runpy.run_path(a.spec)['M']:
        if a.only and m[0] not in a.only.split(','):
            continue
        with open('/repo/' + m[1]) as f:
            text = f.read()
        for old, new in m[2]:
            if text.count(old) != 1:
                print('BAD EDIT', m[0], text.count(old), repr(old[:60]))
                break
            text = text.replace(old, new)
        else:
            q.put((m[0], m[1], text, m[3]))
    print(q.qsize(), 'changes', flush=True)
    lock = threading.Lock()

    def slot(n):
        d = f'/tmp/mutslot{os.getpid()}.{n}'
        repo, build = d + '/repo', d + '/build'
        os.makedirs(repo)
        os.makedirs(d + '/tmp')
        subprocess.run(f'git -C /repo archive HEAD | tar x -C {repo}',
                       shell=True, check=True)
        env = dict(os.environ, VF_REPO=repo, VF_BUILD=build,
                   VF_WORKERS=a.workers, TMPDIR=d + '/tmp',
                   PYTHONDONTWRITEBYTECODE='1')
        subprocess.run([PY, '-c', 'import vf.build as B; B.native_digest ='
                        ' lambda v: "x"; B.build("plain"); '
                        'B.build_perturb()'], cwd=ROOT, env=env, check=True)
        try:
            while True:
                try:
                    name, file, text, checks = q.get_nowait()
                except queue.Empty:
                    return
                path = os.path.join(repo, file)
                with open(path, 'w') as f:
                    f.write(text)
                out = []
                if not file.endswith('.py'):
                    r = subprocess.run(['ninja', '-C', build + '/plain-x',
                                        '-j', '2'], capture_output=True,
                                       text=True)
                    if r.returncode:
                        out = ['NOBUILD ' + r.stdout[-600:]]
                    for v in ('asan-x', 'tsan-x'):
                        shutil.rmtree(f'{build}/{v}', ignore_errors=True)
                if not out:
                    for c in checks.split(','):
                        try:
                            r = subprocess.run(
                                [PY, '-c', WRAP, c, d, a.scale], cwd=ROOT,
                                env=env, capture_output=True, text=True,
                                timeout=a.timeout)
                        except subprocess.TimeoutExpired:
                            out.append(c + ' TIMEOUT')
                            continue
                        what = [x for x in r.stdout.split('\n')
                                if x.startswith('--- ')]
                        out.append(f'{c} rc={r.returncode} '
                                   f'{what[0][:70] if what else ""}')
                        if r.returncode == 1:
                            break
                        if r.returncode:
                            out.append((r.stdout + r.stderr)[-200:])
                with lock:
                    print('killed  ' if 'rc=1' in out[-1] else 'SURVIVED',
                          name, '|', '; '.join(out), flush=True)
                with open(path, 'w') as f:
                    f.write(subprocess.run(['git', '-C', '/repo', 'show',
                                            'HEAD:' + file],
                                           capture_output=True,
                                           text=True).stdout)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    ts = [threading.Thread(target=slot, args=(n,)) for n in range(a.slots)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


if __name__ == '__main__':
    main()
