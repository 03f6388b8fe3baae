#!/usr/bin/env python3
"""Mutation campaign: which small changes of the code do the checks not see?

mutate.py FILE CHECK,CHECK,... [--lines A-B] [--every N] [--slots N] [--list]

Makes one-token changes in FILE (relative to /repo), each in a scratch copy,
and runs the quick checks there until one reports a violation.  Prints the
survivors.  A development tool: no check uses it, nothing under /repo changes.
"""
import argparse
import ast
import os
import queue
import re
import shutil
import subprocess
import sys
import threading

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/stempy-venv/bin/python'
WRAP = '''
import sys
import vf.build as B
B.native_digest = lambda v: 'x'
import vf.core as C
e = C.Run.enough
C.Run.enough = lambda self: bool(self.violations) or e(self)
l = C.load_check
def load(pid):
    m = l(pid)
    for p in m.PHASES:
        n = p['count']['quick']
        p['count'] = dict(quick=max(min(n, 50), int(n * float(sys.argv[3]))))
    return m
C.load_check = load
C.REPLAYS = sys.argv[2] + '/replays'
C.EVIDENCE = sys.argv[2] + '/evidence'
sys.exit(C.run(sys.argv[1], 'quick', 1))
'''


def py_mutants(text):
    """(line, what, new text)"""
    lines = text.split('\n')
    starts = [0]
    for ln in lines:
        starts.append(starts[-1] + len(ln.encode()) + 1)
    raw = text.encode()

    def pos(line, col):
        return starts[line - 1] + col

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)

    out = []

    def edit(a, b, new, line, what):
        out.append((line, what, (raw[:a] + new.encode() + raw[b:]).decode()))

    cmp = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>',
           ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is',
           ast.In: 'not in', ast.NotIn: 'in'}
    bops = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.Div: '*',
            ast.FloorDiv: '/', ast.Mod: '//', ast.Pow: '*',
            ast.BitAnd: '|', ast.BitOr: '&'}
    tree = ast.parse(text)
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            docs.add(id(n.value))
    for n in ast.walk(tree):
        if isinstance(n, ast.Raise):
            for c in ast.walk(n):
                docs.add(id(c))
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) \
                and isinstance(n.value.value, str):
            docs.add(id(n.value))
        if isinstance(n, ast.JoinedStr):
            for c in ast.walk(n):
                docs.add(id(c))
    for n in ast.walk(tree):
        if id(n) in docs:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a = span(n.left)[1]
            b = span(n.comparators[0])[0]
            op = cmp.get(type(n.ops[0]))
            if op:
                gap = raw[a:b].decode()
                # keep parentheses around
                m = re.search(r'(<=|>=|==|!=|<|>|is\s+not|not\s+in|is|in)', gap)
                if m:
                    edit(a + m.start(), a + m.end(), op, n.lineno, 'cmp')
        elif isinstance(n, ast.BinOp):
            a, b = span(n.left)[1], span(n.right)[0]
            op = bops.get(type(n.op))
            gap = raw[a:b].decode()
            m = re.search(r'(\*\*|//|[-+*/%&|])', gap)
            if op and m and not (isinstance(n.left, ast.Constant) and
                                 isinstance(n.left.value, str)):
                edit(a + m.start(), a + m.end(), op, n.lineno, 'binop')
        elif isinstance(n, ast.BoolOp):
            a, b = span(n.values[0])[1], span(n.values[1])[0]
            gap = raw[a:b].decode()
            m = re.search(r'\b(and|or)\b', gap)
            if m:
                edit(a + m.start(), a + m.end(),
                     'or' if m.group(1) == 'and' else 'and', n.lineno, 'bool')
        elif isinstance(n, ast.UnaryOp):
            a, b = span(n)
            c = span(n.operand)[0]
            edit(a, c, '', n.lineno, 'unary')
        elif isinstance(n, ast.Constant):
            a, b = span(n)
            if n.value is True:
                edit(a, b, 'False', n.lineno, 'const')
            elif n.value is False:
                edit(a, b, 'True', n.lineno, 'const')
            elif isinstance(n.value, int):
                edit(a, b, str(n.value + 1), n.lineno, 'const')
                if n.value > 0:
                    edit(a, b, str(n.value - 1), n.lineno, 'const')
            elif isinstance(n.value, str) and n.value:
                edit(a, b, repr(n.value + 'x'), n.lineno, 'string')
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)):
            a, b = span(n)
            edit(a, b, 'pass', n.lineno, 'drop')
        elif isinstance(n, (ast.If, ast.IfExp)):
            a, b = span(n.test)
            edit(a, b, 'True', n.lineno, 'if-true')
            edit(a, b, 'False', n.lineno, 'if-false')
        elif isinstance(n, (ast.Continue, ast.Break)):
            a, b = span(n)
            edit(a, b, 'pass', n.lineno, 'drop')
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                and n.func.attr in ('copy', 'deepcopy', 'astype', 'ravel',
                                    'reshape', 'sort', 'unique'):
            if n.func.attr in ('copy', 'astype') and not (
                    isinstance(n.func.value, ast.Name) and
                    n.func.value.id in ('np', 'copy')):
                a, b = span(n)
                c = span(n.func.value)[1]
                edit(c, b, '', n.lineno, 'call')
    return out


CPP = [(r'(?<![<>=!\-+*/&|])<(?![<=])(?=\s)', '<='), (r'<=', '<'),
       (r'(?<![-<>=])>(?![>=])(?=\s)', '>='), (r'>=', '>'), (r'==', '!='),
       (r'!=', '=='), (r'&&', '||'), (r'\|\|', '&&'),
       (r'(?<=[\w)\]]) \+ (?=[\w(])', ' - '),
       (r'(?<=[\w)\]]) - (?=[\w(])', ' + '),
       (r'(?<=[\w)\]]) \* (?=[\w(])', ' + '),
       (r'(?<=[\w)\]]) / (?=[\w(])', ' * '), (r'(?<=[\w)\]]) % (?=[\w(])', ' / '),
       (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
       (r'(?<![\w.>"])0(?![\w.x])', '1'), (r'(?<![\w.<">])1(?![\w.])', '2'),
       (r'(?<![\w.>"])1(?![\w.])', '0'), (r'(?<![\w.>])2(?![\w.])', '3'),
       (r'\+\+', '--'), (r'\.first\b', '.second'), (r'\.second\b', '.first'),
       (r'\bmin\b', 'max'), (r'\bmax\b', 'min'), (r'!(?=[\w(])', ''),
       (r'\+=', '='), (r'\bbreak;', ';'), (r'\bcontinue;', ';'),
       (r'uint64_t', 'uint32_t'), (r'\bnotify_all\b', 'notify_one'),
       (r'size_t', 'unsigned char'), (r'\bdouble\b', 'float')]


def cpp_mutants(text):
    out = []
    lines = text.split('\n')
    skip = False
    vtk = 0
    for k, ln in enumerate(lines):
        s = ln.strip()
        if re.match(r'#\s*ifdef\s+(VTKm|USE_MPI)', s):
            vtk = 1
        elif vtk and re.match(r'#\s*(else|endif)', s):
            vtk = 0
        if vtk or s.startswith(('//', '#', '*', '/*', 'using', 'template',
                                'namespace', 'msg <<', 'throw')):
            continue
        code = ln.split('//')[0]
        for pat, new in CPP:
            for m in re.finditer(pat, code):
                if code[:m.start()].count('"') % 2:
                    continue
                t = ln[:m.start()] + new + ln[m.end():]
                out.append((k + 1, f'{m.group(0)}->{new}',
                            '\n'.join(lines[:k] + [t] + lines[k + 1:])))
        # drop a statement that is one line
        if re.match(r'^[\w:.\->\[\]()*&]+(\(.*\)|\s*[-+]?=\s.*);$', s) and \
                not s.startswith(('return', 'auto', 'const')):
            out.append((k + 1, 'drop', '\n'.join(
                lines[:k] + [';'] + lines[k + 1:])))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('file')
    ap.add_argument('checks')
    ap.add_argument('--lines')
    ap.add_argument('--every', type=int, default=1)
    ap.add_argument('--offset', type=int, default=0)
    ap.add_argument('--slots', type=int, default=4)
    ap.add_argument('--workers', default='2')
    ap.add_argument('--scale', default='0.3')
    ap.add_argument('--list', action='store_true')
    ap.add_argument('--timeout', type=int, default=600)
    a = ap.parse_args()
    with open(os.path.join('/repo', a.file)) as f:
        text = f.read()
    cpp = not a.file.endswith('.py')
    ms = cpp_mutants(text) if cpp else py_mutants(text)
    ms.sort(key=lambda m: m[0])
    if a.lines:
        lo, hi = map(int, a.lines.split('-'))
        ms = [m for m in ms if lo <= m[0] <= hi]
    ms = ms[a.offset::a.every]
    print(len(ms), 'mutants', flush=True)
    old = text.split('\n')

    def show(m):
        new = m[2].split('\n')
        return f'{a.file}:{m[0]} [{m[1]}]\n  - {old[m[0] - 1].strip()}\n' \
            f'  + {new[m[0] - 1].strip()}'
    if a.list:
        for m in ms:
            print(show(m))
        return
    q = queue.Queue()
    for m in ms:
        q.put(m)
    stats = {}
    lock = threading.Lock()

    def slot(n):
        d = f'/tmp/mutslot{os.getpid()}.{n}'
        repo, build = d + '/repo', d + '/build'
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(repo)
        os.makedirs(d + '/tmp')
        subprocess.run(f'git -C /repo archive HEAD | tar x -C {repo}',
                       shell=True, check=True)
        env = dict(os.environ, VF_REPO=repo, VF_BUILD=build,
                   VF_WORKERS=a.workers, TMPDIR=d + '/tmp',
                   PYTHONDONTWRITEBYTECODE='1')
        path = os.path.join(repo, a.file)
        subprocess.run([PY, '-c', 'import vf.build as B; B.native_digest ='
                        ' lambda v: "x"; B.build("plain"); '
                        'B.build_perturb()'], cwd=ROOT, env=env, check=True)
        try:
            while True:
                try:
                    m = q.get_nowait()
                except queue.Empty:
                    return
                with open(path, 'w') as f:
                    f.write(m[2])
                verdict, by = 'SURVIVED', ''
                if cpp:
                    r = subprocess.run(['ninja', '-C', build + '/plain-x',
                                        '-j', '2'], capture_output=True)
                    if r.returncode:
                        verdict = 'nobuild'
                    shutil.rmtree(build + '/asan-x', ignore_errors=True)
                    shutil.rmtree(build + '/tsan-x', ignore_errors=True)
                else:
                    r = subprocess.run([PY, '-m', 'py_compile', path],
                                       capture_output=True, env=dict(
                                           env, PYTHONPYCACHEPREFIX=d))
                    if r.returncode:
                        verdict = 'nobuild'
                notes = []
                if verdict == 'SURVIVED':
                    for c in a.checks.split(','):
                        try:
                            r = subprocess.run(
                                [PY, '-c', WRAP, c, d, a.scale], cwd=ROOT, env=env,
                                capture_output=True, text=True,
                                timeout=a.timeout)
                        except subprocess.TimeoutExpired:
                            notes.append(c + ':timeout')
                            continue
                        if r.returncode == 1:
                            verdict, by = 'killed', c
                            break
                        if r.returncode != 0:
                            notes.append(c + ':' + (r.stdout + r.stderr)
                                         .strip().split('\n')[-1][:150])
                with lock:
                    if sum(stats.values()) % 25 == 24:
                        print('  ...', m[0], stats, flush=True)
                    stats[verdict] = stats.get(verdict, 0) + 1
                    if verdict == 'SURVIVED':
                        print('SURVIVED', show(m), notes or '', flush=True)
                    elif os.environ.get('V'):
                        print(verdict, by, show(m), flush=True)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    ts = [threading.Thread(target=slot, args=(n,)) for n in range(a.slots)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    print('done', stats, flush=True)


if __name__ == '__main__':
    main()
