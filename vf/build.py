"""Out-of-tree builds of /repo's working tree, one per instrumentation variant.

Every build is configured from /repo's own CMakeLists.txt (so that it follows
the tree under test), lives in /verif/.build/<variant>-<digest> where the
digest covers every file that can influence the result, and is reused only if
that digest is unchanged.  Nothing is written in /repo.
"""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import time

REPO = os.environ.get('VF_REPO', '/repo')
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get('VF_BUILD', os.path.join(ROOT, '.build'))
PY = '/opt/stempy-venv/bin/python'

VARIANTS = {
    # name: (CC, CXX, flags)
    'plain': ('gcc', 'g++', '-O1 -g1'),
    'asan': ('clang', 'clang++',
             '-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined '
             '-fno-sanitize=vptr,function -fno-sanitize-recover=all '
             '-shared-libsan'),
    'tsan': ('gcc', 'g++', '-O1 -g1 -fsanitize=thread'),
    # with MPI, over the stand-in libraries of vf/native/mpi
    'mpi': ('gcc', 'g++', '-O1 -g1 -D_GLIBCXX_ASSERTIONS'),
}

MPI_DIR = os.path.join(ROOT, 'vf', 'native', 'mpi')

SRC_DIRS = ['stempy', 'python', 'h5cpp', 'thirdparty', 'cmake']


def _walk():
    for top in SRC_DIRS:
        base = os.path.join(REPO, top)
        for d, dirs, files in os.walk(base):
            dirs[:] = sorted(x for x in dirs if x != '__pycache__')
            for f in sorted(files):
                if f.endswith('.pyc'):
                    continue
                yield os.path.join(d, f)
    for f in sorted(os.listdir(REPO)):
        p = os.path.join(REPO, f)
        if os.path.isfile(p) and f in ('CMakeLists.txt',):
            yield p


def native_digest(variant):
    h = hashlib.sha256(repr(VARIANTS[variant]).encode())
    if variant == 'mpi':
        for d, _, names in sorted(os.walk(MPI_DIR)):
            for f in sorted(names):
                with open(os.path.join(d, f), 'rb') as g:
                    h.update(f.encode() + g.read())
    for p in _walk():
        if p.endswith('.py'):
            # Python sources are linked, not compiled: only the names matter
            h.update(b'py:' + p.encode())
            continue
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:16]


class BuildError(Exception):
    pass


def build(variant, quiet=True):
    """Returns the directory to put on PYTHONPATH."""
    os.makedirs(BUILD, exist_ok=True)
    cc, cxx, flags = VARIANTS[variant]
    digest = native_digest(variant)
    out = os.path.join(BUILD, f'{variant}-{digest}')
    lock = open(os.path.join(BUILD, f'{variant}.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if os.path.exists(os.path.join(out, 'ok')):
            return os.path.join(out, 'lib')
        for name in os.listdir(BUILD):
            # At most one build tree per variant is kept
            if name.startswith(variant + '-'):
                shutil.rmtree(os.path.join(BUILD, name), ignore_errors=True)
        t0 = time.time()
        env = dict(os.environ, CC=cc, CXX=cxx, LC_ALL='C.UTF-8',
                   PYTHONDONTWRITEBYTECODE='1')
        for k in ('LD_PRELOAD', 'ASAN_OPTIONS', 'CFLAGS', 'CXXFLAGS',
                  'LDFLAGS'):
            env.pop(k, None)
        cmds, mpi = [], variant == 'mpi'
        fake = os.path.join(out, 'libfakempi.so')
        if mpi:
            os.makedirs(out)
            cmds = [[cxx, '-std=c++14', '-O1', '-g1', '-fPIC', '-shared', '-o',
                     fake, os.path.join(MPI_DIR, 'fakempi.cpp'), '-pthread']]
        cmds += [
            ['cmake', '-S', REPO, '-B', out, '-G', 'Ninja',
             '-DCMAKE_BUILD_TYPE=None',
             f'-DCMAKE_CXX_FLAGS={flags} -w',
             '-DCMAKE_PROJECT_stempy_INCLUDE=' +
             (os.path.join(MPI_DIR, 'standin.cmake') if mpi else
              os.path.join(ROOT, 'vf', 'pybind11_from_apt.cmake')),
             f'-DPython3_EXECUTABLE={PY}', f'-DVF_MPI_LIB={fake}',
             '-Dstempy_ENABLE_HDF5=ON',
             f'-Dstempy_ENABLE_MPI={"ON" if mpi else "OFF"}',
             '-Dstempy_ENABLE_VTKm=OFF'],
            ['ninja', '-C', out, '-j', str(os.cpu_count() or 8)],
        ]
        for cmd in cmds:
            r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                raise BuildError(f'{" ".join(cmd)}\n{r.stdout[-6000:]}')
        with open(os.path.join(out, 'ok'), 'w') as f:
            f.write(f'{time.time() - t0:.1f}\n')
        if not quiet:
            print(f'built {variant} in {time.time() - t0:.1f} s',
                  file=sys.stderr)
        return os.path.join(out, 'lib')
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


def build_perturb():
    src = os.path.join(ROOT, 'vf', 'perturb.c')
    out = os.path.join(BUILD, 'perturb.so')
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'perturb.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(out) and \
                os.path.getmtime(out) >= os.path.getmtime(src):
            return out
        r = subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-o', out, src,
                            '-ldl', '-lpthread'], capture_output=True,
                           text=True)
        if r.returncode:
            raise BuildError(r.stderr)
    return out


def runtime_lib(name):
    """Path of a sanitizer runtime to preload."""
    if name == 'asan':
        cmd = ['clang', '-print-file-name=libclang_rt.asan-x86_64.so']
    elif name == 'tsan':
        cmd = ['gcc', '-print-file-name=libtsan.so']
    elif name == 'stdcxx':
        cmd = ['gcc', '-print-file-name=libstdc++.so.6']
    p = subprocess.run(cmd, capture_output=True, text=True).stdout.strip()
    return os.path.realpath(p)


if __name__ == '__main__':
    for v in sys.argv[1:]:
        t = time.time()
        print(build(v, quiet=False), f'{time.time() - t:.1f}')
