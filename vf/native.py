"""Builds small C++ drivers of /repo's code in /verif/.build."""
import fcntl
import hashlib
import os
import shutil
import subprocess

from vf import build as B

HERE = os.path.join(B.ROOT, 'vf', 'native')


def build(name, flags, includes, sources=(), cxx='g++'):
    """Path of the executable of vf/native/<name>.cpp, rebuilt when it, the
    tree or the flags change."""
    src = os.path.join(HERE, name + '.cpp')
    h = hashlib.sha256(repr((flags, includes, sources, cxx)).encode())
    h.update(B.native_digest('plain').encode())
    with open(src, 'rb') as f:
        h.update(f.read())
    tag = hashlib.sha256((name + flags + cxx).encode()).hexdigest()[:6]
    os.makedirs(B.BUILD, exist_ok=True)
    out = os.path.join(B.BUILD, f'native-{name}-{tag}-{h.hexdigest()[:12]}')
    if os.path.exists(out):
        return out
    with open(os.path.join(B.BUILD, f'native-{name}-{tag}.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(out):
            return out
        for f in os.listdir(B.BUILD):
            if f.startswith(f'native-{name}-{tag}-'):
                os.unlink(os.path.join(B.BUILD, f))
        cmd = [cxx, '-std=c++14', '-w', *flags.split()]
        cmd += ['-I' + os.path.join(B.REPO, i) for i in includes]
        cmd += [os.path.join(B.REPO, s) for s in sources] + [src]
        cmd += ['-o', out + '.tmp', '-pthread']
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise B.BuildError(' '.join(cmd) + '\n' + r.stderr[-5000:])
        os.rename(out + '.tmp', out)
    return out
