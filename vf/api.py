"""What checks use: violations, comparison helpers, per-case context."""
import hashlib
import os

import numpy as np


class Violation(Exception):
    def __init__(self, key, msg=''):
        super().__init__(f'{key}: {msg}')
        self.key, self.msg = key, str(msg)


class Ctx:
    """What a check may use: scratch space, tags, counters."""

    def __init__(self, scratch):
        self.scratch = scratch
        self._dir = 0
        self.reset()

    def reset(self):
        self.tags, self.counters, self.sigs = {}, {}, []
        self.evals = 0
        self.sample = None

    def tag(self, *names):
        for n in names:
            self.tags[n] = self.tags.get(n, 0) + 1

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + int(n)

    def nontrivial(self, *sig):
        """Records one distinct non-trivial evaluation."""
        h = hashlib.sha256(repr(sig).encode()).hexdigest()[:12]
        self.sigs.append(h)

    def tmpdir(self):
        self._dir += 1
        d = os.path.join(self.scratch, f'd{self._dir}')
        os.makedirs(d)
        return d


def call(name, fn, *args, **kwargs):
    """Calls the code under test; an exception on valid input is a finding."""
    try:
        return fn(*args, **kwargs)
    except Violation:
        raise
    except MemoryError:
        raise
    except Exception as e:
        raise Violation(f'exception:{name}:{type(e).__name__}',
                        f'{name} raised {type(e).__name__}: {e}') from e


def refused(name, fn, *args, exc=Exception, **kwargs):
    """The call must raise."""
    try:
        r = fn(*args, **kwargs)
    except exc:
        return
    except Exception as e:
        raise Violation(f'wrong-exception:{name}',
                        f'{name} raised {type(e).__name__}: {e}, expected '
                        f'{exc}') from e
    raise Violation(f'not-refused:{name}', f'{name} returned {r!r:.300}')


def equal(name, got, want, detail=''):
    """Same shape and same values (NaNs equal)."""
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        raise Violation(f'shape:{name}', f'{name}: shape {got.shape}, expected '
                        f'{want.shape} {detail}')
    ok = got == want
    if got.dtype.kind == 'f' or want.dtype.kind == 'f':
        ok = ok | (np.isnan(np.asarray(got, float)) &
                   np.isnan(np.asarray(want, float)))
    if not np.all(ok):
        bad = np.argwhere(~ok)
        at = tuple(bad[0]) if got.ndim else ()
        raise Violation(f'value:{name}', f'{name}: {len(bad)} of {got.size} '
                        f'values differ, first at {tuple(map(int, at))}: got '
                        f'{got[at]!r}, expected {want[at]!r} {detail}')


def close(name, got, want, rtol=0.0, atol=0.0, detail=''):
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        raise Violation(f'shape:{name}', f'{name}: shape {got.shape}, expected '
                        f'{want.shape} {detail}')
    if not np.allclose(got, want, rtol=rtol, atol=atol, equal_nan=True):
        d = np.abs(np.asarray(got, float) - np.asarray(want, float))
        d = np.where(np.isnan(d), np.inf, d)
        at = np.unravel_index(np.argmax(d), d.shape) if d.ndim else ()
        raise Violation(f'value:{name}', f'{name}: worst at '
                        f'{tuple(map(int, at))}: got {got[at]!r}, expected '
                        f'{want[at]!r} {detail}')


def require(cond, key, msg=''):
    if not cond:
        raise Violation(key, msg)
