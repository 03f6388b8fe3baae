"""Controls the preloaded schedule perturbation (vf/perturb.c)."""
import ctypes
import os

_lib = None
if 'perturb.so' in os.environ.get('LD_PRELOAD', ''):
    _lib = ctypes.CDLL(None)
    _lib.vf_perturb_delays.restype = ctypes.c_ulong
    _lib.vf_perturb_points.restype = ctypes.c_ulong
    _lib.vf_stream_uses.restype = ctypes.c_ulong

active = _lib is not None


def gen(rng):
    """[seed, permille, max microseconds, mask of slow threads]"""
    return [int(rng.integers(1 << 31)),
            int(rng.choice([5, 30, 100, 300])),
            int(rng.choice([0, 20, 200, 1000])),
            int(rng.choice([0, 1, 2, 6, 0xfff0, int(rng.integers(1 << 16))]))]


class Perturb:
    """with Perturb(spec, ctx): ... ; counts what happened."""

    def __init__(self, spec, ctx):
        self.spec, self.ctx = spec, ctx

    def __enter__(self):
        if active and self.spec:
            self.uses = _lib.vf_stream_uses()
            _lib.vf_perturb_set(*self.spec)

    def __exit__(self, *exc):
        if active and self.spec:
            self.ctx.count('perturb_points', _lib.vf_perturb_points())
            d = _lib.vf_perturb_delays()
            self.ctx.count('perturb_delays', d)
            n = _lib.vf_perturb_threads()
            self.ctx.count('perturb_threads', n)
            uses = _lib.vf_stream_uses() - self.uses
            if uses:
                self.ctx.count('stream_uses', uses)
                self.ctx.tag('streams')
            if d and n > 1:
                self.ctx.tag('perturbed')
            _lib.vf_perturb_set(0, 0, 0, 0)


FAULTS = {'eio': 1, 'eof': 2, 'short': 3, 'eintr': 4}


class Fault:
    """with Fault([kind, after, count], ctx): reads of .data files fail."""

    def __init__(self, spec, ctx):
        self.spec, self.ctx = spec, ctx
        self.happened = 0

    def __enter__(self):
        if active and self.spec:
            kind, after, count = self.spec
            _lib.vf_fault_set(FAULTS[kind], after, count)
        return self

    def __exit__(self, *exc):
        if active and self.spec:
            _lib.vf_faults.restype = ctypes.c_ulong
            self.happened = _lib.vf_faults()
            self.ctx.count('faults', self.happened)
            if self.happened:
                self.ctx.tag('fault:' + self.spec[0])
            _lib.vf_fault_set(0, 0, 0)
