"""Workload parts: scripted sources with fault injection, consumers, stream helpers."""

import numpy as np
from acoular.base import Generator, SamplesGenerator, TimeInOut
from acoular.internal import digest as _digest
from traits.api import Any, CArray, CInt, CStr, Property, cached_property

from .core import Violation


class SimIOError(OSError):
    """The fault the simulator injects into a stream."""


class ScriptedSource(SamplesGenerator):
    """A source whose every block, fault and side effect is scripted by the simulator.

    ``style``: how blocks are handed out -- 'fresh' arrays, 'view' on one array that the source keeps (like an
    in-memory recording), 'reuse' of one output buffer (valid until the next pull, like the point sources).
    ``fail``: {pass number: block index at which reading raises}; pass -1 stands for every pass.
    """

    data = CArray
    style = CStr('fresh')
    fail = Any
    hook = Any  # called with (pass, block index) before each block
    tag = CStr('')
    passes = CInt(0)
    delivered = CInt(0)
    opened = CInt(0)
    closed = CInt(0)
    chan_override = Any
    digest = Property(depends_on=['tag', 'data'])

    @cached_property
    def _get_digest(self):
        return _digest(self)

    def result(self, num):
        p = self.passes
        self.passes += 1
        self.opened += 1
        n = self.data.shape[0]
        out = None
        if self.style == 'reuse':
            out = np.empty((num, self.data.shape[1]), dtype=self.data.dtype)
        try:
            i = 0
            k = 0
            while i < n:
                if self.hook is not None:
                    self.hook(p, k)
                f = self.fail or {}
                if f.get(p, f.get(-1)) == k:
                    raise SimIOError(f'simulated read error at block {k}')
                b = self.data[i : i + num]
                self.delivered += 1
                if self.style == 'reuse':
                    out[: len(b)] = b
                    yield out[: len(b)]
                elif self.style == 'view':
                    yield b
                else:
                    yield b.copy()
                i += num
                k += 1
            f = self.fail or {}
            if f.get(p, f.get(-1)) == k:
                raise SimIOError(f'simulated read error at end of stream ({k})')
        finally:
            self.closed += 1


def make_source(data, fs=1000.0, style='fresh', fail=None, hook=None, tag=''):
    s = ScriptedSource(data=np.ascontiguousarray(data), sample_freq=fs, style=style, tag=tag)
    s.num_samples = data.shape[0]
    s.num_channels = data.shape[1]
    s.fail = fail
    s.hook = hook
    return s


class Consumer(TimeInOut):
    """A registered consumer of a splitter; hands every block through."""

    name = CStr('')
    digest = Property(depends_on=['source.digest', 'name'])

    @cached_property
    def _get_digest(self):
        return _digest(self)

    def result(self, num):
        for b in self.source.result(num):  # noqa: UP028 (the splitter identifies its caller by this frame)
            yield b


def ident_data(n, ch, salt=0):
    """Every sample unique and traceable to its position."""
    return (np.arange(n, dtype=float)[:, None] * 100 + np.arange(ch, dtype=float)[None, :] + 1 + salt * 1e6)


def noise(seed, n, ch, dtype=float):
    r = np.random.Generator(np.random.PCG64(seed))
    return r.standard_normal((n, ch)).astype(dtype)


def collect(gen, copy=True):
    return [np.array(b, copy=True) if copy else b for b in gen]


def cat(blocks, ch=None):
    if not blocks:
        return np.zeros((0, ch or 0))
    return np.concatenate(blocks, axis=0)


def close(a, b, rtol=1e-9, atol=None):
    """Numeric agreement relative to the size of the reference (NaN-safe)."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if not np.array_equal(np.isfinite(a), np.isfinite(b)):
        return False
    m = np.isfinite(a)
    if not m.all() and not np.array_equal(np.isnan(a), np.isnan(b)):
        return False
    a, b = a[m], b[m]
    if a.size == 0:
        return True
    scale = max(float(np.abs(b).max()), 1e-300)
    at = rtol * scale if atol is None else atol
    return bool(np.abs(a - b).max() <= at)


def diff(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return f'shape {a.shape} != {b.shape}'
    if a.size == 0:
        return 'equal (empty)'
    d = np.abs(np.nan_to_num(a) - np.nan_to_num(b))
    i = np.unravel_index(int(d.argmax()), d.shape)
    return f'max |diff| {d.max():.3g} at {tuple(int(x) for x in i)} (scale {np.abs(np.nan_to_num(b)).max():.3g})'


def check_equal(a, b, cls, where, rtol=1e-9, detail=''):
    if not close(a, b, rtol):
        raise Violation(cls, where, f'{detail} {diff(a, b)}')
