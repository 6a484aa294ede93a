"""Interpreter for the parallel kernels: a seeded scheduler of parallel iterations and a race detector.

``install()`` replaces the numba decorators before the library is imported.  Every function they decorate becomes a
``Kernel``; called without a scheduler it runs as sequential Python code.  With a scheduler the iterations of each
outermost ``prange`` loop (or the elements of a ``guvectorize`` call) are executed in an order drawn from the seed, as
several threads that work on chunks would, new arrays hold drawn contents, and every element read or written is
recorded with the iteration that did it.  Two iterations that touch one element, at least one of them writing, are a
race: if there is none, every interleaving on every number of threads is equivalent to the order that was executed.
"""

import inspect
import random
import re

import numpy as np

REG = {}
CUR = None  # active Schedule
_full, _arange, _empty = np.full, np.arange, np.empty

_NEW = ('empty', 'empty_like', 'zeros', 'zeros_like', 'ones', 'ones_like', 'full', 'full_like', 'array', 'arange', 'copy',
        'ascontiguousarray')
_READ = ('dot', 'copy', 'conj', 'conjugate', 'sum', 'astype', 'max', 'min', 'mean', 'prod', 'any', 'all', 'cumsum', 'flatten',
         'tolist', 'item', 'argmax', 'argmin', 'std', 'var', 'tobytes', 'take', 'repeat', 'nonzero')


class T(np.ndarray):
    """Array whose element accesses are reported to the active schedule."""

    def _addr(self):
        a = self.view(np.ndarray)
        return a.__array_interface__['data'][0]

    def _where(self, key):
        """Addresses of the elements that key selects."""
        a = self.view(np.ndarray)
        if isinstance(key, tuple):
            key = tuple(k.view(np.ndarray) if isinstance(k, T) else k for k in key)
        elif isinstance(key, T):
            key = key.view(np.ndarray)
        if isinstance(key, (int, np.integer)) and a.ndim == 1:
            key = (key,)
        if isinstance(key, tuple) and len(key) == a.ndim and all(isinstance(k, (int, np.integer)) for k in key):
            p = self._addr()
            for k, n, s in zip(key, a.shape, a.strides):
                p += (int(k) % n if n else 0) * s
            return (p,)
        ad = _full(a.shape, self._addr(), dtype=np.int64)
        for d, s in enumerate(a.strides):
            sh = [1] * a.ndim
            sh[d] = a.shape[d]
            ad += (_arange(a.shape[d], dtype=np.int64) * s).reshape(sh)
        return np.asarray(ad[key]).ravel().tolist()

    def __getitem__(self, key):
        out = np.ndarray.__getitem__(self, key)
        if isinstance(out, np.ndarray) and out.base is not None and np.may_share_memory(out, self):
            return out  # a view, its elements are reported when they are used
        if CUR is not None:
            CUR.touch(self._where(key), False)
        if isinstance(out, T):
            out = out.view(np.ndarray)
        return out

    def __setitem__(self, key, value):
        if CUR is not None:
            if isinstance(value, T):
                CUR.touch(value._where(...), False)
            CUR.touch(self._where(key), True)
        if isinstance(value, T):
            value = value.view(np.ndarray)
        if isinstance(key, T):
            key = key.view(np.ndarray)
        np.ndarray.__setitem__(self, key, value)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        out = kw.get('out') or ()
        ins = []
        for x in inputs:
            if isinstance(x, T):
                if CUR is not None:
                    CUR.touch(x._where(...), method == 'at' and x is inputs[0])
                x = x.view(np.ndarray)
            ins.append(x)
        if out:
            for x in out:
                if isinstance(x, T) and CUR is not None:
                    CUR.touch(x._where(...), True)
            kw['out'] = tuple(x.view(np.ndarray) if isinstance(x, T) else x for x in out)
        res = getattr(ufunc, method)(*ins, **kw)
        if out and len(out) == 1:
            return out[0]
        return res

    def __array_function__(self, func, types, args, kwargs):
        outs = [x for x in _leaves((kwargs.get('out'),)) if isinstance(x, T)]
        for x in _leaves((args, {k: v for k, v in kwargs.items() if k != 'out'})):
            if isinstance(x, T) and CUR is not None and func not in (np.shape, np.ndim, np.size):
                CUR.touch(x._where(...), func in (np.copyto, np.fill_diagonal, np.put, np.place, np.putmask) and x is args[0])
        for x in outs:
            if CUR is not None:
                CUR.touch(x._where(...), True)
        return func(*_plain(args), **_plain(kwargs))

    def fill(self, v):
        self[...] = v

    def __complex__(self):
        return complex(self[(0,) * self.ndim])

    def __float__(self):
        return float(self[(0,) * self.ndim])

    def __int__(self):
        return int(self[(0,) * self.ndim])


def _reader(name):
    def m(self, *a, **k):
        if CUR is not None:
            CUR.touch(self._where(...), False)
        return getattr(self.view(np.ndarray), name)(*_plain(a), **_plain(k))

    m.__name__ = name
    return m


for _n in _READ:
    setattr(T, _n, _reader(_n))


def _leaves(o):
    if isinstance(o, (tuple, list)):
        for x in o:
            yield from _leaves(x)
    elif isinstance(o, dict):
        for x in o.values():
            yield from _leaves(x)
    else:
        yield o


def _plain(o):
    if isinstance(o, T):
        return o.view(np.ndarray)
    if isinstance(o, tuple):
        return tuple(_plain(x) for x in o)
    if isinstance(o, list):
        return [_plain(x) for x in o]
    if isinstance(o, dict):
        return {k: _plain(v) for k, v in o.items()}
    return o


class Schedule:
    """How parallel iterations are executed: spec = dict(style, threads, seed, fill)."""

    def __init__(self, spec):
        self.spec = spec
        self.rng = random.Random(spec['seed'])
        self.depth = 0
        self.it = None
        self.races = []
        self.regions = 0
        self.iterations = 0
        self.accesses = 0
        self.kernel = ''
        self.alive = []
        self.orders = []
        self.reset()

    def reset(self):
        self.readers, self.writers = {}, {}

    # -- accesses
    def touch(self, addrs, write):
        if self.it is None:
            return
        me = self.it
        self.accesses += len(addrs)
        rd, wr = self.readers, self.writers
        for a in addrs:
            w = wr.get(a)
            if w is not None and w != me:
                self.race('write' if write else 'read', w, me)
            if write:
                for r in rd.get(a, ()):
                    if r != me:
                        self.race('read', r, me)
                        break
                wr[a] = me
            else:
                rd.setdefault(a, set()).add(me)

    def race(self, what, other, me):
        if len(self.races) < 3:
            self.races.append((self.kernel, f'{what} by iteration {me if what != "read" else other} / write by iteration {other if what != "read" else me}'))

    # -- iterations
    def order(self, n):
        style, rng = self.spec['style'], self.rng
        if style == 'forward':
            return list(range(n))
        if style == 'reverse':
            return list(range(n - 1, -1, -1))
        if style == 'shuffle':
            o = list(range(n))
            rng.shuffle(o)
            return o
        # threads that work on contiguous chunks, the scheduler picks who continues
        k = max(1, min(self.spec['threads'], n or 1))
        cuts = [n * j // k for j in range(k + 1)]
        todo = [list(range(a, b)) for a, b in zip(cuts, cuts[1:]) if b > a]
        out = []
        while todo:
            q = rng.choice(todo)
            out.append(q.pop(0))
            if not q:
                todo.remove(q)
        return out

    def loop(self, r):
        if self.depth:  # inner parallel loops are sequential inside one iteration
            yield from r
            return
        self.depth = 1
        self.regions += 1
        self.reset()
        o = self.order(len(r))
        self.orders.append(tuple(o))
        try:
            for k in o:
                self.it = k
                self.iterations += 1
                yield r[k]
        finally:
            self.depth = 0
            self.it = None
            self.reset()

    # -- memory
    def dirty(self, a):
        if a.dtype.kind in 'fciu' and a.size:
            fill = self.spec.get('fill')
            if fill is not None:
                a[...] = fill if a.dtype.kind in 'fc' else (int(fill) if fill == fill and abs(fill) < 1e6 else 77)
        return a

    def shared(self, a):
        if isinstance(a, np.ndarray) and not isinstance(a, T) and a.dtype != object:
            self.alive.append(a)
            return a.view(T)
        return a


def prange(*a):
    r = range(*[int(x) for x in a])
    return r if CUR is None else CUR.loop(r)


class Kernel:
    def __init__(self, fn, kind, opts=None, sigs=None, layout=None):
        self.py_func = fn
        self.__name__ = fn.__name__
        self.__doc__ = fn.__doc__
        self.__module__ = fn.__module__
        self.__wrapped__ = fn
        self.kind, self.opts, self.sigs, self.layout = kind, opts or {}, sigs, layout
        REG[f'{fn.__module__.split(".")[-1]}.{fn.__name__}'] = self

    @property
    def params(self):
        return list(inspect.signature(self.py_func).parameters)

    def __call__(self, *args, **kw):
        if self.kind == 'gufunc':
            return self.call_gufunc(args, kw)
        if CUR is None or CUR.depth:
            return self.py_func(*args, **kw)
        old = CUR.kernel
        CUR.kernel = self.__name__
        try:
            with Patched(self.py_func, CUR):
                out = self.py_func(*[CUR.shared(a) for a in args], **{k: CUR.shared(v) for k, v in kw.items()})
        finally:
            CUR.kernel = old
        return out.view(np.ndarray) if isinstance(out, T) else out

    def call_gufunc(self, args, kw):
        ins, outs = [[p for p in re.findall(r'\(([^)]*)\)', side)] for side in self.layout.split('->')]
        core = [[d.strip() for d in p.split(',') if d.strip()] for p in ins + outs]
        nin = len(ins)
        arrs = [np.asarray(a) for a in args]
        sig = self.resolve(arrs[:nin])
        dims = {}
        for a, c in zip(arrs, core):
            if a.ndim < len(c):
                raise ValueError(f'{self.__name__}: operand does not have enough dimensions for {c}')
            for d, n in zip(c, a.shape[a.ndim - len(c) :]):
                if dims.setdefault(d, n) != n:
                    raise ValueError(f'{self.__name__}: mismatch in core dimension {d}: {n} / {dims[d]}')
        shape = np.broadcast_shapes(*[a.shape[: a.ndim - len(c)] for a, c in zip(arrs[:nin], core)])
        work, back = [], []
        for k, c in enumerate(core):
            dt = sig[k][0]
            if k < len(arrs):
                a = arrs[k]
                if a.dtype != dt:
                    if not np.can_cast(a.dtype, dt, 'same_kind'):
                        raise TypeError(f'{self.__name__}: cannot cast {a.dtype} to {dt}')
                    b = a.astype(dt)
                    if k >= nin:
                        back.append((a, b))
                    a = b
                if k >= nin and a.shape[: a.ndim - len(c)] != shape:
                    raise ValueError(f'{self.__name__}: output has the wrong shape')
            else:
                a = _empty(shape + tuple(dims[d] for d in c), dt)
                if CUR is not None:
                    CUR.dirty(a)
            work.append(a)
        full = [np.broadcast_to(a, shape + a.shape[a.ndim - len(c) :]) if k < nin else a for k, (a, c) in enumerate(zip(work, core))]
        idx = list(np.ndindex(*shape))
        S = CUR
        nested = S is not None and S.depth
        if S is not None and not nested:
            old, S.kernel = S.kernel, self.__name__
            it = S.loop(range(len(idx)))
            full = [_tracked(S, a) for a in full]
        else:
            it = range(len(idx))
        try:
            for j in it:
                call = []
                for a, c, (_dt, nd) in zip(full, core, sig):
                    v = np.ndarray.__getitem__(a, idx[j] + (Ellipsis,))
                    if not c and nd == 1:
                        v = np.lib.stride_tricks.as_strided(v, (1,), (v.itemsize,), subok=True)
                    elif not c:
                        v = v[()]
                    call.append(v)
                self.py_func(*call)
        finally:
            if S is not None and not nested:
                it.close()
                S.kernel = old
        for a, b in back:
            a[...] = b
        res = [a for k, a in enumerate(work) if k >= nin]
        return res[0] if len(res) == 1 else tuple(res)

    def resolve(self, ins):
        """The first declared signature that the inputs can be cast to safely."""
        for sig in self.sigs:
            t = []
            for x in sig:
                x = getattr(x, 'dtype', x), getattr(x, 'ndim', 0)
                t.append((np.dtype(str(x[0])), x[1]))
            if all(np.can_cast(a.dtype, d[0], 'safe') for a, d in zip(ins, t)):
                return t
        raise TypeError(f'{self.__name__}: no matching loop for {[str(a.dtype) for a in ins]}')


def _tracked(S, a):
    S.alive.append(a)
    return a.view(T)


class Patched:
    """Arrays that a kernel creates outside of its parallel loops are shared by all iterations."""

    def __init__(self, fn, S):
        self.fn, self.S = fn, S

    def __enter__(self):
        S = self.S
        g = self.fn.__globals__
        self.undo = []
        for n in _NEW:
            orig = getattr(np, n)

            def new(*a, _o=orig, _n=n, **k):
                out = _o(*_plain(a), **_plain(k))
                if _n.startswith('empty'):
                    S.dirty(out)
                if S.it is None:
                    out = S.shared(out)
                return out

            self.undo.append((np, n, orig))
            for name, v in g.items():
                if v is orig:
                    self.undo.append((g, name, orig))
            for o, name, _v in self.undo:
                if _v is orig:
                    if isinstance(o, dict):
                        o[name] = new
                    else:
                        setattr(o, name, new)

    def __exit__(self, *e):
        for o, name, v in self.undo:
            if isinstance(o, dict):
                o[name] = v
            else:
                setattr(o, name, v)


class scheduled:
    """All kernels called inside are executed by this schedule."""

    def __init__(self, spec):
        self.S = Schedule(spec)

    def __enter__(self):
        global CUR
        CUR = self.S
        return self.S

    def __exit__(self, *e):
        global CUR
        CUR = None


def install():
    import numba

    def jit(*a, **opts):
        if len(a) == 1 and callable(a[0]) and inspect.isfunction(a[0]):
            return Kernel(a[0], 'jit', opts)
        return lambda fn: Kernel(fn, 'jit', opts, a[0] if a else None)

    def guvectorize(sigs, layout, **opts):
        return lambda fn: Kernel(fn, 'gufunc', opts, sigs, layout)

    numba.jit = numba.njit = jit
    numba.guvectorize = guvectorize
    numba.prange = prange
