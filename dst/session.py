"""Simulated processes: each session is a forked process; what it reported before dying survives, its memory does not."""

import os
import pickle
import select
import signal
import struct
import sys
import time
import traceback

from .core import HarnessError


class Crash(BaseException):
    pass


def die(code=77):
    """The process stops here: no atexit handlers, no destructors, no buffers written."""
    os._exit(code)


def session(fn, timeout=60):
    """Run fn(emit) in a forked process; returns (how, reports): how in 'ok', 'crash', 'signal N'."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 9
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(int(timeout))

            def emit(o):
                b = pickle.dumps(o)
                b = struct.pack('<I', len(b)) + b
                while b:
                    b = b[os.write(w, b) :]

            try:
                fn(emit)
                code = 0
            except BaseException:  # noqa: BLE001
                emit(('HARNESS', traceback.format_exc()))
            sys.stdout.flush()
            if code == 0 and fn.__dict__.get('clean_exit', True):
                # normal interpreter exit: open HDF5 files are closed
                close_files()
        except BaseException:  # noqa: BLE001
            code = 9
        finally:
            os._exit(code)
    os.close(w)
    buf = b''
    end = time.time() + timeout + 5
    while True:
        rr, _, _ = select.select([r], [], [], max(0.01, min(1, end - time.time())))
        if rr:
            c = os.read(r, 1 << 20)
            if not c:
                break
            buf += c
        elif time.time() > end:
            os.kill(pid, signal.SIGKILL)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    out = []
    while len(buf) >= 4:
        (n,) = struct.unpack('<I', buf[:4])
        if len(buf) < 4 + n:
            break
        out.append(pickle.loads(buf[4 : 4 + n]))
        buf = buf[4 + n :]
    for o in out:
        if isinstance(o, tuple) and o and o[0] == 'HARNESS':
            raise HarnessError(f'session: {o[1]}')
    if os.WIFSIGNALED(st):
        s = os.WTERMSIG(st)
        return ('hang' if s == signal.SIGALRM else f'signal {s}'), out
    code = os.WEXITSTATUS(st)
    return {0: 'ok', 77: 'crash'}.get(code, f'exit {code}'), out


def close_files():
    """What the HDF5 libraries do at interpreter exit."""
    try:
        import tables

        tables.file._open_files.close_all()
    except Exception:  # noqa: BLE001
        pass
    try:
        import h5py

        for i in h5py.h5f.get_obj_ids(h5py.h5f.OBJ_ALL, h5py.h5f.OBJ_FILE):
            h5py.File(i).close()
    except Exception:  # noqa: BLE001
        pass


class Ops:
    """Counts the storage operations of the library's HDF5 classes and injects the planned fault into one of them."""

    NAMES = ('create_extendable_array', 'create_compressible_array', 'append_data', 'set_node_attribute', 'remove_data',
             'flush', 'create_new_group', 'create_array')

    def __init__(self, plan, emit=None):
        self.plan = plan  # None or dict(kind=, at=)
        self.n = 0
        self.emit = emit
        self.hit = False
        self.log = []
        self.depth = 0

    def install(self):
        import acoular.h5files as h5

        for name in ('H5FileTables', 'H5CacheFileTables', 'H5FileH5py', 'H5CacheFileH5py'):
            c = getattr(h5, name)
            for m in self.NAMES:
                if hasattr(c, m) and (m in c.__dict__ or (m in ('flush', 'create_array') and name.startswith('H5File'))):
                    setattr(c, m, self._wrap(m, getattr(c, m)))
        return self

    def install_node_writes(self):
        """Assignments to cached arrays (``node[key] = values``) are storage operations, too."""
        import h5py
        import tables

        for c in (tables.array.Array, h5py.Dataset):
            c.__setitem__ = self._wrap('write', c.__setitem__)
        return self

    def _wrap(self, name, orig):
        def op(obj, *a, **k):
            if self.depth:  # one library calling its own methods is one operation
                return orig(obj, *a, **k)
            self.depth += 1
            try:
                return self._op(name, orig, obj, a, k)
            finally:
                self.depth -= 1

        op.__name__ = name
        return op

    def _op(self, name, orig, obj, a, k):
        i = self.n
        self.n += 1
        self.log.append(name)
        p = self.plan
        if not p or p['at'] != i or self.hit:
            return orig(obj, *a, **k)
        self.hit = True
        kind = p['kind']
        if self.emit:
            self.emit(('op', name, kind, i))
        if kind == 'crash_before':
            die()
        if kind == 'crash_after':
            orig(obj, *a, **k)
            die()
        if kind in ('torn_crash', 'torn_error') and name == 'append_data':
            node, data = a
            orig(obj, node, data[: len(data) // 2])
            if kind == 'torn_crash':
                obj.flush()
                die()
            raise OSError(5, 'simulated input/output error (torn write)')
        if kind in ('torn_crash', 'torn_error') and name == 'write':
            self._torn_write(orig, obj, *a)
            if kind == 'torn_crash':
                obj.file.flush()
                die()
            raise OSError(5, 'simulated input/output error (torn write)')
        if kind == 'torn_crash':
            die()
        if kind == 'full':
            raise OSError(122, 'simulated: disk quota exceeded')
        raise OSError(5, f'simulated input/output error in {name}')

    def _torn_write(self, orig, node, key, value):
        """The first half of the values reaches the node."""
        import numpy as np

        new = np.array(value, copy=True)
        if new.ndim == 0 or new.shape[0] < 2:
            return
        old = np.broadcast_to(np.asarray(node[key]), new.shape)
        new[len(new) // 2 :] = old[len(new) // 2 :]
        orig(node, key, new)
