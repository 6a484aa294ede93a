"""Runs the compiled kernels of the working tree in real processes (each request in a forked child of its own)."""

import os
import pickle
import signal
import socket
import struct
import subprocess
import sys
import time


def send(s, obj):
    d = pickle.dumps(obj)
    s.sendall(struct.pack('<Q', len(d)) + d)


def recv(s):
    def read(n):
        b = b''
        while len(b) < n:
            c = s.recv(n - len(b))
            if not c:
                raise EOFError
            b += c
        return b

    return pickle.loads(read(struct.unpack('<Q', read(8))[0]))


def start(scratch, repo):
    path = os.path.join(scratch, 'kserver')
    env = dict(os.environ, NUMBA_CACHE_DIR=os.path.join(scratch, 'numba-compiled'), NUMBA_NUM_THREADS='8', OPENBLAS_NUM_THREADS='1')
    env.pop('NUMBA_DISABLE_JIT', None)
    log = open(os.path.join(scratch, 'kserver.log'), 'wb')
    subprocess.Popen([sys.executable, '-B', os.path.abspath(__file__), path, repo, str(os.getpid())], env=env, stdout=log, stderr=log,
                     stdin=subprocess.DEVNULL)
    return path


def request(path, req, wait=240):
    end = time.time() + wait
    while True:
        try:
            s = socket.socket(socket.AF_UNIX)
            s.connect(path)
            break
        except OSError:
            s.close()
            if time.time() > end or os.path.exists(path + '.failed'):
                return dict(down=True)
            time.sleep(0.2)
    s.settimeout(60)
    try:
        send(s, req)
        return recv(s)
    except (OSError, EOFError) as e:
        return dict(died=repr(e))
    finally:
        s.close()


def serve(path, repo, parent):
    import ctypes

    ctypes.CDLL(None).prctl(1, signal.SIGKILL)  # ends with its parent
    if os.getppid() != parent:
        return
    sys.path.insert(0, repo)
    try:
        import acoular  # noqa: F401
        import importlib
    except BaseException:
        open(path + '.failed', 'w').close()
        raise
    import numba
    import numpy as np

    lib = os.path.realpath(os.path.dirname(acoular.__file__))
    if lib != os.path.realpath(os.path.join(repo, 'acoular')):
        open(path + '.failed', 'w').close()
        return
    srv = socket.socket(socket.AF_UNIX)
    srv.bind(path + '.tmp')
    srv.listen(64)
    os.rename(path + '.tmp', path)
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    while True:
        c, _ = srv.accept()
        if os.fork():
            c.close()
            continue
        signal.alarm(60)
        req = recv(c)
        out = []
        try:
            mod, name = req['kernel'].split('.')
            f = getattr(importlib.import_module('acoular.' + mod), name)
            for v in req['variants']:
                numba.set_num_threads(v['threads'])
                if v.get('chunk'):
                    numba.set_parallel_chunksize(v['chunk'])
                args = [a.copy() if isinstance(a, np.ndarray) else a for a in v['args']]
                r = f(*args)
                numba.set_parallel_chunksize(0)
                out.append([args[k] for k in req['outs']])
            ans = dict(ok=out)
        except BaseException as e:  # noqa: BLE001
            ans = dict(error=f'{type(e).__name__}: {e}')
        try:
            send(c, ans)
        finally:
            os._exit(0)


if __name__ == '__main__':
    serve(sys.argv[1], sys.argv[2], int(sys.argv[3]))
