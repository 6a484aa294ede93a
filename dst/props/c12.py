"""C12: results are a function of the configuration: twin executions in different simulated worlds."""

import gc
import hashlib
import json
import os
import random
import subprocess
import sys
import threading
import warnings

import numpy as np

if __name__ == '__main__':
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))

from dst.core import HarnessError, Property, Violation
from dst.props import c07

GARBAGE = None  # what newly allocated memory contains: (floats, integers); None: memory as it comes


def garbage(seed):
    r = random.Random(seed)
    f = [float(r.randint(-999, 999)) for _ in range(97)]
    for k in range(0, 97, r.randint(3, 30)):
        f[k] = r.choice([float('nan'), float('inf'), 1e30, -7.5])
    return f, [r.randint(0, 100) for _ in range(89)]


def _poison(a):
    if GARBAGE is not None and a.size and a.dtype != object:
        flat = a.reshape(-1)
        if a.dtype.kind in 'fc':
            for k, v in enumerate(GARBAGE[0]):
                flat[k :: len(GARBAGE[0])] = v
        elif a.dtype.kind in 'iu':
            for k, v in enumerate(GARBAGE[1]):
                flat[k :: len(GARBAGE[1])] = v
        elif a.dtype.kind == 'b':
            flat[:: 2] = True
            flat[1::2] = False
    return a


class P(Property):
    id = 'C12'
    technique = 'deterministic simulation: the same objects in twin worlds that differ in memory, order, company and history'
    rule = (
        'One evaluation = one object graph (root class drawn from 80 classes, 1-3 roots with shared parts) evaluated in a '
        'plain simulated process and in 2-3 worlds that differ in: contents of newly allocated memory, state and use of the '
        'global random generators, order of evaluation, other objects created and evaluated before (the same classes, '
        'other settings, equal twins), repeated passes, an open partial pass of the same objects, another block size '
        'before, another thread, garbage collection, and (in batches) a fresh interpreter with another hash seed. All '
        'observables are compared bit by bit. Noise generators: equal seeds agree, different seeds differ. Non-trivial: '
        'at least two worlds gave a result. Distinct: by event-log digest.'
    )
    distinct_measure = 'digest of the object graphs, worlds and result bytes'
    assumptions = (
        'BLAS and the compiled kernels run with one thread here (their schedules are part of C13).',
        'An object that is evaluated in one pass is not changed meanwhile.',
    )
    components = {
        'real': ['all classes of acoular that produce results', 'numpy, scipy, sklearn', 'processes (fork), interpreters'],
        'stub': ['numpy.empty and empty_like hand out drawn memory contents', 'numba kernels run as Python code'],
    }
    quick_runs = 1400
    quick_budget = 60
    thorough_runs = 60000
    batch = 6

    def seams(self):
        e, el = np.empty, np.empty_like

        def empty(*a, **k):
            return _poison(e(*a, **k))

        def empty_like(*a, **k):
            return _poison(el(*a, **k))

        np.empty, np.empty_like = empty, empty_like

    # -- scenarios ------------------------------------------------------------------------------------
    def graph(self, rng, i, depth=None):
        g = c07.Gen(rng, depth or rng.choice([1, 2, 3]))
        kind, cls = c07.ROOTS[i % len(c07.ROOTS)] if rng.random() < 0.75 else rng.choice(c07.ROOTS)
        roots = [g.obj(rng, kind, cls)]
        for _ in range(rng.choice([0, 0, 1, 2])):
            k = kind if rng.random() < 0.4 else rng.choice(['signal', 'psource', 'tsource', 'stream', 'ps', 'bf', 'tbf', 'steer', 'grid'])
            roots.append(g.obj(rng, k))
        if rng.random() < 0.4:  # a part is evaluated on its own, too
            c = [x for x in sorted(c07.deps(g.objs, roots[0])) if x not in roots]
            if c:
                roots.append(rng.choice(c))
        return dict(objs={k: v for k, v in g.objs.items()}, roots=list(dict.fromkeys(roots)), num=rng.choice([16, 50, 128]))

    def scenario(self, rng, i, tier):
        if i % 350 == 349:
            return dict(kind='interpreter', hashseed=rng.randrange(1, 1 << 20),
                        graphs=[self.graph(rng, rng.randrange(1000), 2) for _ in range(40)])
        if i % 12 == 5:
            return dict(kind='seeds', cls=rng.choice(['WNoiseGenerator', 'PNoiseGenerator', 'FiltWNoiseGenerator', 'UncorrelatedNoiseSource',
                                                      'LineSource']),
                        seeds=rng.choice([[1, 2], [0, 1], [5, 5], [2**31 - 1, 2**31 - 2], [rng.randrange(1 << 16), rng.randrange(1 << 16)]]),
                        n=rng.choice([4, 100, 257]), rms=rng.choice([1.0, 0.3]), usig=rng.choice([1, 2]), between=rng.random() < 0.5)
        g = self.graph(rng, i)
        worlds = []
        for _ in range(rng.choice([2, 2, 3])):
            w = {}
            for k in rng.sample(['poison', 'rng', 'order', 'before', 'twin', 'repeat', 'partial', 'othernum', 'thread', 'gc'],
                                rng.choice([1, 2, 3, 4])):
                w[k] = rng.randrange(1, 1 << 20)
            if 'before' in w:
                h = self.graph(random.Random(w['before']), i if rng.random() < 0.6 else rng.randrange(1000), 1)
                w['before'] = dict(objs=h['objs'], roots=h['roots'], keep=rng.random() < 0.5)
            worlds.append(w)
        return dict(g, kind='worlds', worlds=worlds)

    def nontrivial(self, sc, rec):
        return rec['probes'].get('compared', 0) > 0

    # -- execution ------------------------------------------------------------------------------------
    def execute(self, sc, run):
        warnings.simplefilter('ignore')
        getattr(self, 'run_' + sc['kind'])(sc, run)
        run.simtime += 0.1

    def run_worlds(self, sc, run):
        base = self.world(sc, {}, run)
        run.log('base', {k: v and sorted(v.items()) for k, v in base.items()})
        for k, w in enumerate(sc['worlds']):
            got = self.world(sc, w, run)
            for f in w:
                run.fault('world:' + f)
            run.state(sorted(w), sc['objs'][sc['roots'][0]]['cls'])
            for key, v in got.items():
                root = key.split('/')[0]
                self.compare(run, sc, root, base[root], v, f'world {k} {sorted(w)} {key}')

    def compare(self, run, sc, root, a, b, where):
        cls = sc['objs'][root]['cls']
        if set(a) != set(b):
            raise Violation('other-outcome', cls, f'{where}: {sorted(a)} {a.get("error", "")} / {sorted(b)} {b.get("error", "")}')
        for n in a:
            run.probe('compared')
            if a[n] != b[n]:
                raise Violation('not-reproducible', cls, f'{where}: {n} of {cls} differs: {a[n]} / {b[n]}')

    def world(self, sc, w, run):
        """Observables of all roots in one simulated process."""
        from dst import session as S

        def inside(emit):
            out = evaluate(sc, w)
            emit(out)

        how, rep = S.session(inside, timeout=100)
        if how != 'ok' or len(rep) != 1:
            raise Violation('session-died', sc['objs'][sc['roots'][0]]['cls'], f'{how} in world {w}')
        run.steps += len(rep[0])
        return rep[0]

    def run_seeds(self, sc, run):
        import acoular as ac

        n = max(sc['n'], 100) if sc['cls'] == 'LineSource' else sc['n']
        kw = dict(sample_freq=8000.0, num_samples=n, rms=sc['rms'])
        run.fault('seed_pair')

        def make(seed):
            if sc['cls'] in ('UncorrelatedNoiseSource', 'LineSource'):
                sig = ac.WNoiseGenerator(seed=seed, **kw)
                mics = ac.MicGeom(pos_total=np.array([[0.0, 0.1, 0.2], [0, 0.2, 0.1], [0, 0, 0.0]]))
                if sc['cls'] == 'LineSource':
                    s = ac.LineSource(signal=sig, mics=mics, loc=(0.0, 0.0, 0.1), num_sources=2, coherence='incoherent',
                                      source_strength=np.array([1.0, 1.0]))
                else:
                    s = ac.UncorrelatedNoiseSource(signal=sig, mics=mics)
                b = [x.copy() for x in s.result(64)]
                return np.concatenate(b)
            if sc['cls'] == 'FiltWNoiseGenerator':
                kw['ma'] = np.array([1.0, 0.5, 0.2])
            s = getattr(ac, sc['cls'])(seed=seed, **kw)
            return s.signal() if sc['usig'] == 1 else s.usignal(2)

        a, b = sc['seeds']
        x, y = make(a), make(a)
        if sc['between']:
            make(b)
        z, t = make(b), make(a)
        run.log('seeds', x, y, z, t)
        run.probe('compared', 3)
        if not (np.array_equal(x, y) and np.array_equal(x, t)):
            raise Violation('same-seed-differs', sc['cls'], str(sc))
        if (a != b) == np.array_equal(x, z):
            raise Violation('seeds-not-respected', sc['cls'], f'seeds {a} and {b}: equal output {np.array_equal(x, z)}')
        if sc['cls'] == 'UncorrelatedNoiseSource':
            for i in range(3):
                for j in range(i):
                    if np.array_equal(x[:, i], x[:, j]):
                        raise Violation('channels-not-independent', sc['cls'], f'channels {i} and {j} are equal')
        if sc['rms'] and sc['n'] >= 100 and sc['cls'] in ('WNoiseGenerator', 'PNoiseGenerator'):
            r = float(np.sqrt(np.mean(np.square(x))))
            if not 0.2 * sc['rms'] < r < 5 * sc['rms']:
                raise Violation('wrong-level', sc['cls'], f'rms {r}, set {sc["rms"]}')

    def run_interpreter(self, sc, run):
        """The same graphs in a fresh interpreter with another hash seed."""
        mine = [self.world(g, {}, run) for g in sc['graphs']]
        from dst import core

        env = dict(os.environ, PYTHONHASHSEED=str(sc['hashseed']), DST_REPO=core.REPO)
        for k in ('NUMBA_DISABLE_JIT', 'NUMBA_CACHE_DIR', 'NUMBA_NUM_THREADS'):
            env.pop(k, None)
        p = subprocess.run([sys.executable, '-B', os.path.abspath(__file__)], input=json.dumps(sc['graphs']), env=env, capture_output=True, text=True)
        line = [x for x in p.stdout.splitlines() if x.startswith('RESULTS ')]
        if not line:
            raise HarnessError('interpreter: ' + p.stdout[-500:] + p.stderr[-1500:])
        theirs = json.loads(line[0][8:])
        run.fault('other_interpreter')
        for g, a, b in zip(sc['graphs'], mine, theirs, strict=True):
            run.log(sorted(a.items()))
            for root in a:
                self.compare(run, g, root, a[root], b[root], f'interpreter with hash seed {sc["hashseed"]}')

    def shrink(self, sc):
        if sc['kind'] == 'interpreter':
            n = len(sc['graphs'])
            for a, b in ((0, n // 2), (n // 2, n)):
                if 0 < b - a < n:
                    yield dict(sc, graphs=sc['graphs'][a:b])
        if sc['kind'] == 'worlds':
            for i in range(len(sc['worlds'])):
                if len(sc['worlds']) > 1:
                    yield dict(sc, worlds=[sc['worlds'][i]])
                for k in sc['worlds'][i]:
                    if len(sc['worlds'][i]) > 1:
                        yield dict(sc, worlds=[{a: b for a, b in sc['worlds'][i].items() if a != k}])
            for r in sc['roots']:
                if len(sc['roots']) > 1:
                    yield dict(sc, roots=[r])
                    yield dict(sc, roots=[x for x in sc['roots'] if x != r])


def canon(v):
    if v is None or isinstance(v, (str, bool, int)):
        return repr(v)
    if isinstance(v, (list, tuple)):
        return '(' + ','.join(canon(x) for x in v) + ')'
    if isinstance(v, dict):
        return '{' + ','.join(f'{k}:{canon(v[k])}' for k in v) + '}'
    a = np.array(v, copy=True)
    if a.dtype.kind == 'f':
        a[np.isnan(a)] = np.nan
    if a.dtype == object:
        return repr(v)
    s = ''
    if a.dtype.kind in 'fc' and a.size:
        m = np.abs(a)
        m = m[np.isfinite(m)]
        s = f' max {m.max():.17g} sum {m.sum():.17g}' if m.size else ' nan'
    return f'{a.dtype}{a.shape} {hashlib.md5(np.ascontiguousarray(a).tobytes()).hexdigest()[:16]}{s}'


def look(W, root, num):
    o = W.objs[root]
    try:
        x = W.get(root)
        r, extra = c07.observe(o['kind'], o['cls'], x, num)
        out = {k: canon(v) for k, v in {**r, **extra}.items()}
        out['digest'] = x.digest
        return out
    except Exception as e:  # noqa: BLE001
        return {'error': type(e).__name__}


def evaluate(sc, w):
    global GARBAGE
    import acoular as ac

    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    ac.config.global_caching = 'none'
    num = sc['num']
    if w.get('poison'):
        GARBAGE = garbage(w['poison'])
    if w.get('rng'):
        np.random.seed(w['rng'])
        random.seed(w['rng'])
        np.random.standard_normal(w['rng'] % 7)
    keep = []
    if w.get('before'):
        V = c07.World(w['before']['objs'])
        for r in w['before']['roots']:
            look(V, r, 50)
        if w['before']['keep']:
            keep.append(V)
        del V
    if w.get('twin'):
        V = c07.World(sc['objs'])
        for r in sc['roots']:
            if (w['twin'] >> (hash_int(r) % 8)) & 1:
                look(V, r, num)
        keep.append(V)
    W = c07.World(sc['objs'])
    roots = list(sc['roots'])
    if w.get('order'):
        random.Random(w['order']).shuffle(roots)
    passes = []
    if w.get('partial'):
        for r in roots:
            try:
                x = W.get(r)
                if hasattr(x, 'result') and hasattr(x, 'num_channels'):
                    g = x.result(num)
                    for _ in range(w['partial'] % 3):
                        next(g, None)
                    passes.append(g)
            except Exception:  # noqa: BLE001
                pass
        if w['partial'] % 2:
            for g in passes:
                g.close()
            passes = []
    if w.get('othernum'):
        for r in roots:
            look(W, r, 16 + w['othernum'] % 90)
    out = {}

    def go():
        for r in roots:
            if w.get('gc'):
                gc.collect()
            out[r] = look(W, r, num)
            if w.get('rng'):
                np.random.standard_normal(3)

    if w.get('thread'):
        t = threading.Thread(target=go)
        t.start()
        t.join()
    else:
        go()
    if w.get('repeat'):
        for k in range(1 + w['repeat'] % 2):
            for r in roots:
                out[f'{r}/again{k}'] = look(W, r, num)
    return out


def hash_int(s):
    return int(hashlib.md5(s.encode()).hexdigest()[:6], 16)


def helper():
    import shutil
    import tempfile

    from dst.main import boot

    scratch = tempfile.mkdtemp(prefix='dst-C12h-')
    try:
        graphs = json.loads(sys.stdin.read())
        so = sys.stdout
        sys.stdout = sys.stderr
        prop = boot('C12', scratch)
        from dst import core

        run = core.Run()
        res = [prop.world(g, {}, run) for g in graphs]
        sys.stdout = so
        print('RESULTS ' + json.dumps(res), flush=True)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


PROPERTY = P()

if __name__ == '__main__':
    helper()
