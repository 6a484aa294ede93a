"""C16: a failing source or processing step is reported, leaves nothing partial and nothing open, and a retry works."""

import ast
import gc
import os
import sys
import threading
import warnings

import numpy as np

from dst import core, zoo
from dst.core import Property, Skip, Violation

TERMS = ['stream', 'stream', 'stream', 'stream', 'return', 'csm', 'ev', 'map', 'synth', 'h5', 'wav', 'twin', 'split', 'angle', 'genericsig', 'digest']
ERRS = ['io', 'mem', 'kbd', 'value', 'index', 'attr', 'key']
MARK = 'simulated fault'
_RANGES = {}


WORK = (ast.Call, ast.BinOp, ast.Subscript, ast.Yield, ast.YieldFrom, ast.AugAssign, ast.ListComp, ast.GeneratorExp, ast.Compare)


def failing_lines(filename):
    """Lines of statements that can fail (calls, arithmetic, indexing, pulls), without the code of finally / except / __exit__: a failure
    while cleaning up after a failure is out of scope."""
    if filename not in _RANGES:
        with open(filename) as f:
            tree = ast.parse(f.read())
        work = set()
        for n in ast.walk(tree):
            if isinstance(n, ast.For):
                work.add(n.lineno)
            elif isinstance(n, ast.If | ast.While):
                if any(isinstance(m, WORK) for m in ast.walk(n.test)):
                    work.add(n.lineno)
            elif isinstance(n, ast.Assign | ast.AugAssign | ast.Expr | ast.Return | ast.AnnAssign):
                if any(isinstance(m, WORK) for m in ast.walk(n)):
                    work.update(range(n.lineno, n.end_lineno + 1))
        out = set()
        for n in ast.walk(tree):
            bodies = []
            if isinstance(n, ast.Try):
                bodies = [n.finalbody] + [h.body for h in n.handlers]
            elif isinstance(n, ast.FunctionDef) and n.name in ('__exit__', '__del__', 'close', '_close'):
                bodies = [n.body]
            for b in bodies:
                for st in b:
                    out.update(range(st.lineno, (st.end_lineno or st.lineno) + 1))
        _RANGES[filename] = work - out
    return _RANGES[filename]


def error(kind):
    from dst.lib import SimIOError

    return {'io': SimIOError, 'mem': MemoryError, 'kbd': KeyboardInterrupt, 'value': ValueError, 'index': IndexError, 'attr': AttributeError,
            'key': KeyError}[kind](MARK)


class Fault:
    """Raises an exception at the n-th executed line of the library outside of cleanup code; n = 0 only counts."""

    SKIP = ('h5cache.py', 'h5files.py', 'configuration.py', 'deprecation.py')

    def __init__(self, n, kind):
        self.n, self.kind, self.seen, self.where = n, kind, 0, None
        self.root = os.path.join(core.REPO, 'acoular') + os.sep

    def local(self, frame, event, arg):
        if event == 'line' and self.where is None and frame.f_lineno in failing_lines(frame.f_code.co_filename):
            self.seen += 1
            if 0 < self.n <= self.seen and not self.designed(frame):
                self.where = f'{os.path.basename(frame.f_code.co_filename)}:{frame.f_code.co_name}'
                sys.settrace(None)
                raise error(self.kind)
        return self.local

    def designed(self, frame):
        """Places where this kind of exception has another meaning, or where traits takes it."""
        if self.kind == 'index' and os.path.basename(frame.f_code.co_filename) == 'sources.py':
            return True  # end of the signal
        while frame is not None:
            if frame.f_code.co_filename.endswith('trait_notifiers.py'):
                return True  # (logged by traits)
            if self.kind in ('attr', 'index', 'value', 'key') and frame.f_code.co_name == 'digest' and frame.f_code.co_filename.startswith(self.root):
                return True  # something is not set yet
            frame = frame.f_back
        return False

    def glob(self, frame, event, arg):
        f = frame.f_code.co_filename
        if self.where is not None or not f.startswith(self.root) or os.path.basename(f) in self.SKIP:
            return None
        if frame.f_code.co_name in ('__exit__', '__del__', 'close', '<module>'):
            return None
        return self.local

    def __enter__(self):
        sys.settrace(self.glob)
        return self

    def __exit__(self, *a):
        sys.settrace(None)


def names_fault(e, seen=None):
    """Is the injected error what the user sees (itself or as documented cause)?"""
    seen = seen or set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        if MARK in str(e):
            return True
        if e.__context__ is not None and names_fault(e.__context__, seen):
            return True
        e = e.__cause__
    return False


class P(Property):
    id = 'C16'
    technique = 'deterministic simulation: exceptions injected at seeded blocks of sources and at seeded executed lines of the library, then retried'
    rule = (
        'One evaluation = one processing graph (random graph of 1-4 blocks of all kinds over scripted, in-memory, file and simulated '
        'sources) and one kind of request (stream, return_result, cross spectra, eigenvalues, maps, synthetic, HDF5 or WAV export, two '
        'interleaved passes, splitter consumers, angle tracker, recorded signal of a source), in caching modes none and individual. The request '
        '(every third evaluation puts one block after the other on a failing source, with one kind of error after the other) '
        'is made 1-4 times with faults: a source raises at a drawn block (also at the end or in the second pass) or a drawn executed line of the library '
        'raises one of 7 kinds of exceptions; then again without a fault, on the same and on fresh equal objects. A fault that '
        'happened must reach the caller, blocks delivered before are a prefix of the reference, a request without '
        'error delivers the complete reference, sources stay unmodified, and at the end no generator, file or thread is left '
        'open. Non-trivial: a fault happened and a retry was compared. Distinct: by event-log digest.'
    )
    distinct_measure = 'digest of graph, request, fault points and outcomes'
    assumptions = (
        'Faults hit statements of the library, not the code that cleans up after a fault (finally/except blocks), and not the '
        'storage layer (C05, C06, C08, C09 inject faults there).',
        'Block size dependent estimates are compared at the same block size.',
    )
    components = {'real': ['all processing blocks of the zoo', 'PowerSpectra, beamformers, caches, writers, Trigger, AngleTracker', 'HDF5 and WAV files'],
                  'stub': ['numba kernels run as Python code', 'scripted sources', 'exceptions raised at executed lines']}
    quick_runs = 2400
    quick_budget = 100
    thorough_runs = 200000
    batch = 4

    # -- scenarios ------------------------------------------------------------------------------------
    def directed(self, rng, i):
        """Every block in turn on top of a failing source, with every kind of error in turn."""
        names = [b for b in zoo.BLOCKS if b != 'Beamformer'] + [
            'BeamformerTime', 'BeamformerTimeSq', 'BeamformerTimeTraj', 'BeamformerTimeSqTraj', 'BeamformerCleant', 'BeamformerCleantTraj',
            'BeamformerCleantSq', 'BeamformerCleantSqTraj']
        name = names[i % len(names)]
        err = ERRS[i // len(names) % len(ERRS)]
        n, ch = rng.choice([100, 150, 230]), 4
        spec = zoo.gen_leaf(rng, n, ch, ['sim'])
        cls, name = (name, 'Beamformer') if name.startswith('Beamformer') else (None, name)
        chain = {'bf': ['Beamformer'], 'fft': ['RFFT'], zoo.FD: ['RFFT'], 'anyfreq': ['RFFT']}.get(zoo.BLOCKS[name][3], [])
        for b in [*chain, name]:
            m, c = zoo.shape_of(spec)
            srcs = [spec] + [zoo.gen_leaf(rng, m, c, ['sim']) for _ in range(zoo.BLOCKS[b][2] - 1)]
            spec = dict(t=b, p=zoo.BLOCKS[b][0](rng, m, c), s=srcs)
        if cls:
            spec['p']['cls'] = cls
        tries = [['src', round(rng.random(), 6), err, rng.randrange(3)] for _ in range(rng.choice([1, 2]))]
        return dict(term=rng.choice(['stream', 'stream', 'return']), spec=spec, num=rng.choice([7, 16, 33]), cache='none', par=1, tries=tries)

    def scenario(self, rng, i, tier):
        if i % 3 == 1:
            return self.directed(rng, i // 3)
        term = TERMS[i % len(TERMS)]
        n = rng.choice([1, 7, 20, 60, 100, 150])
        ch = rng.choice([1, 2, 3, 4])
        depth = rng.choice([0, 1, 1, 2, 3])
        kinds = ['sim'] * 8 + ['timesamples', 'masked', 'h5', 'point']
        if term in ('csm', 'ev', 'map', 'synth'):
            n, ch = rng.choice([140, 200, 300]), max(ch, 3)
        ex = ('FiltFiltOctave',) if n < 60 else ()
        if term not in ('stream', 'return'):
            ex += ('RFFT', 'Beamformer', 'Sector', 'Average')
        if term == 'twin':  # the passes share these objects' file, buffer or cache entry
            ex += ('Splitter', 'SamplesBuffer', 'Cache', 'WriteH5')
        spec = zoo.gen_graph(rng, depth, n, ch, kinds, exclude=ex)
        sc = dict(term=term, spec=spec, num=rng.choice([1, 3, 7, 8, 16, 33, n, n + 9]), cache=rng.choice(['none', 'none', 'individual']),
                  par=rng.randrange(1 << 20), tries=[])
        for _ in range(rng.choice([1, 1, 2, 3])):
            k = rng.choice(['src', 'src', 'src', 'line', 'line', 'close', 'ok'])
            if term == 'digest':
                k = 'line'
            sc['tries'].append([k, round(rng.random(), 6), rng.choice(ERRS), rng.randrange(3)])
        return sc

    def shrink(self, sc):
        yield from core.generic_shrink(sc, ('tries',))
        if sc['cache'] != 'none':
            yield dict(sc, cache='none')
        if sc['spec']['s']:
            for s in sc['spec']['s']:
                yield dict(sc, spec=s)
        if sc['term'] != 'stream':
            yield dict(sc, term='stream')
        for j, t in enumerate(sc['tries']):
            if t[2] != 'io':
                yield dict(sc, tries=sc['tries'][:j] + [[t[0], t[1], 'io', t[3]]] + sc['tries'][j + 1 :])

    def nontrivial(self, sc, rec):
        return rec['probes'].get('fault_reported', 0) > 0 and rec['probes'].get('retries_compared', 0) > 0

    # -- workload -------------------------------------------------------------------------------------
    def build(self, sc):
        import acoular as ac

        from dst import lib

        env = zoo.Env(max(sc['num'], 4096))  # (exports and spectra pull with other block sizes)
        g = zoo.build(sc['spec'], env)
        w = dict(env=env, graph=g)
        t = sc['term']
        par = sc['par']
        if t in ('csm', 'ev', 'map', 'synth'):
            if g.num_channels < 2 or g.num_samples < 128:
                raise Skip
            if type(g).__name__ == 'TimeCumAverage' and not hasattr(g, 'sample_freq'):
                raise Skip
            ps = ac.PowerSpectra(source=g, block_size=128, window=['Rectangular', 'Hanning'][par % 2], overlap=['None', '50%'][par // 2 % 2])
            w['ps'] = ps
            if t in ('map', 'synth'):
                cls = ['BeamformerBase', 'BeamformerEig', 'BeamformerCapon', 'BeamformerCleansc', 'BeamformerClean', 'BeamformerDamas'][par % 6]
                if cls == 'BeamformerCapon' and sc['spec']['t'] in ('Interp', 'InterpRot', 'OctaveFilterBank'):
                    cls = 'BeamformerBase'
                grid = ac.RectGrid(x_min=-0.2, x_max=0.2, y_min=-0.1, y_max=0.1, z=0.4, increment=0.2)
                st = ac.SteeringVector(grid=grid, mics=zoo._mics(g.num_channels, 3))
                w['bf'] = getattr(ac, cls)(freq_data=ps, steer=st, **{'BeamformerEig': dict(n=1), 'BeamformerCleansc': dict(n_iter=2),
                                                                     'BeamformerClean': dict(n_iter=2), 'BeamformerDamas': dict(n_iter=2)}.get(cls, {}))
        elif t == 'h5':
            w['file'] = os.path.join(os.getcwd(), f'out{self.nfile}.h5')
            w['writer'] = ac.WriteH5(source=g, file=w['file'], precision='float64')
        elif t == 'wav':
            w['file'] = os.path.join(os.getcwd(), f'out{self.nfile}.wav')
            w['writer'] = ac.WriteWAV(source=g, file=w['file'], channels=[0])
        elif t == 'split':
            sp = ac.SampleSplitter(source=g)
            w['cons'] = [lib.Consumer(source=sp, name=f'c{j}') for j in range(2)]
            for c in w['cons']:
                sp.register_object(c, buffer_size=1000)
        elif t == 'angle':
            n = 120
            peaks = np.zeros((n, 1))
            peaks[3 :: 9 + par % 3] = 1.0
            s = lib.make_source(peaks, zoo.FS, tag='peaks')
            env.append(s)
            trig = ac.Trigger(source=s, threshold=0.5, trigger_type='dirac')
            tach = ac.TimeSamples(data=np.zeros((n, 1)), sample_freq=zoo.FS)
            w['at'] = ac.AngleTracker(source=tach, trigger=trig)
        elif t == 'genericsig':
            if g.num_channels != 1:
                g = w['graph'] = ac.ChannelMixer(source=g)
            sig = ac.GenericSignalGenerator(source=g, num_samples=50 + par % 100, loop_signal=bool(par % 2))
            w['pt'] = ac.PointSource(signal=sig, mics=zoo._mics(2, 3), loc=(0.1, 0.05, 0.6))
        self.nfile += 1
        return w

    def request(self, sc, w, got, stop=None):
        """Make the request; blocks are collected in ``got`` as they arrive."""
        import acoular as ac

        t, num = sc['term'], sc['num']
        g = w['graph']
        par = sc['par']
        if t == 'stream':
            for b in g.result(num):
                got.append(np.array(b, copy=True))
                if stop is not None and len(got) > stop:
                    return None
            return got
        if t == 'return':
            k = par % 3
            return [ac.tools.return_result(g, num=num, **({'nmax': max(1, g.num_samples - 2)} if k == 0 and sc['spec']['t'] in zoo.LEAVES else {}))]
        if t == 'csm':
            return [np.array(w['ps'].csm)]
        if t == 'ev':
            return [np.array(w['ps'].eva), np.abs(np.array(w['ps'].eve))]
        if t == 'map':
            r = w['bf'].result
            return [np.array(r[1]), np.array(r[2:5])]
        if t == 'synth':
            return [w['bf'].synthetic(zoo.FS / 128 * (1 + par % 50), par % 2)]
        if t == 'h5':
            if par % 2:
                w['writer'].save()
            else:
                for b in w['writer'].result(num):
                    got.append(np.array(b, copy=True))
                    if stop is not None and len(got) > stop:
                        return None
            import h5py

            with h5py.File(w['file'], 'r') as f:
                return [f['time_data'][()]]
        if t == 'wav':
            w['writer'].save()
            with open(w['file'], 'rb') as f:
                return [np.frombuffer(f.read(), dtype=np.uint8).astype(float)]
        if t == 'twin':
            gens = [g.result(num), g.result(num)]
            out = [[], []]
            live = [0, 1]
            k = 0
            first = None
            while live:
                j = live[(par >> (k % 16)) % len(live)]
                k += 1
                try:
                    out[j].append(np.array(next(gens[j]), copy=True))
                except StopIteration:
                    live.remove(j)
                except core.Hang:
                    raise
                except BaseException as e:  # noqa: BLE001
                    live.remove(j)
                    if not names_fault(e):
                        raise
                    first = e
                    out[j] = None
                    if not sc.get('_twin_ok', True) and live:
                        raise
            if first is not None:
                w['twin'] = [o for o in out if o is not None]
                raise first
            return out[0] + out[1]
        if t == 'split':
            gens = [c.result(num) for c in w['cons']]
            out = [[], []]
            errs = [None, None]
            live = [0, 1]
            k = 0
            while live:
                j = live[(par >> (k % 16)) % len(live)]
                k += 1
                try:
                    out[j].append(np.array(next(gens[j]), copy=True))
                except StopIteration:
                    live.remove(j)
                    errs[j] = 'end'
                except core.Hang:
                    raise
                except BaseException as e:  # noqa: BLE001
                    live.remove(j)
                    errs[j] = e.with_traceback(None)  # (a caller that drops the error drops the failed pass)
            bad = [e for e in errs if e != 'end']
            if len(bad) == 1:  # an object that starts after the others failed reads the source again
                w['twin'] = [o for o, e in zip(out, errs) if e == 'end']
                w['how'] = f'{errs} {[len(o) for o in out]}'
            if bad:
                first = bad[0]
                errs = bad = e = None  # (no reference cycle that keeps the failed pass alive)
                try:
                    raise first
                finally:
                    first = None
            return out[0] + out[1]
        if t == 'angle':
            at = w['at']
            return [np.array(at.angle), np.array(at.rpm), np.array([at.average_rpm])]
        if t == 'genericsig':
            return [w['pt'].signal.signal()] + [np.array(b, copy=True) for b in w['pt'].result(num)]
        if t == 'digest':
            return [np.frombuffer(str(g.digest).encode(), dtype=np.uint8).astype(float)]
        raise core.HarnessError(t)

    # -- execution ------------------------------------------------------------------------------------
    def execute(self, sc, run):
        import acoular as ac

        warnings.simplefilter('ignore')
        np.seterr(all='ignore')
        ac.config.global_caching = 'none'
        self.nfile = 0
        where = f"{sc['term']}:{'>'.join(reversed(zoo.types(sc['spec'])))}"[:90]
        w = self.build(sc)
        try:
            ref = self.request(sc, w, [])
        except Skip:
            raise
        except Exception as e:  # noqa: BLE001
            run.probe('not_computable')
            run.log('unusable', type(e).__name__)
            raise Skip from e
        ref = [np.array(r, copy=True) for r in ref]
        blocks = [s.delivered for s in w['env'] if hasattr(s, 'delivered')]
        npass = [s.passes for s in w['env'] if hasattr(s, 'delivered')]
        del w
        w = self.build(sc)
        cnt = Fault(0, 'io')
        with cnt:
            self.request(sc, w, [])
        lines = cnt.seen
        del w
        ac.config.global_caching = sc['cache']
        w = self.build(sc)
        sims = [s for s in w['env'] if hasattr(s, 'delivered')]
        splitter = 'Splitter' in zoo.types(sc['spec']) or sc['term'] == 'split'  # keeps a pass until it is restarted or dropped
        originals = [np.array(s.data, copy=True) for s in sims]
        happened = False
        for k, (kind, frac, err, which) in enumerate(sc['tries'] + [['ok', 0, '', 0], ['fresh', 0, '', 0]]):
            run.steps += 1
            det = f'try {k} of {[t[0] for t in sc["tries"]]} ({kind})'
            got = []
            fault = None
            w.pop('twin', None)
            w['line'] = kind == 'line'
            if kind == 'fresh':
                w = self.build(sc)
                sims = [s for s in w['env'] if hasattr(s, 'delivered')]
            for s in sims:
                s.hook = None
                s.chan_override = None
            if kind == 'src' and sims and any(npass):
                j = which % len(sims)
                p = which // 2 % max(npass[j], 1)
                nb = blocks[j] // max(npass[j], 1)
                self.arm(sims[j], int(frac * (nb + 1)), p, err)
            elif kind == 'src':
                kind = 'line'
                w['line'] = True
            out = exc = None
            hit = False
            try:
                if kind == 'line':
                    fault = Fault(1 + int(frac * lines), err)
                    with fault:
                        out = self.request(sc, w, got)
                else:
                    out = self.request(sc, w, got, stop=which if kind == 'close' else None)
            except Violation:
                raise
            except BaseException as e:  # noqa: BLE001
                if isinstance(e, core.Hang):
                    raise
                exc = e
            hit = any(s.chan_override == 'raised' for s in sims) or (fault is not None and fault.where is not None)
            origin = fault.where if fault is not None else 'source'
            run.log('try', k, kind, hit, type(exc).__name__, origin, [g for g in got])
            if hit:
                run.fault(f'{kind}:{err}')
                run.state(sc['term'], origin, err)
                happened = True
            if exc is not None:
                if not hit:
                    if happened:
                        raise Violation('retry-fails', where, f'{det}: {type(exc).__name__}: {exc}') from exc
                    raise exc
                if not names_fault(exc):
                    raise Violation('error-replaced', where, f'{det}: {err} at {origin} became {type(exc).__name__}: {exc}') from exc
                run.probe('fault_reported')
            elif hit:
                if out is None or not self.equal(out, ref):
                    raise Violation('error-swallowed', where, f'{det}: {err} at {origin}: no error, and the result is wrong or missing')
                run.probe('fault_without_effect')
                if kind == 'src' or err in ('kbd', 'mem', 'io'):
                    raise Violation('error-swallowed', where, f'{det}: {err} at {origin}: nobody was told')
            elif out is not None:
                if not self.equal(out, ref):
                    raise Violation('wrong-after-error' if happened else 'wrong-result', where, f'{det}: {self.why(out, ref)}')
                if happened:
                    run.probe('retries_compared')
            for b, r in zip(got, ref if sc['term'] == 'stream' else []):
                if not self.near(b, r):
                    raise Violation('wrong-before-error', where, f'{det}: delivered block differs from the reference')
            if 'twin' in w:
                for o in w['twin']:
                    if not self.equal(o + o, ref):
                        raise Violation('other-pass-disturbed', where, det + w.get('how', ''))
                    run.probe('other_pass_complete')
            if sc['term'] in ('h5', 'wav') and hit:
                self.partial_file(sc, w, ref, where, det)
            for s, o in zip(sims, originals):
                if not np.array_equal(s.data, o):
                    raise Violation('source-modified', where, det)
            exc = fault = got = out = None
            gc.collect()
            for s in sims:
                if s.opened != s.closed and not splitter:
                    raise Violation('source-left-open', where, f'{det}: {s.opened} passes opened, {s.closed} closed')
        w = None
        gc.collect()
        if any(s.opened != s.closed for s in sims):
            raise Violation('source-left-open', where, 'after everything was dropped')
        sims = s = None
        gc.collect()
        ac.h5cache.H5cache.close_unreferenced_cachefiles()  # (as the next access to a cache file does)
        left = self.open_files()
        if left:
            raise Violation('file-left-open', where, str(left))
        if threading.active_count() > 1:
            raise Violation('thread-left', where, str(threading.enumerate()))
        run.simtime += 0.1 * len(sc['tries'])

    def arm(self, src, block, p, err):
        """The source fails once."""

        first = src.passes + p

        def hook(q, k):
            if q == first and k == block:
                src.chan_override = 'raised'
                src.hook = None
                raise error(err)

        src.hook = hook

    def partial_file(self, sc, w, ref, where, det):
        """What a stopped export leaves on disk is readable."""
        f = w['file']
        if not os.path.exists(f):
            return
        if sc['term'] == 'h5':
            import h5py

            try:
                with h5py.File(f, 'r') as h:
                    d = h['time_data'][()] if 'time_data' in h else np.zeros((0, ref[0].shape[1]))
            except OSError as e:
                raise Violation('unreadable-export', where, f'{det}: {e}') from e
            if not self.near(d, ref[0][: len(d)]):
                raise Violation('wrong-export', where, det)

    def near(self, a, b):
        from dst import lib

        return lib.close(a, b, 1e-9)

    def equal(self, a, b):
        return len(a) == len(b) and all(self.near(x, y) for x, y in zip(a, b))

    def why(self, a, b):
        from dst import lib

        if len(a) != len(b):
            return f'{len(a)} parts instead of {len(b)}'
        return [lib.diff(x, y) for x, y in zip(a, b) if not self.near(x, y)][:2]

    def open_files(self):
        out = []
        root = os.getcwd()
        for fd in os.listdir('/proc/self/fd'):
            try:
                t = os.readlink(f'/proc/self/fd/{fd}')
            except OSError:
                continue
            if t.startswith(root) and '/rec' not in t:  # (recordings stay open as long as PyTables likes)
                out.append(os.path.basename(t))
        return out


PROPERTY = P()
