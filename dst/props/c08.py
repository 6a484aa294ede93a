"""C08: cache files are shared by all objects that use them, stay open while used and are closed afterwards."""

import gc
import os
import warnings
import weakref

import numpy as np

from dst.core import Property, Violation, generic_shrink
from dst.props.c03 import gen_sched
from dst.props.c05 import tagged_source

KINDS = ['cache', 'cache', 'cache', 'ps', 'ps', 'bf', 'psf']


class Files:
    """Every cache file handle the library opened, and the failures of the file system on opening."""

    def __init__(self):
        import acoular.h5files as h5

        self.handles = []
        self.opened = 0
        self.fail_next = False
        self.failed = 0
        self.closing = 0
        for name in ('H5CacheFileTables', 'H5CacheFileH5py'):
            c = getattr(h5, name)
            self.wrap(c)

    def wrap(self, c):
        init = c.__init__
        files = self

        def __init__(obj, filename, *a, **k):
            if files.fail_next:
                files.fail_next = False
                files.failed += 1
                raise OSError(24, 'simulated: too many open files')
            init(obj, filename, *a, **k)
            files.opened += 1
            files.handles.append((os.path.realpath(str(filename)), weakref.ref(obj)))

        c.__init__ = __init__

    def open(self):
        out = []
        for n, r in self.handles:
            f = r()
            if f is not None and is_open(f):
                out.append((n, f))
        return out


def is_open(f):
    return bool(f.isopen) if hasattr(f, 'isopen') else bool(f)


class P(Property):
    id = 'C08'
    technique = 'deterministic simulation: seeded object life cycles, thread schedules and file faults against a handle model'
    rule = (
        'One evaluation = one process with 2-4 simulated cache entries (time data, cross spectra, maps, point spread '
        'functions) on 1-3 cache files in 1-2 directories, and 5-20 operations: create, use, partial pass kept open, drop '
        '(also in reference cycles, also while a pass is open), garbage collection, explicit release, change of caching '
        'mode, HDF5 library and directory (also the same one by another path), failing open. Half of the runs use 2-3 simulated threads (preemption at every '
        'bytecode of the library). After every operation: one handle per file at most, the files of all living objects '
        'open and its directory listed, results exact, stored data not computed again, no file open that nobody uses once a handle was acquired or '
        'released. Non-trivial: two objects shared one file or a file was closed while another stayed in use. Distinct: '
        'by event-log digest.'
    )
    distinct_measure = 'digest of the operations, handles opened and closed, and results'
    assumptions = (
        'Objects that still use files are dropped by the user when the mode changes from or to readonly or overwrite.',
        'Cross spectra and maps that were read before the cache directory changes are not used afterwards.',
        'A cached cross spectral matrix is usable while the object that returned it lives.',
        'Files with compressed nodes (spectra, maps) are read with the HDF5 library that wrote them.',
    )
    components = {
        'real': ['acoular.h5cache.HDF5Cache, h5files, Cache, PowerSpectra, BeamformerBase, PointSpreadFunction',
                 'PyTables, h5py, the file system, the garbage collector'],
        'stub': ['scripted source', 'failing open of the HDF5 file classes', 'thread scheduler and threading locks'],
    }
    quick_runs = 2000
    quick_budget = 55
    thorough_runs = 100000
    batch = 1
    library_locks = True

    def scenario(self, rng, i, tier):
        nspec = rng.choice([1, 2, 2, 3, 4])
        specs = [dict(kind=rng.choice(KINDS), seed=rng.randrange(1 << 20), n=rng.choice([16, 33, 64]) + 128,
                      base=rng.choice(['a', 'a', 'b', 'c'])) for _ in range(nspec)]
        sc = dict(specs=specs, lib=rng.choice(['pytables', 'h5py']), mode=rng.choice(['individual', 'individual', 'all']))
        if rng.random() < 0.4:
            nt = rng.choice([2, 2, 3])
            sc['threads'] = [self.ops(rng, nspec, specs, rng.randint(1, 5), t * 4, True) for t in range(nt)]
            sc['sched'] = gen_sched(rng, nt, 3000)
            sc['gran'] = rng.choice(['opcode', 'line'])
            sc['switches'] = None
            sc['gcs'] = sorted(rng.randrange(1, 4000) for _ in range(rng.choice([0, 1, 3, 10])))
            sc['ops'] = []
        else:
            sc['ops'] = self.ops(rng, nspec, specs, rng.randint(4, 16), 0, False)
        return sc

    def ops(self, rng, nspec, specs, n, off, threads):
        out = []
        slots = {}
        for _ in range(n):
            k = rng.choice(['new', 'use', 'use', 'use', 'drop', 'start', 'pull', 'gc', 'closeunref', 'mode', 'lib', 'dir',
                            'openfail'])
            if k == 'lib' and any(x['kind'] != 'cache' for x in specs):
                k = 'gc'
            if threads and k in ('mode', 'lib', 'dir', 'closeunref'):
                k = 'use'
            if k in ('use', 'drop', 'start', 'pull') and (not slots or rng.random() < 0.3):
                k = 'new'
            if k == 'new':
                s = off + rng.randrange(4)
                slots[s] = rng.randrange(nspec)
                out.append(['new', s, slots[s]])
                out.append(['use', s, rng.choice([7, 20, 50])])
            elif k == 'use':
                out.append([k, rng.choice(sorted(slots)), rng.choice([7, 20, 50])])
            elif k == 'drop':
                s = rng.choice(sorted(slots))
                del slots[s]
                out.append([k, s, rng.random() < 0.4, rng.random() < 0.5])
            elif k in ('start', 'pull'):
                c = [s for s in sorted(slots) if specs[slots[s]]['kind'] == 'cache']
                if c:
                    out.append([k, rng.choice(c), rng.choice([5, 16, 40])])
            elif k == 'mode':
                out.append([k, rng.choice(['none', 'individual', 'individual', 'all', 'readonly'])])
            elif k == 'lib':
                out.append([k, rng.choice(['pytables', 'h5py'])])
            elif k == 'dir':
                out.append([k, rng.choice(['cache', 'cache2', 'link', 'cache2/../cache', './cache2'])])
            else:
                out.append([k])
        return out

    def nontrivial(self, sc, rec):
        return rec['probes'].get('shared', 0) + rec['probes'].get('closed_one_kept_other', 0) > 0

    # -- objects ------------------------------------------------------------------------------------------------
    def make(self, s):
        import acoular as ac

        from dst import lib

        ch = 3
        src = tagged_source()(data=lib.noise(s['seed'], s['n'], ch), sample_freq=1000.0, tag=f"c8{s['seed']}{s['n']}",
                              basename=s['base'])
        src.num_samples, src.num_channels = s['n'], ch
        if s['kind'] == 'cache':
            o = ac.Cache(source=src)
        elif s['kind'] == 'ps':
            o = ac.PowerSpectra(source=src, block_size=128)
        elif s['kind'] == 'bf':
            ps = ac.PowerSpectra(source=src, block_size=128)
            o = ac.BeamformerBase(freq_data=ps, steer=self.steer(s))
        else:
            o = ac.PointSpreadFunction(steer=self.steer(s), freq=500.0)
        return o, src

    def steer(self, s):
        import acoular as ac

        r = np.random.Generator(np.random.PCG64(s['seed'] % 2))
        return ac.SteeringVector(grid=ac.RectGrid(x_min=-0.2, x_max=0.2, y_min=0, y_max=0.2, z=0.5, increment=0.2),
                                 mics=ac.MicGeom(pos_total=r.uniform(-0.3, 0.3, (3, 3))))

    def read(self, kind, o, num):
        from dst import lib

        if kind == 'cache':
            return lib.cat(lib.collect(o.result(num)), 3)
        if kind == 'ps':
            return np.array(o.csm[:])
        if kind == 'bf':
            return np.array([o.result[f] for f in (1 + num % 4, 5)])
        o.grid_indices = np.array([num % 6])
        return np.array(o.psf[:])

    # -- execution ------------------------------------------------------------------------------------------------
    def execute(self, sc, run):
        import acoular as ac

        from dst import sched

        warnings.simplefilter('ignore')
        os.makedirs('cache2')
        os.symlink('cache', 'link')
        gc.collect()
        gc.disable()  # when garbage is collected is decided by the scenario
        ac.config.h5library = sc['lib']
        self.refs = {}
        w = World(self, sc, run, Files())
        ac.config.global_caching = sc['mode']
        if 'threads' not in sc:
            for k, op in enumerate(sc['ops']):
                run.steps += 1
                w.do(op, k)
                w.check(op, k)
        else:
            cfg = dict(sc['sched'])
            if sc['switches'] is not None:
                cfg['switches'] = sc['switches']
            for s in range(len(sc['specs'])):
                for num in (5, 7, 20, 50):
                    w.ref(s, num)
            ac.config.global_caching = sc['mode']
            sim = sched.Sim(run, cfg, sc['gran'])
            w.sim = sim
            gcs = set(sc['gcs'])
            point = sim.point

            def gc_point(kind='p'):
                point(kind)
                if sim.step in gcs and sim.active and not sim.aborting:
                    gcs.discard(sim.step)
                    run.fault('gc')
                    gc.collect()

            sim.point = gc_point
            for t, ops in enumerate(sc['threads']):
                sim.spawn(f't{t}', lambda t=t, ops=ops: self.thread(w, t, ops))
            try:
                sim.go()
            finally:
                run.resolved = dict(sc, switches=list(sim.taken))
                run.probe('switches', len(sim.taken))
            for t in sim.threads:
                if t.error is not None:
                    raise t.error
            w.sim = None
            w.check(['end'], -1)
        # faults have stopped: everybody still works, then everything is released
        w.files.fail_next = False
        for s in sorted(w.objs):
            w.do(['use', s, 7], 'final')
            w.check(['use', s, 7], 'final')
        w.objs.clear()
        w.gens.clear()
        w.do(['closeunref'], 'final')
        w.check(['closeunref'], 'final')
        run.simtime += 0.1
        run.log('opened', w.files.opened)

    def thread(self, w, t, ops):
        for k, op in enumerate(ops):
            w.do(op, f'{t}.{k}')
            if w.sim is not None:
                w.sim.point('op')

    def shrink(self, sc):
        if 'threads' in sc:
            for t in range(len(sc['threads'])):
                if len(sc['threads']) > 1:
                    yield dict(sc, threads=sc['threads'][:t] + sc['threads'][t + 1 :], switches=None)
                for k in range(len(sc['threads'][t])):
                    new = [list(x) for x in sc['threads']]
                    del new[t][k]
                    yield dict(sc, threads=new)
            if sc.get('switches'):
                yield from generic_shrink(sc, ['switches'])
        else:
            yield from generic_shrink(sc, ['ops'])
        for j, s in enumerate(sc['specs']):
            for k, v in (('n', 144), ('kind', 'cache'), ('base', 'a')):
                if s[k] != v:
                    yield dict(sc, specs=sc['specs'][:j] + [dict(s, **{k: v})] + sc['specs'][j + 1 :])


class World:
    def __init__(self, prop, sc, run, files):
        from acoular.h5cache import H5cache

        self.prop, self.sc, self.run, self.files, self.H5cache = prop, sc, run, files, H5cache
        self.objs = {}  # slot -> (spec, object, source)
        self.gens = {}  # slot -> [spec, generator, position]
        self.complete = set()
        self.refcache = {}
        self.sim = None
        self.acquired = False
        self.stale = set()  # objects whose results were read before the directory changed

    def ref(self, s, num):
        import acoular as ac

        spec = self.sc['specs'][s]
        key = (s, num if spec['kind'] in ('bf', 'psf') else 0)
        if key not in self.refcache:
            mode = ac.config.global_caching
            ac.config.global_caching = 'none'
            o, _ = self.prop.make(spec)
            self.refcache[key] = self.prop.read(spec['kind'], o, num)
            ac.config.global_caching = mode
        return self.refcache[key]

    def do(self, op, k):
        import acoular as ac
        from acoular.h5cache import H5cache

        run = self.run
        kind = op[0]
        if kind in ('use', 'start', 'drop') and op[1] not in self.objs:
            return
        run.log(k, *op)
        run.fault(kind) if kind in ('openfail', 'drop', 'gc') else None
        before = {n for n, _ in self.files.open()}
        if kind == 'new':
            spec = self.sc['specs'][op[2]]
            self.objs[op[1]] = (op[2], *self.prop.make(spec))
            self.stale.discard(op[1])
        elif kind == 'use':
            self.use(op, k)
        elif kind == 'start':
            s, o, src = self.objs[op[1]]
            try:
                self.gens[op[1]] = [s, o.result(op[2]), 0, op[2]]
                self.pull(op[1], 1, k)
            except OSError as e:
                self.gens.pop(op[1], None)
                self.injected(e, k)
        elif kind == 'pull':
            if op[1] in self.gens:
                try:
                    self.pull(op[1], op[2], k)
                except OSError as e:
                    self.gens.pop(op[1], None)
                    self.injected(e, k)
        elif kind == 'drop':
            s, o, src = self.objs.pop(op[1])
            if op[3]:
                self.gens.pop(op[1], None)
            if op[2]:  # garbage that only the cycle collector finds
                class Node:
                    pass

                c = Node()
                c.me, c.obj = c, o
            del o, src
        elif kind == 'gc':
            gc.collect()
        elif kind == 'closeunref':
            H5cache.close_unreferenced_cachefiles()
        elif kind == 'openfail':
            self.files.fail_next = True
        elif kind == 'mode':
            if op[1] != ac.config.global_caching and 'readonly' in (op[1], ac.config.global_caching):
                self.objs.clear()
                self.gens.clear()
                gc.collect()
            ac.config.global_caching = op[1]
        elif kind == 'lib':
            ac.config.h5library = op[1]
        elif kind == 'dir':
            d = op[1] if op[1][0] == '.' else os.path.join(os.getcwd(), op[1])
            if os.path.realpath(d) != os.path.realpath(ac.config.cache_dir):
                self.stale |= {s for s, (j, _, _) in self.objs.items() if self.sc['specs'][j]['kind'] != 'cache'}
                for s in self.stale:
                    self.objs.pop(s, None)
                self.stale.clear()
            ac.config.cache_dir = d
        after = {n for n, _ in self.files.open()}
        if before - after:
            run.log('closed', len(before - after))
            if after:
                run.probe('closed_one_kept_other')

    def injected(self, e, k):
        if 'simulated' not in str(e):
            raise e
        self.run.probe('error_reported')
        self.run.log('err', k)

    def caching(self):
        import acoular as ac

        return ac.config.global_caching in ('individual', 'all')

    def key(self, s):
        import acoular as ac

        sp = self.sc['specs'][s]
        return (sp['kind'], sp['seed'], sp['n'], sp['base'], os.path.realpath(ac.config.cache_dir), ac.config.h5library)

    def use(self, op, k):
        from dst import lib

        s, o, src = self.objs[op[1]]
        spec = self.sc['specs'][s]
        exp = self.ref(s, op[2])
        d0 = src.delivered
        h0 = o.h5f
        key = self.key(s)
        known = key in self.complete and self.caching()
        try:
            val = self.prop.read(spec['kind'], o, op[2])
        except OSError as e:
            if 'simulated' not in str(e):
                raise
            self.injected(e, k)
            return
        self.acquired = o.h5f is not h0 and o.h5f is not None
        if not lib.close(val, exp):
            raise Violation('wrong-result', spec['kind'], f'operation {k} {op}: {lib.diff(val, exp)}')
        n = src.delivered - d0
        self.run.log('used', k, val, n if self.sim is None else 0)
        if spec['kind'] in ('cache', 'ps') and n and known:
            raise Violation('stored-data-lost', spec['kind'], f'operation {k} {op}: computed again although it is in the file')
        if self.caching() and spec['kind'] in ('cache', 'ps') and self.sim is None:
            if o.h5f is not None and type(o.h5f).__name__.endswith('Tables') == (key[-1] != 'h5py') and not (
                    spec['kind'] == 'ps' and not n and not known):
                if not any(g[0] == s for g in self.gens.values()):
                    self.complete.add(key)
                    self.run.probe('stored')

    def pull(self, slot, n, k):
        from dst import lib

        g = self.gens[slot]
        exp = self.ref(g[0], 0)
        for _ in range(n):
            b = next(g[1], None)
            if b is None:
                if g[2] != len(exp):
                    raise Violation('stream-cut', 'Cache', f'operation {k}: {g[2]} of {len(exp)} samples')
                self.gens.pop(slot)
                return
            if not lib.close(b, exp[g[2] : g[2] + g[3]]):
                raise Violation('wrong-result', 'Cache', f'operation {k}, sample {g[2]} of an open pass: {lib.diff(b, exp[g[2] : g[2] + g[3]])}')
            g[2] += len(b)

    def check(self, op, k):
        per = {}
        live = self.files.open()
        for n, f in live:
            per.setdefault(n, []).append(f)
        for n, fs in per.items():
            if len(fs) > 1:
                raise Violation('opened-twice', 'HDF5Cache', f'operation {k} {op}: {len(fs)} open handles of {os.path.basename(n)}')
        users = {}
        for slot, (s, o, _) in sorted(self.objs.items()):
            for x in (o, getattr(o, 'freq_data', None)):
                f = getattr(x, 'h5f', None)
                if f is None:
                    continue
                if not is_open(f):
                    raise Violation('closed-in-use', 'HDF5Cache',
                                    f'operation {k} {op}: the file of the {self.sc["specs"][s]["kind"]} object {slot} is closed')
                users.setdefault(id(f), []).append(x)
        dirs = {os.path.realpath(d) for d in self.H5cache.get_cache_directories()}
        for n, f in live:
            if id(f) in users and os.path.dirname(n) not in dirs:
                raise Violation('directory-not-listed', 'HDF5Cache', f'operation {k} {op}: the directory of {os.path.basename(n)} '
                                'is in use, but not among the used cache directories')
        if any(len(u) > 1 for u in users.values()):
            self.run.probe('shared')
        if op[0] == 'closeunref' or (op[0] == 'use' and self.acquired):
            gen_users = {id(g[1].gi_frame.f_locals['self'].h5f) for g in self.gens.values() if g[1].gi_frame is not None}
            for n, f in live:
                if id(f) not in users and id(f) not in gen_users:
                    raise Violation('not-closed', 'HDF5Cache', f'operation {k} {op}: {os.path.basename(n)} is open but nobody uses it')
        self.acquired = False
        self.run.state(len(per), tuple(sorted(len(u) for u in users.values())), op[0])


PROPERTY = P()
