"""C13: parallel kernels under a seeded scheduler of iterations, with race detection and dirty memory."""

import os
import warnings

import numpy as np

from dst import core, kernels, kserver
from dst.core import HarnessError, Property, Skip, Violation
from dst.props import c07

FILLS = [0.0, float('nan'), 1.0e30, -7.25, 3.0]
TOL = {'f8': 1e-9, 'f4': 1e-4}


def cplx(r, *s):
    return r.standard_normal(s) + 1j * r.standard_normal(s)


def hermitian(r, m):
    a = cplx(r, m, m + 1)
    return a @ a.conj().T


# For each kernel: names of its parameters, a maker of arguments, roles (i: read, o: written, b: both), float kind.
def mk_csm(r, d):
    dt = np.complex64 if d['f32'] else np.complex128
    return [cplx(r, d['f'], d['m'], d['m']).astype(dt), cplx(r, d['f'], d['m']).astype(dt)], 'bi'


def dists(r, d):
    return r.uniform(0.3, 2.0, d['g']), r.uniform(0.3, 2.0, (d['g'], d['m']))


def mk_full(r, d):
    r0, rm = dists(r, d)
    return [hermitian(r, d['m']), r0, rm, float(r.uniform(0.5, 20)), float(r.choice([1.0, 0.7])), bool(d['r_diag']), int(d['steer']),
            np.zeros(d['g']), np.zeros(d['g'])], 'iiiiiiioo'


def eig(r, d):
    w, v = np.linalg.eigh(hermitian(r, d['m']))
    k = d['e'] or d['m']
    return np.ascontiguousarray(w[-k:]), np.ascontiguousarray(v[:, -k:])


def mk_eig(r, d):
    r0, rm = dists(r, d)
    w, v = eig(r, d)
    return [w, v, r0, rm, float(r.uniform(0.5, 20)), float(r.choice([1.0, 0.7])), bool(d['r_diag']), int(d['steer']),
            np.zeros(d['g']), np.zeros(d['g'])], 'iiiiiiiioo'


def mk_spec(r, d):
    return [hermitian(r, d['m']), cplx(r, d['g'], d['m']), float(r.choice([1.0, 0.7])), np.zeros(d['g']), np.zeros(d['g'])], 'iiioo'


def mk_spece(r, d):
    w, v = eig(r, d)
    return [w, v, cplx(r, d['g'], d['m']), float(r.choice([1.0, 0.7])), np.zeros(d['g']), np.zeros(d['g'])], 'iiiioo'


def mk_psf(r, d):
    r0, rm = dists(r, d)
    ind = r.integers(0, d['g'], d['e'] or 1)
    return [r0, rm, r0[ind], rm[ind], np.array([float(r.uniform(0.5, 20))]), np.zeros((d['g'], len(ind)), np.float32 if d['f32'] else float)], 'iiiiio'


def mk_damas(r, d):
    a = r.uniform(0, 1, (d['f'], d['g'], d['g']))
    y = r.uniform(0, 1, (d['f'], d['g']))
    x = r.uniform(0, 1, (d['f'], d['g']))
    if d['f'] == 1:
        a, y, x = a[0], y[0], x[0]
    return [a, y, np.array(d['e'] + 1), np.array(1.0), x], 'iiiib'


def mk_transfer(r, d):
    r0, rm = dists(r, d)
    return [r0, rm, np.array([float(r.uniform(0.5, 20))]), np.zeros(rm.shape, complex)], 'iiio'


def fl(d):
    return (np.float32, np.int32) if d['f32'] else (np.float64, np.int64)


def mk_ds4(r, d):
    off = r.integers(0, 5, (d['g'], d['m']))
    return [r.standard_normal((d['f'] + 6, d['m'])), off, r.uniform(0, 1, off.shape), r.uniform(0.5, 1, off.shape),
            np.zeros((d['f'], d['g'])), np.zeros((d['f'], d['g']))], 'iiiioo'


def mk_ds5(r, d):
    f, i = fl(d)
    off = r.integers(0, 5, (d['f'], d['g'], d['m'])).astype(i)
    return [r.standard_normal((d['f'] + 6, d['m'])).astype(f), off, r.uniform(0, 1, off.shape).astype(f), r.uniform(0.5, 1, off.shape).astype(f),
            np.zeros((d['f'], d['g']), f), np.zeros((d['f'], d['g']), f)], 'iiiioo'


def mk_steer(r, d):
    f, _ = fl(d)
    rm = r.uniform(0.3, 2.0, (d['f'], d['g'], d['m'])).astype(f)
    return [rm, r.uniform(0.3, 2.0, (d['f'], d['g'])).astype(f), np.zeros(rm.shape, f)], 'iio'


def mk_delays(r, d):
    f, i = fl(d)
    rm = r.uniform(0.3, 2.0, (d['f'], d['g'], d['m'])).astype(f)
    return [rm, f(1 / 16.0), np.zeros(rm.shape, f), np.zeros(rm.shape, i)], 'iioo'


def mk_modf(r, d):
    f, i = fl(d)
    rm = r.uniform(0, 30.0, (d['f'], d['g'], d['m'])).astype(f)
    return [rm, np.zeros(rm.shape, f), np.zeros(rm.shape, i)], 'ioo'


def mk_dist(r, d):
    dt = np.float32 if d['f32'] else float
    return [r.uniform(-1, 1, (3, d['g'])).astype(dt), r.uniform(-1, 1, (3, d['m'])).astype(dt)], 'ii'


BF = ['distGridToArrayCenter', 'distGridToAllMics', 'waveNumber', 'signalLossNormalization', 'r_diag', 'steer_type', 'result', 'normalizeSteer']
PSF = ['distGridToArrayCenter', 'distGridToAllMics', 'distSourcesToArrayCenter', 'distSourcesToAllMics', 'waveNumber', 'result']
DS = ['data', 'offsets', 'ifactor2', 'steeramp', 'out', 'autopower']
TABLE = {
    'fastFuncs.calcCSM': (['csm', 'SpecAllMics'], mk_csm),
    'fastFuncs._freqBeamformer_FullCSM': (['csm'] + BF, mk_full),
    'fastFuncs._freqBeamformer_EigValues': (['eigVal', 'eigVec'] + BF, mk_eig),
    'fastFuncs._freqBeamformer_SpecificSteerVec_FullCSM': (['csm', 'steerVec', 'signalLossNormalization', 'result', 'normalizeSteer'], mk_spec),
    'fastFuncs._freqBeamformer_SpecificSteerVec_CsmRemovedDiag': (['csm', 'steerVec', 'signalLossNormalization', 'result', 'normalizeSteer'], mk_spec),
    'fastFuncs._freqBeamformer_EigValProb_SpecificSteerVec_FullCSM': (
        ['eigVal', 'eigVec', 'steerVec', 'signalLossNormalization', 'result', 'normalizeSteer'], mk_spece),
    'fastFuncs._freqBeamformer_EigValProb_SpecificSteerVec_CsmRemovedDiag': (
        ['eigVal', 'eigVec', 'steerVec', 'signalLossNormalization', 'result', 'normalizeSteer'], mk_spece),
    'fastFuncs._psf_Formulation1AkaClassic': (PSF, mk_psf),
    'fastFuncs._psf_Formulation2AkaInverse': (PSF, mk_psf),
    'fastFuncs._psf_Formulation3AkaTrueLevel': (PSF, mk_psf),
    'fastFuncs._psf_Formulation4AkaTrueLocation': (PSF, mk_psf),
    'fastFuncs.damasSolverGaussSeidel': (['A', 'dirtyMap', 'nIterations', 'relax', 'damasSolution'], mk_damas),
    'fastFuncs._transferCoreFunc': (['distGridToArrayCenter', 'distGridToAllMics', 'waveNumber', 'result'], mk_transfer),
    'tfastfuncs._delayandsum4': (DS, mk_ds4),
    'tfastfuncs._delayandsum5': (DS, mk_ds5),
    'tfastfuncs._steer_I': (['rm', 'r0', 'amp'], mk_steer),
    'tfastfuncs._steer_II': (['rm', 'r0', 'amp'], mk_steer),
    'tfastfuncs._steer_III': (['rm', 'r0', 'amp'], mk_steer),
    'tfastfuncs._steer_IV': (['rm', 'r0', 'amp'], mk_steer),
    'tfastfuncs._delays': (['rm', 'c', 'interp2', 'index'], mk_delays),
    'tfastfuncs._modf': (['delays', 'interp2', 'index'], mk_modf),
    'environments.dist_mat': (['gpos', 'mpos'], mk_dist),
}
ALL = sorted(TABLE)
KINDS = ['bf', 'tbf', 'psf', 'steer', 'ps', 'stream', 'tsource', 'psource']


class P(Property):
    id = 'C13'
    technique = 'deterministic simulation of the parallel runtime: seeded order of parallel iterations, race detection, dirty memory'
    rule = (
        'One evaluation = one call of one of 22 kernels (drawn shapes from 1 element up, precision, steering type, input values) '
        'or one object graph of the library whose kernels are executed by the scheduler. The iterations of every outermost '
        'parallel loop run in a drawn order (reversed, shuffled, or 1-8 simulated threads that work on chunks and are '
        'interleaved), result arrays and newly allocated memory hold drawn garbage, all element accesses are recorded per '
        'iteration. Two iterations that touch one element, one of them writing, are a violation; so is any difference to the '
        'sequential execution. In every fourth kernel run the compiled kernel is executed, too, on drawn numbers of threads, '
        'chunk sizes and memory contents, and compared with the sequential execution. Non-trivial: a parallel loop with at '
        'least 2 iterations ran. Distinct: by event-log digest (kernel, shapes, order of iterations, values).'
    )
    distinct_measure = 'digest of kernel, iteration orders and results'
    assumptions = (
        'Without conflicting accesses all interleavings of iterations are equivalent to the order executed (data race freedom).',
        'numba compiles the Python code of a kernel faithfully; the comparison with compiled runs samples this.',
    )
    components = {
        'real': ['source code of all kernels', 'compiled kernels with the real threading layer (comparison runs)', 'the classes that call them'],
        'stub': ['numba decorators and prange: interpreter with a seeded scheduler of iterations', 'contents of new arrays'],
    }
    quick_runs = 3500
    quick_budget = 60
    thorough_runs = 400000
    batch = 25

    def seams(self):
        kernels.install()

    def prepare(self):
        self.path = kserver.start(os.getcwd(), core.REPO)

    # -- scenarios ------------------------------------------------------------------------------------
    def spec(self, rng):
        return dict(style=rng.choice(['chunks', 'chunks', 'reverse', 'shuffle']), threads=rng.randint(1, 8), seed=rng.randrange(1 << 30),
                    fill=rng.choice([1, 2, 3, 4]))

    def scenario(self, rng, i, tier):
        if i % 5 == 4:
            g = c07.Gen(rng, rng.choice([1, 2]))
            roots = [r for r in c07.ROOTS if r[0] in KINDS]
            kind, cls = roots[(i // 5) % len(roots)]
            root = g.obj(rng, kind, cls)
            return dict(kind='system', objs=g.objs, root=root, num=rng.choice([16, 50, 128]), spec=self.spec(rng))
        name = ALL[(i - i // 5) % len(ALL)] if rng.random() < 0.8 else rng.choice(ALL)
        d = dict(f=rng.choice([1, 1, 2, 3, 5]), m=rng.choice([1, 2, 3, 4]), g=rng.choice([1, 2, 3, 5, 9]), e=rng.choice([0, 1, 2]),
                 f32=rng.random() < 0.4, r_diag=rng.random() < 0.5, steer=rng.choice([1, 2, 3, 4]))
        d['e'] = min(d['e'], d['m'])
        if rng.random() < 0.15:
            d[rng.choice('fg')] = rng.choice([17, 30])
        comp = None
        if rng.random() < 0.25:
            comp = [dict(threads=rng.randint(1, 8), chunk=rng.choice([0, 1, 2]), fill=rng.randrange(len(FILLS))) for _ in range(rng.choice([2, 3]))]
        return dict(kind='kernel', name=name, dims=d, seed=rng.randrange(1 << 30), spec=self.spec(rng), compiled=comp)

    def shrink(self, sc):
        if sc['kind'] == 'kernel':
            if sc['compiled']:
                yield dict(sc, compiled=None)
            for k in ('f', 'm', 'g', 'e'):
                for v in (1, 2, sc['dims'][k] // 2):
                    if 0 < v < sc['dims'][k]:
                        yield dict(sc, dims=dict(sc['dims'], **{k: v}))
        for st in ('forward', 'reverse'):
            if sc['spec']['style'] not in ('forward', st):
                yield dict(sc, spec=dict(sc['spec'], style=st))

    def nontrivial(self, sc, rec):
        return rec['probes'].get('parallel_iterations', 0) > 1

    # -- execution ------------------------------------------------------------------------------------
    def execute(self, sc, run):
        warnings.simplefilter('ignore')
        np.seterr(all='ignore')
        getattr(self, 'run_' + sc['kind'])(sc, run)

    def judge_schedule(self, S, run, where):
        run.probe('parallel_iterations', S.iterations)
        run.probe('parallel_regions', S.regions)
        run.probe('element_accesses', S.accesses)
        run.steps += S.iterations
        if any(list(o) != sorted(o) for o in S.orders):
            run.fault('reordered_iterations')
        run.log('orders', len(S.orders), hash_orders(S.orders))
        if S.races:
            raise Violation('data-race', S.races[0][0], f'{where}: {S.races}')

    def run_kernel(self, sc, run):
        name = sc['name']
        params, mk = TABLE[name]
        k = kernels.REG.get(name)
        if k is None or k.params != params:
            raise Skip  # the kernel was renamed or has another interface: the system runs cover it
        args, roles = mk(np.random.Generator(np.random.PCG64(sc['seed'])), dict(sc['dims']))
        outs = [i for i, c in enumerate(roles) if c in 'ob']

        def prepared(fill):
            a = [x.copy() if isinstance(x, np.ndarray) else x for x in args]
            for i, c in enumerate(roles):
                if c == 'o':
                    a[i][...] = fill if a[i].dtype.kind in 'fc' else (77 if fill else 0)
            return a

        ref = prepared(0.0)
        rv = k(*ref)
        got = prepared(FILLS[sc['spec']['fill']])
        run.fault('dirty_result_memory')
        with kernels.scheduled(dict(sc['spec'], fill=FILLS[sc['spec']['fill']])) as S:
            gv = k(*got)
        run.log(name, sorted(sc['dims'].items()))
        self.judge_schedule(S, run, str(sc['dims']))
        run.state(name, tuple(sorted(sc['dims'].items())), sc['spec']['style'])
        short = name.split('.')[1]
        self.same(short, args, roles, ref, got, rv, gv, f'order {S.orders[:1]} dims {sc["dims"]} fill {FILLS[sc["spec"]["fill"]]}')
        run.log('result', *[got[i] for i in outs])
        if sc['compiled']:
            self.compiled(sc, run, short, args, roles, outs, ref, prepared)

    def same(self, short, args, roles, ref, got, rv, gv, where):
        for i, c in enumerate(roles):
            if not isinstance(args[i], np.ndarray):
                continue
            if c == 'i':
                for who, x in (('sequential', ref[i]), ('scheduled', got[i])):
                    if not np.array_equal(x, args[i]):
                        raise Violation('input-changed', short, f'{who}: argument {i}: {where}')
                continue
            tol = TOL['f4'] if args[i].dtype in (np.float32, np.complex64) else TOL['f8']
            differ(short, 'schedule-dependent', i, got[i], ref[i], tol, where)
        if isinstance(rv, np.ndarray):
            differ(short, 'schedule-dependent', 'return value', gv, rv, 1e-4 if rv.dtype.itemsize in (4,) else 1e-6, where)

    def compiled(self, sc, run, short, args, roles, outs, ref, prepared):
        if not outs:
            return
        base = [dict(threads=1, chunk=0, fill=0)]
        var = [dict(threads=v['threads'], chunk=v['chunk'], args=prepared(FILLS[v['fill']])) for v in base + sc['compiled']]
        ans = kserver.request(self.path, dict(kernel=sc['name'], variants=var, outs=outs))
        if 'down' in ans:
            raise HarnessError('no compiled kernels')
        if 'ok' not in ans:
            raise Violation('compiled-failed', short, f'{ans} {sc["dims"]}')
        run.probe('compiled_runs', len(var))
        run.fault('compiled_threads', len(var) - 1)
        for v, res in zip(base + sc['compiled'], ans['ok'], strict=True):
            for i, x in zip(outs, res, strict=True):
                f4 = args[i].dtype in (np.float32, np.complex64)
                where = f'threads {v["threads"]} chunk {v["chunk"]} fill {FILLS[v["fill"]]} dims {sc["dims"]}'
                if args[i].dtype.kind == 'i':
                    if np.abs(x.astype(float) - ref[i]).max() > 1:
                        raise Violation('compiled-differs', short, f'argument {i}: {where}: {x} / {ref[i]}')
                    continue
                if short in ('_delays', '_modf'):  # position and remainder belong together
                    j = [o for o in outs if o != i][0]
                    x = x + res[outs.index(j)]
                    r = ref[i] + ref[j]
                else:
                    r = ref[i]
                differ(short, 'compiled-differs', i, x, r, 1e-4 if f4 else 2e-5, where)
                differ(short, 'threads-differ', i, res[outs.index(i)], ans['ok'][0][outs.index(i)], 1e-5 if f4 else 1e-6, where)

    def run_system(self, sc, run):
        import acoular as ac

        ac.config.global_caching = 'none'
        o = sc['objs'][sc['root']]

        def look():
            try:
                x = c07.World(sc['objs']).get(sc['root'])
                r, extra = c07.observe(o['kind'], o['cls'], x, sc['num'])
                return {**r, **extra}
            except Exception as e:  # noqa: BLE001
                return {'error': type(e).__name__}

        a = look()
        with kernels.scheduled(dict(sc['spec'], fill=FILLS[sc['spec']['fill']])) as S:
            b = look()
        run.log(o['cls'])
        run.state(o['cls'], sc['spec']['style'])
        self.judge_schedule(S, run, o['cls'])
        if set(a) != set(b):
            raise Violation('schedule-dependent', o['cls'], f'{sorted(a)} {a.get("error", "")} / {sorted(b)} {b.get("error", "")}')
        for n in a:
            run.log(n, b[n])
            if n != 'error' and not c07.same(b[n], a[n], 1e-6):
                raise Violation('schedule-dependent', o['cls'], f'{n}: {short_repr(b[n])} / {short_repr(a[n])}')


def hash_orders(o):
    import hashlib

    return hashlib.md5(repr(o).encode()).hexdigest()[:12]


def short_repr(v):
    return repr(v)[:200]


def differ(short, cls, i, got, want, tol, where):
    from dst.lib import close, diff

    if not close(got, want, tol):
        raise Violation(cls, short, f'result {i}: {diff(got, want)}; {where}')


PROPERTY = P()
