"""C14: maps are a function of settings and frequency, whatever was requested before, interrupted, changed or kept."""

import os
import sys
import warnings

import numpy as np

from dst import core
from dst.core import Property, Violation

FS = 8000.0
CLASSES = ['BeamformerBase', 'BeamformerBase', 'BeamformerFunctional', 'BeamformerCapon', 'BeamformerEig', 'BeamformerMusic', 'BeamformerDamas',
           'BeamformerDamasPlus', 'BeamformerOrth', 'BeamformerCleansc', 'BeamformerClean', 'BeamformerCMF', 'BeamformerGIB', 'BeamformerSODIX',
           'BeamformerGridlessOrth']
SLOW = {'BeamformerSODIX': 5, 'BeamformerGIB': 30, 'BeamformerGridlessOrth': 40, 'BeamformerDamasPlus': 60, 'BeamformerCMF': 60}
FIX = {
    'BeamformerFunctional': dict(gamma=2.0), 'BeamformerEig': dict(n=1), 'BeamformerMusic': dict(n=2), 'BeamformerDamas': dict(n_iter=3),
    'BeamformerDamasPlus': dict(n_iter=20, method='NNLS'), 'BeamformerOrth': dict(n=2), 'BeamformerCleansc': dict(n_iter=2),
    'BeamformerClean': dict(n_iter=3), 'BeamformerCMF': dict(n_iter=20, method='NNLS'), 'BeamformerGIB': dict(n_iter=3, n=1, m=2, method='LassoLars'),
    'BeamformerSODIX': dict(n_iter=2),
}
NO_DIAG = {'BeamformerFunctional', 'BeamformerCapon', 'BeamformerMusic', 'BeamformerGIB'}
SECT = [[-0.1, 0.1, -0.1, 0.1], [0.1, 0.3, -0.3, 0.3], [-0.3, 0.3, -0.3, 0.3]]


class Interrupt:
    """Raises an exception at the n-th line executed in the library."""

    def __init__(self, n, kind):
        self.n, self.kind, self.seen, self.where = n, kind, 0, None
        self.root = os.path.join(core.REPO, 'acoular') + os.sep

    def exc(self):
        from dst.lib import SimIOError

        return {'io': SimIOError('simulated'), 'kbd': KeyboardInterrupt(), 'mem': MemoryError('simulated')}[self.kind]

    def local(self, frame, event, arg):
        if event == 'line' and self.where is None:
            self.seen += 1
            if self.seen == self.n:
                self.where = f'{os.path.basename(frame.f_code.co_filename)}:{frame.f_code.co_name}'
                sys.settrace(None)
                raise self.exc()
        return self.local

    def glob(self, frame, event, arg):
        f = frame.f_code.co_filename
        if self.where is not None or not f.startswith(self.root):
            return None
        return self.local

    def __enter__(self):
        sys.settrace(self.glob)
        return self

    def __exit__(self, *a):
        sys.settrace(None)


class P(Property):
    id = 'C14'
    technique = 'deterministic simulation: seeded request histories with interrupts at every executed line, against single requests on fresh objects'
    rule = (
        'One evaluation = one beamformer (14 classes, drawn settings, spectra computed or imported, with or without cache file) and a '
        'history of 3-12 operations on it: single frequencies (also negative indices), ranges with steps, single grid points, synthetic with '
        'lines, bands and explicit ranges, integrate over sectors with all kinds of frequency arguments, results kept and used after '
        'settings were changed, in-place changes of returned maps, new equal objects, and requests interrupted by an exception at a '
        'drawn line executed in the library. Every answer is compared with maps requested one frequency at a time from '
        'fresh objects of the same settings. Non-trivial: at least 2 answers were compared. Distinct: by event-log digest.'
    )
    distinct_measure = 'digest of configuration, history and answers'
    assumptions = (
        'Exceptions are raised between lines of Python code of the library, not inside of numpy, scipy, PyTables or traits.',
        'Frequencies are selected as documented by the lines of the FFT: f1 <= f < f2 in a band.',
    )
    components = {'real': ['all frequency domain beamformers', 'PowerSpectra, PowerSpectraImport, SteeringVector, grids, sectors, cache files'],
                  'stub': ['numba kernels run as Python code', 'recorded data', 'exceptions of failing calculations']}
    quick_runs = 1400
    quick_budget = 60
    thorough_runs = 100000
    batch = 4

    # -- scenarios ------------------------------------------------------------------------------------
    def scenario(self, rng, i, tier):
        cls = CLASSES[i % len(CLASSES)] if rng.random() < 0.8 else rng.choice(CLASSES)
        s = dict(cls=cls, src=rng.randrange(3), n=rng.choice([300, 400]), imp=rng.random() < 0.3, low=rng.choice([1, 0, 3, 10]),
                 high=rng.choice([-1, -1, -4, 20, 65]), grid=rng.choice([2, 3]), steer=rng.choice(['true level', 'classic', 'inverse', 'true location']),
                 r_diag=rng.random() < 0.5, precision=rng.choice(['float64', 'float64', 'float32']), block=128)
        if s['imp']:
            s['nf'] = rng.choice([4, 12])
            s['zero'] = rng.choice([None, None, rng.randrange(s['nf'])])  # a line without any power
        nf = s.get('nf') or 65
        top = min(nf, SLOW.get(cls, nf)) if cls == 'BeamformerSODIX' else nf
        few = cls in SLOW
        ops = []
        nh = 0
        for _ in range(rng.choice([3, 4, 5] if few else [4, 6, 9, 12])):
            o = rng.choice(['idx', 'idx', 'slice', 'synth', 'synth', 'integ', 'point', 'hold', 'held', 'set', 'fail', 'fail', 'scribble', 'twin'])
            i = rng.choice([0, 1, top - 1, rng.randrange(top), rng.randrange(top)])
            if cls != 'BeamformerSODIX' and rng.random() < 0.3:
                i -= nf
            if o in ('idx', 'scribble', 'twin'):
                op = [o, i]
            elif o == 'point':
                op = [o, i, rng.randrange(4)]
            elif o == 'slice':
                a = rng.randrange(top)
                b = min(a + rng.choice([1, 2, 4 if few else 12]), top)
                op = [o, *rng.choice([[a, b, None], [a, b, 2], [b - 1, a - 1 if a else None, -1], [a - nf, b - nf if b < nf else None, None],
                                      [a, a, None]])]
                if not few and rng.random() < 0.1:
                    op = [o, None, None, None]
            elif o == 'synth':
                op = [o, *self.band(rng, top, nf, few)]
            elif o == 'integ':
                k = rng.choice(['none', 'range', 'bands', 'bands'])
                if k == 'none' and few:
                    k = 'range'
                if cls == 'BeamformerGridlessOrth':
                    k = 'adaptive' if rng.random() < 0.2 else 'skip'
                lo = rng.randrange(top)
                hi = min(top - 1, lo + rng.choice([0, 1, 3]))
                df = FS / 128
                fr = {'none': None, 'skip': None, 'adaptive': None, 'range': [lo * df, hi * df + rng.choice([0, 1.0])],
                      'bands': [self.band(rng, top, nf, few)[0] for _ in range(rng.choice([1, 2, 3]))]}[k]
                op = [o, k, rng.choice(['sector', 'array', 'sector']), rng.randrange(3), fr, rng.choice([1, 3]) if k == 'bands' else 0]
            elif o == 'hold':
                nh += 1
                op = [o]
            elif o == 'held':
                if not nh:
                    continue
                op = [o, rng.randrange(nh), i]
            elif o == 'set':
                op = [o, *rng.choice([['r_diag', None], ['steer', rng.choice(['true level', 'classic', 'inverse', 'true location'])],
                                      ['precision', rng.choice(['float64', 'float32'])], ['grid', rng.choice([2, 3])],
                                      ['src', rng.randrange(3)], ['back', None]])]
            else:
                op = [o, rng.choice([['idx', i], ['slice', 0, 3, None], ['synth', *self.band(rng, top, nf, few)]]),
                      int(10 ** rng.uniform(0, 3.4)), rng.choice(['io', 'kbd', 'mem'])]
            ops.append(op)
        cache = rng.random() < 0.3
        if cache:  # HDF5 arrays have no negative steps
            ops = [o for o in ops if not (o[0] == 'slice' and o[3] == -1)]
        return dict(s=s, ops=ops, cache=cache)

    def band(self, rng, top, nf, few):
        df = FS / 128
        f = rng.choice([rng.randrange(top) * df, rng.uniform(0, top * df), (top - 1) * df, 0.0])
        num = rng.choice([0, 0, 1, 3, 12, [f, f + 2 * df], [f, f], [f - df, f + 0.5 * df]])
        if few and num == 1:
            num = 12
        if top < nf:
            f = min(f, (top - 2) * df)
            num = 0 if isinstance(num, list) else num and 12
        elif rng.random() < 0.05:
            f = 2 * FS
        return [f, num]

    def shrink(self, sc):
        yield from core.generic_shrink(sc, ('ops',))
        if sc['cache']:
            yield dict(sc, cache=False)
        for k, v in (('imp', False), ('r_diag', False), ('precision', 'float64'), ('cls', 'BeamformerBase')):
            if sc['s'][k] != v:
                yield dict(sc, s=dict(sc['s'], **{k: v}))
        for j, o in enumerate(sc['ops']):
            if o[0] == 'fail':
                for n in (o[2] // 2, o[2] - 1):
                    if n > 0:
                        yield dict(sc, ops=sc['ops'][:j] + [[o[0], o[1], n, o[3]]] + sc['ops'][j + 1 :])

    def nontrivial(self, sc, rec):
        return rec['probes'].get('compared', 0) > 1

    # -- model ----------------------------------------------------------------------------------------
    def make(self, s, twin=None):
        import acoular as ac

        mics = ac.MicGeom(pos_total=self.noise(77, 3, 4) * 0.2)
        if s['imp']:
            nf = s['nf']
            a = self.noise(5 + s['src'], nf, 4, 6) + 1j * self.noise(15 + s['src'], nf, 4, 6)
            if s['zero'] is not None:
                a[s['zero']] = 0
            ps = ac.PowerSpectraImport(csm=a @ a.conj().swapaxes(1, 2), frequencies=np.arange(nf) * FS / 128)
        else:
            ts = ac.TimeSamples(data=self.noise(1 + s['src'], s['n'], 4), sample_freq=FS)
            ps = ac.PowerSpectra(source=ts, block_size=s['block'], ind_low=s['low'], ind_high=s['high'], window='Hanning')
        if twin is not None:
            ps = twin.freq_data if s['cls'] == 'never' else ps
        st = ac.SteeringVector(mics=mics, grid=self.grid(s), steer_type=s['steer'])
        kw = dict(freq_data=ps, steer=st, precision=s['precision'], **FIX.get(s['cls'], {}))
        if s['cls'] not in NO_DIAG:
            kw['r_diag'] = s['r_diag']
        if s['cls'] == 'BeamformerGridlessOrth':
            kw.update(eva_list=np.array([-1]), bounds=[(-0.2, 0.2), (-0.2, 0.2), (0.4, 0.6)],
                      shgo={'n': 8, 'iters': 1, 'minimizer_kwargs': {'method': 'Nelder-Mead', 'options': {'maxiter': 5}}})
        return getattr(ac, s['cls'])(**kw)

    def grid(self, s):
        import acoular as ac

        e = 0.1 if s['grid'] == 2 else 0.2
        return ac.RectGrid(x_min=-e, x_max=e, y_min=-e, y_max=e, z=0.5, increment=0.2)

    def noise(self, seed, *shape):
        a = np.random.Generator(np.random.PCG64(seed)).standard_normal(shape)
        if shape == (3, 4):
            a[2] = 0
        return a

    def freqs(self, s):
        return np.arange(s['nf'] if s['imp'] else s['block'] // 2 + 1) * FS / 128

    def ref(self, s, i):
        """Map of frequency line i, requested alone from a fresh object without cache."""
        import acoular as ac

        key = (repr(sorted(s.items())), i)
        if key not in self.memo:
            old = ac.config.global_caching
            ac.config.global_caching = 'none'
            try:
                b = self.make(s)
                v = np.array(b.result[i])
                if s['cls'] == 'BeamformerGridlessOrth':
                    self.pos[key] = np.array(b.pos[:, i])
            except (np.linalg.LinAlgError, ValueError, ZeroDivisionError) as e:
                v = type(e).__name__
            ac.config.global_caching = old
            self.memo[key] = v
        return self.memo[key]

    def refs(self, s, idx):
        out = [self.ref(s, int(i)) for i in idx]
        for v in out:
            if isinstance(v, str):
                raise Expected
        return out

    def want_band(self, s, f, num):
        fr = self.freqs(s)
        if num == 0:
            k = int(np.searchsorted(fr, f))
            idx = [k] if k < len(fr) else []
        else:
            a, b = (num[0], num[-1]) if isinstance(num, list) else (f * 2 ** (-0.5 / num), f * 2 ** (0.5 / num))
            idx = [k for k, x in enumerate(fr) if a <= x < b]
        m = self.refs(s, idx)
        size = self.size(s)
        return np.sum(m, axis=0) if m else np.zeros(size)

    def size(self, s):
        g = s['grid'] ** 2
        if s['cls'] == 'BeamformerGridlessOrth':
            return len(self.freqs(s))
        return g * 4 if s['cls'] == 'BeamformerSODIX' else g

    def shape(self, s):
        if s['cls'] == 'BeamformerGridlessOrth':
            return (self.size(s),)
        if s['cls'] == 'BeamformerSODIX':
            return (s['grid'] ** 2, 4)
        return (s['grid'], s['grid'])

    # -- execution ------------------------------------------------------------------------------------
    def execute(self, sc, run):
        import acoular as ac

        warnings.simplefilter('ignore')
        np.seterr(all='ignore')
        ac.config.global_caching = 'individual' if sc['cache'] else 'none'
        self.memo, self.pos = {}, {}
        s = dict(sc['s'])
        if s['imp']:
            s.update(low=None, high=None)
        first = dict(s)
        b = self.make(s)
        held = []
        self.nf = len(self.freqs(s))
        for k, op in enumerate(sc['ops']):
            name = op[0]
            run.steps += 1
            where = f'operation {k} {op} of {[x[0] for x in sc["ops"][:k]]}'
            if name == 'set':
                self.change(b, s, first, op, run)
            elif name == 'hold':
                try:
                    held.append(b.result)
                except Exception:  # noqa: BLE001
                    held.append(None)
            elif name == 'fail':
                if op[1][0] == 'integ':
                    continue
                try:
                    with Interrupt(op[2], op[3]) as it:
                        self.request(b, s, op[1], held)
                except (KeyboardInterrupt, Exception) as e:  # noqa: BLE001
                    run.log('interrupted', type(e).__name__, it.where)
                if it.where:
                    run.fault('exception:' + op[3])
                    run.state('fail', s['cls'], it.where)
                else:
                    run.probe('finished_before_exception')
            elif name == 'twin':
                t = self.make(s)
                self.answer(run, t, s, ['idx', op[1]], held, where, sc)
            elif name == 'scribble':
                m = self.answer(run, b, s, ['idx', op[1]], held, where, sc)
                if m is not None:
                    m += 1.0
                    m = b.synthetic(float(self.freqs(s)[op[1]]), 0)
                    m *= 2.0
                    run.probe('maps_changed_by_caller')
            else:
                self.answer(run, b, s, op, held, where, sc)
        run.simtime += 0.05 * len(sc['ops'])

    def change(self, b, s, first, op, run):
        import acoular as ac

        _, what, v = op
        todo = {what: v} if what != 'back' else {k: first[k] for k in ('r_diag', 'steer', 'precision', 'grid', 'src')}
        for w, x in todo.items():
            if w == 'r_diag' and s['cls'] in NO_DIAG:
                continue
            if w == 'r_diag':
                x = (not s['r_diag']) if what == 'r_diag' else x
                b.r_diag = x
            elif w == 'steer':
                b.steer.steer_type = x
            elif w == 'precision':
                b.precision = x
            elif w == 'grid':
                if s['grid'] == x:
                    continue
                b.steer.grid = self.grid(dict(s, grid=x))
            elif w == 'src':
                if s['src'] == x:
                    continue
                t = self.make(dict(s, src=x)).freq_data
                if s['imp']:
                    b.freq_data.csm = t.csm
                else:
                    b.freq_data.source = ac.TimeSamples(data=self.noise(1 + x, s['n'], 4), sample_freq=FS)
            s[w] = x
        run.fault('settings_changed')
        run.log('set', what, str(v))

    def want(self, s, op):
        name = op[0]
        if name in ('idx', 'held'):
            return self.refs(s, [range(self.nf)[op[-1]]])[0]
        if name == 'point':
            return self.refs(s, [range(self.nf)[op[1]]])[0][op[2]]
        if name == 'slice':
            idx = list(range(self.nf))[slice(*op[1:])]
            m = self.refs(s, idx)
            return np.array(m).reshape(len(idx), self.size(s))
        if name == 'synth':
            return self.want_band(s, op[1], op[2]).reshape(self.shape(s))
        _, k, form, sec, fr, num = op
        x = SECT[sec]
        if k == 'adaptive':
            idx = range(self.nf)[slice(s['low'] if s['low'] is not None else 0, self.high(s))]
            h = np.zeros(self.nf)
            for i in idx:
                m = self.refs(s, [i])[0]
                p = self.pos[(repr(sorted(s.items())), i)]
                if x[0] <= p[0] <= x[1] and x[2] <= p[1] <= x[3]:
                    h[i] = m[i]
            return h
        g = self.grid(s).pos
        if form == 'array':
            e = 0.1 if s['grid'] == 2 else 0.2
            x = [[-e, e, -e, e], [-e, -e, -e, e], [e, e, -e, -e]][sec]
        ins = (g[0] > x[0] - 1e-6) & (g[0] < x[1] + 1e-6) & (g[1] > x[2] - 1e-6) & (g[1] < x[3] + 1e-6)
        def sec_sum(m):
            return m[ins].sum()
        if k == 'none':
            idx = list(range(self.nf))[slice(s['low'] or 0, self.high(s))]
            h = np.zeros(self.nf)
            for i in idx:
                h[i] = sec_sum(self.refs(s, [i])[0])
            return h
        if k == 'range':
            f = self.freqs(s)
            idx = [i for i, y in enumerate(f) if fr[0] <= y < fr[1]]
            return f[idx], np.array([sec_sum(self.refs(s, [i])[0]) for i in idx])
        return np.array([sec_sum(self.want_band(s, f, num)) for f in fr])

    def high(self, s):
        h = s['high']
        return None if h is None else h if h < 0 else min(h, self.nf - 1)

    def request(self, b, s, op, held):
        import acoular as ac

        name = op[0]
        if name == 'idx':
            return b.result[op[1]]
        if name == 'held':
            return held[op[1]][op[2]]
        if name == 'point':
            return b.result[op[1], op[2]]
        if name == 'slice':
            return b.result[slice(*op[1:])]
        if name == 'synth':
            return b.synthetic(op[1], op[2])
        _, k, form, sec, fr, num = op
        x = SECT[sec]
        sector = ac.RectSector(x_min=x[0], x_max=x[1], y_min=x[2], y_max=x[3])
        if k == 'adaptive':
            return b.integrate(sector)
        if form == 'array':  # edges on grid points
            e = 0.1 if s['grid'] == 2 else 0.2
            sector = [[-e, -e, e, e], [-e, -e, -e, e], [e, -e, e, -e]][sec]
        if k == 'none':
            return b.integrate(sector)
        if k == 'range':
            return b.integrate(sector, tuple(fr))
        return b.integrate(sector, fr, num)

    def answer(self, run, b, s, op, held, where, sc):
        from dst.lib import close, diff

        if op[0] == 'integ' and (op[1] == 'skip' or s['cls'] == 'BeamformerSODIX'):
            return None
        if op[0] == 'held' and held[op[1]] is None:
            return None
        try:
            want = self.want(s, op)
        except Expected:
            try:
                self.request(b, s, op, held)
            except Exception as e:  # noqa: BLE001
                run.log(op, 'error', type(e).__name__)
                return None
            raise Violation('missing-error', s['cls'], f'{where}: a single request of one of these frequencies fails') from None
        if op[0] == 'synth' and op[2] == 0 and op[1] > self.freqs(s)[-1]:
            run.probe('out_of_range')
        got = self.request(b, s, op, held)
        if s['cls'] == 'BeamformerGridlessOrth' and op[0] == 'idx':
            i = range(self.nf)[op[1]]
            p = np.array(b.pos[:, i])
            if not close(p, self.pos[(repr(sorted(s.items())), i)], 1e-9 if s['precision'] == 'float64' else 1e-6):
                raise Violation('wrong-position', s['cls'], f'{where}: {p} / {self.pos[(repr(sorted(s.items())), i)]}')
        run.probe('compared')
        run.state(s['cls'], op[0], sc['cache'])
        tol = 1e-9 if s['precision'] == 'float64' else 2e-6
        for g, w in (zip(got, want, strict=True) if isinstance(want, tuple) else [(got, want)]):
            run.log(op[0], np.asarray(g))
            if np.shape(g) != np.shape(w) or not close(g, w, tol):
                raise Violation('wrong-map', s['cls'], f'{where}: {diff(g, w)}')
        return got


class Expected(Exception):
    """The reference raises an exception, too."""


PROPERTY = P()
