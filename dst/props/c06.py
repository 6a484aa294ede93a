"""C06: cached results (cross spectral matrix, eigenvalues, beamforming maps, PSFs) equal uncached ones."""

import os
import warnings

import numpy as np

from dst.core import Property, Violation
from dst.props.c05 import opens, snapshot

MODES = ['individual', 'individual', 'individual', 'all', 'readonly', 'overwrite', 'none']
BF = ['BeamformerBase', 'BeamformerBase', 'BeamformerFunctional', 'BeamformerCapon', 'BeamformerEig', 'BeamformerMusic',
      'BeamformerClean', 'BeamformerDamas', 'BeamformerOrth', 'BeamformerCleansc', 'BeamformerDamasPlus',
      'BeamformerCMF', 'BeamformerGridlessOrth']


def gen_ps(rng):
    return dict(seed=rng.randrange(1 << 20), n=rng.choice([1024, 1100, 1536, 2000]), base=rng.choice([None, 'a', 'b']),
                window=rng.choice(['Hanning', 'Rectangular']), overlap=rng.choice(['None', '50%']),
                precision=rng.choice(['complex128', 'complex128', 'complex64']), cached=rng.random() < 0.85,
                silent=rng.random() < 0.03)


def gen_bf(rng, nps):
    c = rng.choice(BF)
    p = dict(cls=c, ps=rng.randrange(nps), cached=rng.random() < 0.85,
             precision=rng.choice(['float64', 'float64', 'float32']),
             steer=rng.choice(['true level', 'classic', 'inverse', 'true location']), kw={})
    kw = p['kw']
    if c in ('BeamformerBase', 'BeamformerEig', 'BeamformerClean', 'BeamformerDamas', 'BeamformerOrth',
             'BeamformerCleansc', 'BeamformerCMF'):
        kw['r_diag'] = rng.random() < 0.5
    if c == 'BeamformerFunctional':
        kw['gamma'] = rng.choice([1.0, 4.0])
    if c in ('BeamformerEig', 'BeamformerMusic'):
        kw['n'] = rng.choice([1, 2, -1])
    if c in ('BeamformerClean', 'BeamformerDamas'):
        kw['n_iter'] = rng.choice([3, 10])
        kw['calcmode'] = rng.choice(['block', 'full', 'single'])
        kw['psf_precision'] = rng.choice(['float64', 'float32'])
    if c == 'BeamformerDamasPlus':
        kw.update(method='NNLS', r_diag=True)
    if c == 'BeamformerCMF':
        kw.update(method='NNLS')
    if c == 'BeamformerOrth':
        kw['n'] = rng.choice([1, 2, 3])
    if c == 'BeamformerGridlessOrth':
        kw.update(n=1, r_diag=False)
    return p


def make_ps(c, version=0):
    import acoular as ac

    from dst import lib
    from dst.props.c05 import tagged_source

    d = lib.noise(c['seed'] + 4711 * version, c['n'], 4)
    d[:, 1] += 0.8 * d[:, 0]
    d[:, 2] -= 0.5 * d[:, 0]
    if c['silent']:
        d *= 0
    src = tagged_source()(data=d, sample_freq=8000.0, tag=f"ps{c['seed']}{c['n']}{c['silent']}", basename=c['base'])
    src.num_samples, src.num_channels = c['n'], 4
    ps = ac.PowerSpectra(source=src, block_size=128, window=c['window'], overlap=c['overlap'], precision=c['precision'],
                         cached=c['cached'])
    return src, ps


def make_steer(kind='true level', seed=3):
    import acoular as ac

    r = np.random.Generator(np.random.PCG64(seed))
    pos = r.uniform(-0.3, 0.3, (3, 4))
    pos[2] = 0
    return ac.SteeringVector(grid=ac.RectGrid(x_min=-0.2, x_max=0.2, y_min=-0.1, y_max=0.1, z=0.5, increment=0.2),
                             mics=ac.MicGeom(pos_total=pos), steer_type=kind)


def make_bf(c, ps):
    import acoular as ac

    kw = dict(c['kw'])
    if c['cls'] == 'BeamformerGridlessOrth':
        kw['shgo'] = {'n': 8, 'iters': 1, 'minimizer_kwargs': {'method': 'Nelder-Mead', 'options': {'maxiter': 15}}}
        kw['bounds'] = [(-0.2, 0.2), (-0.2, 0.2), (0.4, 0.6)]
    n = kw.pop('n', None)
    b = getattr(ac, c['cls'])(freq_data=ps, steer=make_steer(c['steer']), precision=c['precision'], cached=c['cached'],
                              **kw)
    if n is not None:
        b.n = n
    return b


def make_psf(c):
    import acoular as ac

    return ac.PointSpreadFunction(steer=make_steer(c['steer']), precision=c['precision'])


class P(Property):
    id = 'C06'
    technique = 'deterministic simulation: process crashes, torn writes and disk errors during caching, uncached oracle'
    rule = (
        'One evaluation = one history of 2-5 simulated processes that request cross spectral matrices, eigenvalues, '
        'eigenvectors, beamforming maps (13 classes, drawn frequencies) and point spread functions through one cache '
        'directory in drawn caching modes, with a crash, a torn write or an I/O error at a drawn storage operation '
        '(every third history interrupts one class after the other at one operation after the other), followed by fault-free processes. Every returned array is compared with the result of fresh objects without '
        'caching. Non-trivial: a fault hit and a later request was answered from the cache. Distinct: by event-log digest.'
    )
    distinct_measure = 'digest of requests, storage operations, faults and results'
    assumptions = (
        'A crash loses what HDF5 had not written at that point (the real library decides, the process is killed).',
        'A cache file that the HDF5 library itself cannot read completely after a crash is removed by the operator.',
        'In mode overwrite, the user drops objects that still use the overwritten data, and when leaving mode readonly.',
        'Agreement means 1e-9 of the largest magnitude (1e-4 for single precision).',
    )
    components = {
        'real': ['acoular.PowerSpectra, Beamformer*, PointSpreadFunction, h5cache, h5files', 'PyTables, h5py, file system'],
        'stub': ['scripted source', 'fault injection in the HDF5 file classes and array assignments'],
    }
    quick_runs = 1300
    quick_budget = 110
    thorough_runs = 60000
    batch = 3

    def directed(self, rng, i):
        """Every class in turn: its calculation is interrupted at every storage operation in turn."""
        names = list(dict.fromkeys(BF)) + ['psf']
        c = names[i % len(names)]
        i //= len(names)
        fault = dict(kind=['torn_crash', 'error', 'torn_error', 'crash_after'][i % 4], at=(i // 4 + 2 * (i % 4)) % 10)
        ps = [dict(gen_ps(rng), cached=False, silent=False)]
        bf = gen_bf(rng, 1)
        while c != 'psf' and bf['cls'] != c:
            bf = gen_bf(rng, 1)
        bf['cached'] = True
        st = self.gen_step(rng, 1, 1)
        while st['kind'] != ('psf' if c == 'psf' else 'bf'):
            st = self.gen_step(rng, 1, 1)
        st['mode'] = 'individual'
        return dict(ps=ps, bfs=[bf], psfs=[dict(steer='true level', precision=rng.choice(['float64', 'float32']))],
                    sessions=[dict(lib=rng.choice(['pytables', 'h5py']), steps=[st, dict(st, keep=rng.random() < 0.5)],
                                   fault=fault, exit='clean')], last='individual')

    def scenario(self, rng, i, tier):
        if i % 3 == 2:
            return self.directed(rng, i // 3)
        nps = rng.choice([1, 1, 2])
        ps = [gen_ps(rng) for _ in range(nps)]
        bfs = [gen_bf(rng, nps) for _ in range(rng.choice([1, 1, 2]))]
        psfs = [dict(steer=rng.choice(['true level', 'inverse']), precision=rng.choice(['float64', 'float32']))]
        lib = rng.choice(['pytables', 'h5py'])
        steps = lambda: [self.gen_step(rng, nps, len(bfs)) for _ in range(rng.choice([1, 2, 3, 4]))]  # noqa: E731
        sessions = []
        for _ in range(rng.choice([1, 2, 3])):
            mode = rng.choice(MODES)
            st = steps()
            for s in st:
                if rng.random() < 0.15:
                    mode = rng.choice(MODES)
                s['mode'] = mode
            fault = None
            if rng.random() < 0.65:
                fault = dict(kind=rng.choice(['crash_before', 'crash_after', 'torn_crash', 'error', 'full', 'torn_error']),
                             at=rng.choice([0, 1, 2, 3, 4, 5, 6, 7, rng.randint(0, 20)]))
            sessions.append(dict(lib=lib, steps=st, fault=fault, exit=rng.choice(['clean', 'clean', 'kill'])))
        if rng.random() < 0.15:  # the cache belongs to other data and is renewed
            st = [x for x in steps() + steps() if x['kind'] != 'psf']
            ps = [dict(c, silent=False) for c in ps]
            sessions = [dict(lib=lib, steps=[dict(x, mode=m) for x in st], fault=None, exit='clean', version=v)
                        for m, v in (('individual', 0), ('overwrite', 1), (rng.choice(['individual', 'readonly', 'all']), 1))]
            return dict(ps=ps, bfs=bfs, psfs=psfs, sessions=sessions, last='individual', renew=True)
        return dict(ps=ps, bfs=bfs, psfs=psfs, sessions=sessions, last=rng.choice(['individual', 'all']))

    def gen_step(self, rng, nps, nbf):
        k = rng.choice(['ps', 'ps', 'bf', 'bf', 'bf', 'psf'])
        if k == 'ps':
            return dict(kind='ps', i=rng.randrange(nps), what=rng.choice(['csm', 'csm', 'eva', 'eve']),
                        keep=rng.random() < 0.6)
        if k == 'bf':
            return dict(kind='bf', i=rng.randrange(nbf), keep=rng.random() < 0.6,
                        f=sorted(rng.sample(range(3, 60), rng.choice([1, 2, 3])), key=lambda _: rng.random()))
        return dict(kind='psf', i=0, keep=rng.random() < 0.6, freq=rng.choice([1000.0, 1000.25, 2500.0]),
                    calcmode=rng.choice(['single', 'block', 'full']),
                    ind=rng.choice([[], [0], [2], [1, 3], [4, 2], [0, 1, 2, 3, 4, 5]]))

    def nontrivial(self, sc, rec):
        return rec['probes'].get('from_cache', 0) > 0 and sum(rec['faults'].values()) > 0

    def execute(self, sc, run):
        import acoular as ac

        warnings.simplefilter('ignore')
        cdir = os.path.join(os.getcwd(), 'cache')
        refs = {}

        def ref(st, version=0):
            key = repr({k: v for k, v in st.items() if k not in ('mode', 'keep')}) + str(version)
            if key not in refs:
                ac.config.global_caching = 'none'
                try:
                    refs[key] = self.request(dict(sc, version=version), st, {})[0]
                except Exception as e:  # noqa: BLE001
                    refs[key] = type(e).__name__
            return refs[key]

        state = {}
        for k, ses in enumerate(sc['sessions']):
            self.session(sc, run, k, ses, ref, cdir, state)
            self.clean(run, cdir, state)
        if sc.get('renew'):
            run.fault('cache_of_other_data')
            run.simtime += 1.0
            return
        steps = []
        for ses in sc['sessions']:
            for st in ses['steps']:
                n = {x: v for x, v in st.items() if x not in ('mode', 'keep')}
                if n not in steps:
                    steps.append(n)
        for turn in (0, 1):
            ses = dict(lib=sc['sessions'][-1]['lib'], fault=None, exit='clean',
                       steps=[dict(s, mode=sc['last'], keep=False) for s in steps])
            self.session(sc, run, f'final{turn}', ses, ref, cdir, state, final=turn)
        run.simtime += 1.0

    def clean(self, run, cdir, state):
        for f in sorted(os.listdir(cdir)):
            if not opens(os.path.join(cdir, f)):
                run.probe('unopenable_file_removed')
                os.remove(os.path.join(cdir, f))
                state.clear()

    def session(self, sc, run, k, ses, ref, cdir, state, final=None):
        from dst import lib, session as S

        before = snapshot(cdir)
        version = ses.get('version', 0)
        how, rep = S.session(lambda emit: self.inside(sc, ses, emit))
        if how not in ('ok', 'crash'):
            raise Violation('session-died', 'cache', f'session {k}: {how}')
        fault = next((r for r in rep if r[0] == 'op'), None)
        if fault:
            run.fault(fault[2])
            run.probe('fault_in:' + fault[1])
        run.log('session', k, ses['lib'], how, fault)
        res = {r[1]: r for r in rep if r[0] == 'res'}
        run.steps += sum(r[5] - r[4] for r in res.values())
        for i, st in enumerate(ses['steps']):
            if i not in res:
                continue
            _, _, outcome, val, o0, o1, src, msg = res[i]
            hit = fault is not None and o0 <= fault[3] < o1
            where = self.where(sc, st)
            run.log('step', i, st['kind'], st['mode'], outcome, val, src)
            run.state(where, st['mode'], hit and fault[2:3], outcome)
            if outcome == 'error':
                if hit:
                    run.probe('error_reported')
                    continue
                if isinstance(ref(st, version), str) and ref(st, version) == msg.split(':')[0]:  # fails without caching as well
                    run.probe('fails_without_cache')
                    continue
                raise Violation('request-fails', where, f'session {k} step {i} ({st["mode"]}): {msg}')
            r = ref(st, version)
            if isinstance(r, str):
                raise Violation('wrong-result', where, f'session {k} step {i} {st} ({ses["lib"]}): a value instead of {r}')
            rtol = 1e-4 if self.single(sc, st) else 1e-9
            if val.shape != r.shape or val.dtype.kind != r.dtype.kind or not lib.close(val, r, rtol):
                raise Violation('wrong-result', where, f'session {k} step {i} {st} ({ses["lib"]}): {val.dtype} {lib.diff(val, r)}')
            # the second fault-free process finds everything in the cache
            if st['kind'] == 'ps':
                c = sc['ps'][st['i']]
                caching = c['cached'] or st['mode'] != 'individual'
                if final == 1 and caching and src and not c['silent']:
                    raise Violation('cache-not-used', where, f'{st["what"]} computed again although it is in the cache')
                if st['mode'] == 'none' and not src and not st['keep']:
                    raise Violation('source-not-used', where, 'mode none did not evaluate the source')
                if not src and (final is not None or sc.get('renew')):
                    run.probe('from_cache')
        if ses['steps'] and all(s['mode'] in ('none', 'readonly') for s in ses['steps']) and snapshot(cdir) != before:
            raise Violation('file-changed', 'cache', f'session {k} changed the cache files: modes '
                            f'{[s["mode"] for s in ses["steps"]]}')
        if ses['exit'] == 'kill' or how == 'crash':
            run.fault('process_killed')

    def where(self, sc, st):
        return {'ps': lambda: 'PowerSpectra.' + st.get('what', ''), 'bf': lambda: sc['bfs'][st['i']]['cls'],
                'psf': lambda: 'PointSpreadFunction'}[st['kind']]()

    def single(self, sc, st):
        if st['kind'] == 'ps':
            return sc['ps'][st['i']]['precision'] == 'complex64'
        if st['kind'] == 'bf':
            b = sc['bfs'][st['i']]
            return (b['precision'] == 'float32' or sc['ps'][b['ps']]['precision'] == 'complex64'
                    or b['kw'].get('psf_precision') == 'float32')
        return sc['psfs'][st['i']]['precision'] == 'float32'

    def request(self, sc, st, kept):
        """One request of a user; returns (array, source blocks evaluated)."""

        def obj(kind, i, make):
            if st.get('keep') and (kind, i) in kept:
                return kept[kind, i]
            kept[kind, i] = make()
            return kept[kind, i]

        if st['kind'] == 'psf':
            p = obj('psf', 0, lambda: make_psf(sc['psfs'][0]))
            p.calcmode = st['calcmode']
            p.grid_indices = np.array(st['ind'], dtype=int)
            p.freq = st['freq']
            return np.array(p.psf[:]), 0
        j = st['i'] if st['kind'] == 'ps' else sc['bfs'][st['i']]['ps']
        src, ps = obj('ps', j, lambda: make_ps(sc['ps'][j], sc.get('version', 0)))
        d0 = src.delivered
        if st['kind'] == 'ps':
            return np.array(getattr(ps, st['what'])[:]), src.delivered - d0
        b = obj('bf', st['i'], lambda: make_bf(sc['bfs'][st['i']], ps))
        res = b.result
        out = [res[f] for f in st['f']]
        if sc['bfs'][st['i']]['cls'] == 'BeamformerGridlessOrth':  # level and position
            out = [np.append(x[f], b.pos[:, f]) for f, x in zip(st['f'], out, strict=True)]
        return np.array(out), src.delivered - d0

    def inside(self, sc, ses, emit):
        import acoular as ac

        from dst import session as S

        warnings.simplefilter('ignore')
        ac.config.h5library = ses['lib']
        ops = S.Ops(ses['fault'], emit).install().install_node_writes()
        kept, sc_mode = {}, None
        for i, st in enumerate(ses['steps']):
            ac.config.global_caching = st['mode']
            if 'overwrite' in (st['mode'], sc_mode) or (sc_mode == 'readonly' != st['mode']):
                kept.clear()  # objects that use the overwritten data or the read-only file are dropped by the user
            sc_mode = st['mode']
            o0 = ops.n
            try:
                v, src = self.request(dict(sc, version=ses.get('version', 0)), st, kept)
                emit(('res', i, 'ok', v, o0, ops.n, src, ''))
            except Exception as e:  # noqa: BLE001
                import traceback

                emit(('res', i, 'error', None, o0, ops.n, 0, f'{type(e).__name__}: {str(e)[-200:]} '
                      + traceback.format_exc()[-900:]))
        if ses['exit'] == 'kill':
            S.die()

    def shrink(self, sc):
        if sc.get('renew'):
            for i in range(len(sc['sessions'][0]['steps'])):
                if len(sc['sessions'][0]['steps']) > 1:
                    yield dict(sc, sessions=[dict(s, steps=s['steps'][:i] + s['steps'][i + 1 :]) for s in sc['sessions']])
            return
        for i in range(len(sc['sessions'])):
            if len(sc['sessions']) > 1:
                yield dict(sc, sessions=sc['sessions'][:i] + sc['sessions'][i + 1 :])
        for i, s in enumerate(sc['sessions']):
            for v in self.shrink_session(s):
                yield dict(sc, sessions=sc['sessions'][:i] + [v] + sc['sessions'][i + 1 :])
        for key, simple in (('ps', dict(n=1024, base=None, window='Rectangular', overlap='None', precision='complex128',
                                        cached=True)),
                            ('bfs', dict(precision='float64', steer='true level', cached=True))):
            for j, c in enumerate(sc[key]):
                for k, v in simple.items():
                    if c[k] != v:
                        yield dict(sc, **{key: sc[key][:j] + [dict(c, **{k: v})] + sc[key][j + 1 :]})

    def shrink_session(self, s):
        if s['fault']:
            yield dict(s, fault=None)
        if s['exit'] == 'kill':
            yield dict(s, exit='clean')
        for i, st in enumerate(s['steps']):
            if len(s['steps']) > 1:
                yield dict(s, steps=s['steps'][:i] + s['steps'][i + 1 :])
            vs = [dict(st, mode='individual'), dict(st, keep=False)]
            if st['kind'] == 'bf' and len(st['f']) > 1:
                vs += [dict(st, f=[f]) for f in st['f']]
            for v in vs:
                if v != st:
                    yield dict(s, steps=s['steps'][:i] + [v] + s['steps'][i + 1 :])


PROPERTY = P()
