"""C15: time-domain maps equal delay-and-sum (and CLEAN-T) evaluated sample by sample on the whole recording."""

import numpy as np

from dst.core import Property, Skip, Violation, generic_shrink

FIXED = ['BeamformerTime', 'BeamformerTimeSq', 'BeamformerCleant', 'BeamformerCleantSq']
TRAJ = ['BeamformerTimeTraj', 'BeamformerTimeSqTraj', 'BeamformerCleantTraj', 'BeamformerCleantSqTraj']
STEER = ['classic', 'inverse', 'true level', 'true location']


def spline(points, t, der=0):
    from scipy.interpolate import splev, splprep

    ts = sorted(points)
    xp = np.array([points[i] for i in ts]).T
    tck = splprep(xp, u=ts, s=0, k=min(3, len(ts) - 1))[0]
    return np.array(splev(t, tck, der))


def cross(a, b):
    return np.array([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])


def distances(gpos, mpos, c, flow):
    """(G, M) effective distances, with uniform flow if given (mach number, direction)."""
    v = gpos[:, :, None] - mpos[:, None, :]
    r = np.sqrt((v * v).sum(0))
    if flow:
        ma, fdv = flow[0], np.array(flow[1], float)
        fdv = fdv / np.sqrt((fdv**2).sum())
        mc = ma * (v * fdv[:, None, None]).sum(0) / r
        r = r / (-mc + np.sqrt(mc * mc - ma * ma + 1))
    return r


def power_weight(r):
    """Weights of the microphones by the ring area they stand for."""
    r = (r / r.max()).round(decimals=1)
    ru = np.unique(r)
    mid = (ru[1:] + ru[:-1]) / 2
    edges = np.r_[0, mid, 1.5 * r.max() - 0.5 * mid[-1]]
    k = np.searchsorted(ru, r)
    count = np.array([(k == j).sum() for j in range(len(ru))])
    w = np.sqrt((edges[1:] ** 2 - edges[:-1] ** 2) / count)
    return (w / w.mean())[k]


class Ref:
    """Whole-recording evaluation of one configuration."""

    def __init__(self, s, x):
        self.s, self.x = s, np.asarray(x, float)
        N, M = x.shape
        fs, c = s['fs'], s['c']
        mpos = np.array(s['mics'], float)
        gpos = np.array(s['gpos'], float)
        G = gpos.shape[1]
        traj = s['cls'] in TRAJ
        w = power_weight(distances(np.zeros((3, 1)), mpos, c, s['flow']).ravel()) if s['weights'] == 'power' else np.ones(M)
        self.limit = N
        if traj:
            pts = {float(t): p for t, p in s['points']}
            T = min(N, len(np.arange(0.0, max(pts), 1 / fs)))
            self.limit = T
            t = np.arange(T) / fs
            loc, vel = (spline(pts, t), spline(pts, t, 1)) if T else (None, None)
        else:
            T = N
        self.d = np.zeros((T, G, M))
        self.amp = np.zeros((T, G, M))
        self.r0 = np.zeros((T, G))
        self.rm = np.zeros((T, G, M))
        for n in range(T):
            if n and not traj:
                for a in (self.d, self.amp, self.r0, self.rm):
                    a[n] = a[0]
                continue
            p = gpos
            if traj:
                if any(s['rvec']):
                    dx = vel[:, n]
                    dy = cross(np.array(s['rvec'], float), dx)
                    dz = cross(dx, dy)
                    R = np.array([dx / np.linalg.norm(dx), dy / np.linalg.norm(dy), dz / np.linalg.norm(dz)]).T
                    p = R @ gpos
                p = p + loc[:, n][:, None]
            rm = distances(p, mpos, c, s['flow'])
            r0 = np.full(G, s['ref']) if s['ref'] else distances(p, np.zeros((3, 1)), c, s['flow'])[:, 0]
            self.d[n] = rm / c * fs
            if traj and s['conv_amp']:
                v = vel[:, n]
                g = p[:, :, None] - mpos[:, None, :]
                rm = rm * (1 - (g * v[:, None, None]).sum(0) / (c * rm)) ** 2
            self.rm[n], self.r0[n] = rm, r0
            self.amp[n] = self.steer(rm, r0[:, None], M)
        self.w = w
        self.y = self.x * w
        self.idx = self.d.astype(int)
        need = (self.idx.max((1, 2)) + 2 + np.arange(T)) if T else np.zeros(0, int)
        ok = need <= N
        self.count = int(np.argmin(ok)) if not ok.all() else T
        self.extra = T - self.count  # how many more could be evaluated
        self.memo = {}

    def steer(self, rm, r0, M):
        k = self.s['steer']
        if k == 'classic':
            return np.full(rm.shape, 1 / M)
        if k == 'inverse':
            return rm / r0 / M
        q = (1 / rm**2).sum(1, keepdims=True)
        if k == 'true level':
            return 1 / (rm * r0 * q)
        return 1 / (rm * np.sqrt(q * M))

    def das(self, n0, n1, y):
        """Delay and sum for output samples n0..n1; y[row] is the recording from row n0 on."""
        n = np.arange(n0, n1)
        k = self.idx[n0:n1] + (n - n0)[:, None, None]
        fr = self.d[n0:n1] - self.idx[n0:n1]
        pad = np.concatenate([y, np.zeros((max(0, int(k.max(initial=0)) + 2 - len(y)), y.shape[1]))])
        m = np.arange(y.shape[1])
        r = (pad[k, m] * (1 - fr) + pad[k + 1, m] * fr) * self.amp[n0:n1]
        return r.sum(2), (r * r).sum(2)

    def plain(self, n):
        if n not in self.memo:
            self.memo[n] = self.das(0, n, self.y)
        p, a = self.memo[n]
        if 'Sq' not in self.s['cls']:
            return p
        return np.maximum(p**2 - a, 0) if self.s['r_diag'] else p**2

    def clean(self, n0, n1, eps):
        """CLEAN-T of one block of output samples; None when a decision is numerically ambiguous."""
        s = self.s
        y = np.array(self.y[n0:], copy=True)
        num = n1 - n0
        phi, ap = self.das(n0, n1, y)
        gam, gap = np.zeros_like(phi), np.zeros_like(phi)
        rdiag = 'Sq' in s['cls'] and s['r_diag']
        scale = float((phi**2).sum()) or 1.0
        # energy of the signals: the noise floor of differences in single precision
        for _ in range(s['n_iter']):
            raw = (phi**2 - ap).sum(0) if rdiag else (phi**2).sum(0)
            pw = raw.clip(min=0)
            im = int(np.argmax(pw))
            o = np.sort(np.delete(raw, im))
            if pw[im] <= eps * scale or (len(o) and pw[im] - max(o[-1], 0) < eps * scale):
                if not (pw[im] == 0 and raw.max() < -eps * scale):
                    return None
            tf = self.d[n0:n1, im] + np.arange(num)[:, None]
            h = phi[:, im] * self.r0[n0:n1, im]
            for m in range(y.shape[1]):
                if s['cls'] in TRAJ:
                    rows = np.arange(int(tf[:, m].min()), int(tf[:, m].max()) + 2)
                else:
                    rows = np.arange(num + 1) + self.idx[n0, im, m]
                rows = rows[rows < len(y)]
                y[rows, m] -= s['damp'] * np.interp(rows, tf[:, m], h / self.rm[n0:n1, im, m])
            nphi, nap = self.das(n0, n1, y)
            nraw = (nphi**2 - nap).sum(0) if rdiag else (nphi**2).sum(0)
            a, b = nraw.clip(min=0).sum(), pw.sum()
            if abs(a - b) < eps * scale:
                return None
            if a >= b:
                break
            gam[:, im] += s['damp'] * phi[:, im]
            gap[:, im] = ap[:, im]
            phi, ap = nphi, nap
        if 'Sq' not in s['cls']:
            return gam
        return gam**2 - s['damp'] ** 2 * gap if rdiag else gam**2


class P(Property):
    id = 'C15'
    technique = 'deterministic simulation: seeded geometries, trajectories, signals and pull schedules against a whole-recording reference'
    rule = (
        'One evaluation = one time-domain beamformer (8 classes, drawn array, grid, steering formulation, reference, weights, flow, '
        'trajectory with translation or rotation, convective amplification, precision) on one recording (0-400 samples, handed out as new '
        'arrays, views or a reused buffer, or read from memory), with 2-4 passes of drawn block sizes (1 to longer than the recording) '
        'whose pulls are interleaved, some abandoned, with settings changed in between. Every pass is compared with a plain '
        'evaluation of the formula on the whole recording, its number of samples with what the delays allow, and '
        'passes with each other. Non-trivial: at least one pass delivered samples. Distinct: by event-log digest.'
    )
    distinct_measure = 'digest of configuration, pull schedule and delivered values'
    assumptions = (
        'The last sample for which the interpolation needs the very last recorded sample may be left out (one sample).',
        'CLEAN-T deconvolves each requested block by itself (documented), so it is compared block by block; blocks with numerically ambiguous decisions (ties) are skipped and counted.',
        'Sources move slower than sound; with a reference vector they do not stand still; microphones are not all equally far from the origin with power weights.',
    )
    components = {'real': ['all time domain beamformers, IntegratorSectorTime', 'SamplesBuffer', 'Trajectory, SteeringVector, environments, grids', 'TimeSamples'],
                  'stub': ['numba kernels run as Python code', 'source with scripted block styles']}
    quick_runs = 1800
    quick_budget = 55
    thorough_runs = 200000
    batch = 4

    # -- scenarios ------------------------------------------------------------------------------------
    def scenario(self, rng, i, tier):
        cls = (FIXED + TRAJ)[i % 8]
        s = self.settings(rng, cls)
        ops = []
        np_ = rng.choice([1, 2, 2, 3])
        seq = []
        for p in range(np_):
            num = rng.choice([1, 2, 3, 5, 7, 16, 33, 64, rng.randrange(1, 90), s['n'] + rng.randrange(1, 50), 128])
            if 'Cleant' in cls and num < 5:
                num += 15
            seq.append(num)
        for p, num in enumerate(seq):
            ops.append(['open', p, num])
            if rng.random() < 0.3 and p:
                ops.append(['change', *self.change(rng, cls)])
                ops[-2], ops[-1] = ops[-1], ops[-2]
            for _ in range(rng.choice([0, 0, 1, 2, 5])):
                ops.append(['pull', rng.randrange(p + 1), rng.choice([1, 1, 2, 4])])
            if rng.random() < 0.1:
                ops.append(['close', rng.randrange(p + 1)])
        return dict(s=s, ops=ops, integ=rng.random() < 0.15, sched=rng.randrange(1 << 30))

    def settings(self, rng, cls):
        M = rng.choice([2, 3, 4, 5])
        G = rng.choice([1, 2, 3, 6]) if 'Cleant' not in cls else rng.choice([2, 3, 4])
        fs = float(rng.choice([1000, 2000, 8000, 25600]))
        s = dict(cls=cls, n=rng.choice([0, 1, 3, 20, 60, 100, 150, 256, 300, 400]), fs=fs, c=rng.choice([343.0, 343.0, 100.0, 1500.0]),
                 mics=[[round(rng.uniform(-0.5, 0.5), 3) for _ in range(M)] for _ in range(3)], grid=rng.choice(['rect', 'line', 'import']),
                 gd=[round(rng.uniform(-0.3, 0.3), 3), round(rng.uniform(0.3, rng.choice([1.0, 3.0])), 3), rng.choice([0.05, 0.2]), G],
                 steer=rng.choice(STEER), ref=rng.choice([1.0, 1.0, 0, 2.5]), weights=rng.choice(['none', 'none', 'power']),
                 r_diag=rng.random() < 0.5, flow=rng.choice([None, None, None, [rng.choice([0.1, 0.4]), [1.0, 0.5, 0.0]]]),
                 style=rng.choice(['fresh', 'view', 'reuse', 'samples']), dtype=rng.choice(['float64', 'float64', 'float32']),
                 seed=rng.randrange(1 << 30), tone=rng.random() < 0.3)
        if cls.endswith('Traj'):
            T = max(s['n'], 2) / fs
            cover = rng.choice([1.0, 1.0, 1.2, 2.0, 3.0, 0.6, 0.3])
            k = rng.choice([2, 3, 4, 6])
            v = min(0.6 * s['c'], rng.choice([0.0, 5.0, 40.0, 100.0]))
            T *= cover
            p0 = [rng.uniform(-0.2, 0.2) for _ in range(3)]
            dirn = [rng.uniform(-1, 1) for _ in range(3)]
            ln = sum(a * a for a in dirn) ** 0.5
            if v:
                pts = []
                for j in range(k):
                    t = T * j / (k - 1)
                    pts.append([t, [round(p0[q] + dirn[q] / ln * v * t * (1 + 0.02 * rng.random()), 6) for q in range(3)]])
            else:
                k, pts = 2, [[0.0, p0], [T, p0]]
                if rng.random() < 0.6:  # moves only later: the velocity at the beginning is zero
                    pts = [[0.0, p0], [T, [p0[0] + 0.01, p0[1], p0[2]]]]
            s.update(points=pts, rvec=rng.choice([[0, 0, 0], [0, 0, 0], [0, 0, 1.0], [0.2, 1.0, 0]]), conv_amp=rng.random() < 0.4,
                     precision=rng.choice([64, 64, 32]))
            if pts[0][1] == pts[-1][1]:
                s['rvec'] = [0, 0, 0]
        if 'Cleant' in cls:
            s.update(damp=rng.choice([0.3, 0.6, 1.0]), n_iter=rng.choice([0, 1, 2, 4]))
        return s

    def change(self, rng, cls):
        o = [['steer', rng.choice(STEER)], ['ref', rng.choice([1.0, 2.5, 0])], ['c', rng.choice([343.0, 200.0])], ['weights', rng.choice(['none', 'power'])],
             ['z', rng.choice([0.4, 0.9])], ['mics', 0.01]]
        if 'Sq' in cls:
            o.append(['r_diag', rng.random() < 0.5])
        if cls.endswith('Traj'):
            o += [['conv_amp', rng.random() < 0.5], ['precision', rng.choice([32, 64])], ['points', 0.02]]
        return rng.choice(o)

    def shrink(self, sc):
        yield from generic_shrink(sc, ('ops',))
        s = sc['s']
        if sc['integ']:
            yield dict(sc, integ=False)
        for k, v in (('weights', 'none'), ('flow', None), ('style', 'fresh'), ('tone', False), ('dtype', 'float64'), ('conv_amp', False),
                     ('rvec', [0, 0, 0]), ('steer', 'classic'), ('ref', 1.0), ('precision', 64), ('grid', 'line')):
            if k in s and s[k] != v:
                yield dict(sc, s=dict(s, **{k: v}))
        for j, o in enumerate(sc['ops']):
            if o[0] == 'pull' and o[2] > 1:
                yield dict(sc, ops=sc['ops'][:j] + [[o[0], o[1], 1]] + sc['ops'][j + 1 :])

    def nontrivial(self, sc, rec):
        return rec['probes'].get('samples', 0) > 0

    # -- model ----------------------------------------------------------------------------------------
    def build(self, s):
        import acoular as ac

        from dst.lib import make_source

        M = len(s['mics'][0])
        r = np.random.Generator(np.random.PCG64(s['seed']))
        x = r.standard_normal((s['n'], M))
        if s['tone']:
            x = np.sin(2 * np.pi * 0.03 * (np.arange(s['n'])[:, None] + r.uniform(0, 9, M))) + 0.05 * x
        x = x.astype(s['dtype'])
        if s['style'] == 'samples' and s['n']:
            src = ac.TimeSamples(data=x.copy(), sample_freq=s['fs'])
        else:
            src = make_source(x, s['fs'], style='fresh' if s['style'] == 'samples' else s['style'], tag='x')
        x0, z, inc, G = s['gd']
        if s['grid'] == 'rect':
            nx = 1 if G < 2 else 2
            grid = ac.RectGrid(x_min=x0, x_max=x0 + inc * (nx - 1), y_min=x0 / 2, y_max=x0 / 2 + inc * (max(1, G // nx) - 1), z=z, increment=inc)
        elif s['grid'] == 'line':
            grid = ac.LineGrid(loc=(x0, -x0, z), direction=(1.0, 0.2, 0.1), length=inc * max(1, G - 1), num_points=max(G, 2))
        else:
            grid = ac.ImportGrid(pos=np.array([[x0 + inc * j, 0.1 * j, z + 0.03 * j] for j in range(G)]).T)
        env = ac.Environment(c=s['c']) if not s['flow'] else ac.UniformFlowEnvironment(c=s['c'], ma=s['flow'][0], fdv=s['flow'][1])
        st = ac.SteeringVector(mics=ac.MicGeom(pos_total=np.array(s['mics'])), grid=grid, env=env, steer_type=s['steer'])
        st.ref = s['ref'] or np.array([0.0, 0.0, 0.0])
        kw = dict(source=src, steer=st, weights=s['weights'])
        if s['cls'].endswith('Traj'):
            kw.update(trajectory=ac.Trajectory(points={t: tuple(p) for t, p in s['points']}), rvec=np.array(s['rvec'], float), conv_amp=s['conv_amp'],
                      precision=s['precision'])
        if 'Cleant' in s['cls']:
            kw.update(damp=s['damp'], n_iter=s['n_iter'])
        if 'Sq' in s['cls']:
            kw['r_diag'] = s['r_diag']
        s['gpos'] = np.array(grid.pos).tolist()
        return getattr(ac, s['cls'])(**kw), x

    def valid(self, s):
        """Power weights are defined for microphones in at least two distance classes."""
        if s['weights'] == 'power':
            r = distances(np.zeros((3, 1)), np.array(s['mics'], float), s['c'], s['flow']).ravel()
            if len(np.unique((r / r.max()).round(decimals=1))) < 2:
                return False
        if s.get('points') and s['c'] < 150:
            p = s['points']
            v = max(np.linalg.norm(np.subtract(b[1], a[1])) / (b[0] - a[0]) for a, b in zip(p, p[1:]))
            if v > 0.7 * s['c']:
                return False
        return True

    # -- execution ------------------------------------------------------------------------------------
    def execute(self, sc, run):
        import acoular as ac

        ac.config.global_caching = 'none'
        np.seterr(all='ignore')
        s = dict(sc['s'])
        if not self.valid(s):
            s['weights'] = 'none'
        bf, x = self.build(s)
        out = bf
        if sc['integ'] and s['grid'] == 'rect':
            g = bf.steer.grid
            out = ac.IntegratorSectorTime(source=bf, grid=g, sectors=[[g.x_min, g.y_min, g.x_max, g.y_max], [g.x_min, g.y_min, g.x_min, g.y_min]])
        self.refs = {}
        passes = {}
        counts = {}
        for op in sc['ops']:
            run.steps += 1
            if op[0] == 'change':
                # running passes were started with the settings before
                for q in passes.values():
                    self.drain(q, run)
                new = dict(s)
                self.edit(bf, new, op)
                if not self.valid(new):
                    raise Skip
                s = new
                counts = {}
                run.fault('settings_changed')
            elif op[0] == 'open':
                p = dict(gen=out.result(op[2]), num=op[2], s=s, got=[], end=False, blocks=[], counts=counts)
                passes[op[1]] = p
            elif op[1] not in passes:
                continue
            elif op[0] == 'pull':
                for _ in range(op[2]):
                    self.pull(passes[op[1]], run)
                if len(passes) > 1:
                    run.fault('interleaved_pull')
            elif op[0] == 'close':
                passes[op[1]]['gen'].close()
                passes[op[1]]['end'] = passes[op[1]]['closed'] = True
                run.fault('abandoned_pass')
        for q in passes.values():
            self.drain(q, run)
        for k, q in passes.items():
            self.judge(q, x, out is not bf, run, f'pass {k} with blocks of {q["num"]}')
        run.simtime += len(passes) * s['n'] / s['fs']

    def edit(self, bf, s, op):
        import acoular as ac

        _, what, v = op
        if what == 'steer':
            s['steer'] = bf.steer.steer_type = v
        elif what == 'ref':
            s['ref'] = v
            bf.steer.ref = v or np.array([0.0, 0.0, 0.0])
        elif what == 'c':
            s['c'] = bf.steer.env.c = v
        elif what in ('weights', 'r_diag', 'conv_amp', 'precision'):
            s[what] = v
            setattr(bf, what, v)
        elif what == 'z':
            g = np.array(s['gpos'], float)
            g[2] += v
            s['gpos'] = g.tolist()
            if s['grid'] == 'rect':
                bf.steer.grid.z += v
            elif s['grid'] == 'line':
                x, y, z = bf.steer.grid.loc
                bf.steer.grid.loc = (x, y, z + v)
            else:
                bf.steer.grid.pos = g
        elif what == 'mics':
            s['mics'] = (np.array(s['mics']) + v).tolist()
            bf.steer.mics.pos_total = np.array(s['mics'])
        elif what == 'points':
            s['points'] = [[t, [p[0], p[1] + v, p[2]]] for t, p in s['points']]
            bf.trajectory = ac.Trajectory(points={t: tuple(p) for t, p in s['points']})

    def pull(self, p, run):
        if p['end']:
            return
        try:
            b = next(p['gen'])
        except StopIteration:
            p['end'] = True
            return
        p['blocks'].append(len(b))
        p['got'].append(np.array(b, copy=True))
        run.log('block', p['num'], p['got'][-1])

    def drain(self, p, run):
        while not p['end']:
            self.pull(p, run)
        run.state('blocks', p['s']['cls'], p['num'], tuple(p['blocks'][-2:]))

    def judge(self, p, x, integ, run, where):
        s = p['s']
        key = repr(sorted(s.items(), key=lambda a: a[0]))
        if key not in self.refs:
            self.refs[key] = Ref(s, x)
        ref = self.refs[key]
        single = s.get('precision', 64) == 32
        G = len(s['gpos'][0])
        got = np.concatenate(p['got']) if p['got'] else np.zeros((0, G if not integ else 2))
        n = len(got)
        run.probe('samples', n)
        run.probe('passes')
        where = f'{s["cls"]}'
        det = f'blocks of {p["num"]} -> {p["blocks"][-3:]}, {s["n"]} recorded: '
        if any(k != p['num'] for k in p['blocks'][:-1]) or any(k < 1 or k > p['num'] for k in p['blocks']):
            raise Violation('irregular-blocks', where, det + str(p['blocks']))
        if not p.get('closed'):
            lo, hi = max(0, ref.count - 1 - single), ref.count + single
            if s['cls'] in TRAJ and ref.limit == ref.count and not single:
                lo = max(0, min(lo, ref.count))
            if not lo <= n <= hi:
                raise Violation('wrong-number-of-samples', where, det + f'{n} samples delivered, delays allow {ref.count}')
            if 'Cleant' not in s['cls'] and p['counts'].setdefault('n', n) != n:
                raise Violation('number-depends-on-blocks', where, det + f'{n} samples, another pass {p["counts"]["n"]}')
        n = min(n, ref.limit)
        got = got[:n]
        if 'Cleant' not in s['cls']:
            want = ref.plain(n)
        else:
            want = np.full((n, G), np.nan)
            for a in range(0, n, p['num']):
                w = ref.clean(a, min(n, a + p['num']), 1e-3 if single else 1e-9)
                if w is None:
                    run.probe('ambiguous_blocks')
                else:
                    want[a : a + len(w)] = w
                    run.probe('clean_blocks')
        tol = 2e-3 if single else 1e-8
        if integ:
            pos = np.where(want > 0, want, np.where(np.isnan(want), np.nan, 0))
            g = np.array(s['gpos'])
            e = 1e-9
            corner = (g[0] < g[0].min() + e) & (g[1] < g[1].min() + e)
            want = np.stack([pos.sum(1), pos[:, corner].sum(1)], 1)
        ok = np.isfinite(want).all(1)
        scale = max(float(np.abs(x).max(initial=0)), 1e-12) * float(np.abs(ref.amp).max(initial=1e-12)) * float(ref.w.max()) * len(s['mics'][0])
        if 'Sq' in s['cls']:
            scale = scale**2
        if integ:
            scale *= G
        bad = ~np.isfinite(got[ok])
        err = np.abs(np.nan_to_num(got[ok]) - want[ok])
        if bad.any() or err.max(initial=0) > tol * scale:
            k = np.argwhere(bad | (err > tol * scale))[0]
            raise Violation('wrong-value', where, det + f'sample {k.tolist()}: {got[ok][tuple(k)]} instead of {want[ok][tuple(k)]} (scale {scale:.3g})')


PROPERTY = P()
