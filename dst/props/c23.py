"""C23: simulated microphone signals equal the emitted signal at the time of emission over the distance, sample by sample."""

import itertools

import numpy as np

from dst.core import Property, Skip, Violation, generic_shrink
from dst.props.c15 import distances, spline

POINT = ['PointSource', 'PointSourceDipole', 'LineSource', 'MovingPointSource', 'MovingLineSource']
KINDS = POINT + ['SourceMixer', 'PointSourceConvolve', 'UncorrelatedNoiseSource']
MOVING = ('MovingPointSource', 'MovingLineSource')
LATE = 'MovingLineSource'  # known finding: one sample late


def unit(v):
    v = np.asarray(v, float)
    return v / np.sqrt((v * v).sum())


class Ref:
    """Candidates of every sample: arrays (K, N, M) and the earliest and latest end of the stream."""

    def __init__(self, s, sig, late=False):
        # s: settings, sig: emitted signal
        from scipy.signal import resample

        self.s = s
        cls = s['cls']
        N, fs, up, c = len(sig), s['fs'], s['up'], s['c']
        self.N, self.M = N, len(s['mics'][0])
        self.mpos = np.array(s['mics'], float)
        self.u = resample(sig, N * up)
        self.t = s['start'] + (np.arange(N) + (late is True)) / fs
        self.end = [N, N]
        self.rtol = 1e-9
        loc = np.array(s['loc'], float)[:, None]
        amp = np.abs(self.u).max(initial=0)
        if cls == 'PointSource':
            r = distances(loc, self.mpos, c, s['flow'])[0]
            self.cand = self.part(self.t[:, None] - r / c, r, 1e-6, s['prepadding'])
            self.scale = amp / r.min()
        elif cls == 'PointSourceDipole':
            d = np.array(s['direction'], float) * 1e-5
            dist = c / fs * np.sqrt((d * d).sum())
            h = (unit(d) * dist / 2)[:, None]
            r = distances(loc, self.mpos, c, s['flow'])[0]
            p = [distances(loc + q * h, self.mpos, c, s['flow'])[0] for q in (1, -1)]
            a, b = (self.part(self.t[:, None] - q / c, q, 1e-6) for q in p)
            self.cand = np.array([(x - y) * r / dist for x, y in itertools.product(a, b)])
            self.scale = amp / r.min() + 1e-5 * amp / dist  # rounding of nearly equal values
        elif cls == 'LineSource':
            parts = []
            for k in range(s['num_sources']):
                p = loc + (unit(s['direction']) * s['length'] / s['num_sources'] * k)[:, None]
                r = distances(p, self.mpos, c, s['flow'])[0]
                parts.append(s['strength'][k] * self.part(self.t[:, None] - r / c, r, 1e-6))
            self.cand = np.array([sum(x) for x in itertools.product(*parts)])
            self.scale = amp * np.abs(s['strength'][: s['num_sources']]).sum() / 0.05
        else:
            self.moving(s, c, amp, late)

    def part(self, te, r, delta, pad='loop', wrap=None):
        """Signal at the emission times te (N, M) over the distances, for all roundings within delta."""
        s = self.s
        x = (te - s['start_t']) * s['fs'] * s['up']
        n = len(self.u)
        lo = np.where(x >= delta, np.floor(x + 0.5 - delta), np.floor(x - delta)).astype(int)
        hi = np.where(x >= delta, np.floor(x + 0.5 + delta), np.ceil(x + 0.5 + delta)).astype(int)
        if s['cls'] == 'PointSource':
            pass
        else:
            if lo.min(initial=0) < -n:
                raise Skip
            over = [np.argmax(k.max(1) >= n) if (k.max(1) >= n).any() else self.N for k in (hi, lo)]
            self.end = [min(a, b) for a, b in zip(self.end, over)]
        out = []
        for k in range(3):
            i = np.minimum(lo + k, hi)
            out.append(self.u[i % n] / r)
        if pad == 'zeros':
            for o in out[:2]:
                o[x < -1e-6] = 0
            out[2][x < 1e-6] = 0
            out[1][x < -1e-6] = 0
        if (hi - lo).max(initial=0) == 0 and pad != 'zeros':
            out = out[:1]
        return np.array(out)

    def moving(self, s, c, amp, late):
        pts = {float(t): p for t, p in s['points']}
        offs = [np.zeros(3)]
        if s['cls'] == 'MovingLineSource':
            offs = [unit(s['direction']) * s['length'] / s['num_sources'] * k for k in range(s['num_sources'])]
        M = self.M
        parts = []
        self.rtol = 1e-4
        for k, o in enumerate(offs):
            te = np.repeat(self.t[:, None], M, 1)
            for _ in range(400):
                x = spline(pts, te.ravel()).reshape(3, -1, M) + o[:, None, None]
                g = x - self.mpos[:, None, :]
                r = np.sqrt((g * g).sum(0))
                new = self.t[:, None] - r / c
                d = np.abs(new - te).max(initial=0)
                te = new
                if d < 1e-13:
                    break
            else:
                raise Skip
            v = spline(pts, te.ravel(), 1).reshape(3, -1, M)
            speed = np.sqrt((v * v).sum(0))
            if speed.max(initial=0) > 0.5 * c or r.min(initial=1) < 0.05:
                raise Skip
            # the iteration stops at 0.1 upsampled samples
            self.rtol = max(self.rtol, 1e-4 + 0.4 * float((speed / r).max(initial=0)) / s['up'] / s['fs'] * (3 if s['conv_amp'] else 1))
            w = s['strength'][k] if s['cls'] == 'MovingLineSource' else 1.0
            if s['conv_amp'] and s['cls'] == 'MovingPointSource':
                rel = x if late == 'origin' else g
                rel = rel / np.sqrt((rel * rel).sum(0))
                r = r * (1 - (v * rel).sum(0) / c) ** 2
            if s['cls'] == 'MovingLineSource':  # the distance of the other microphones is that at the emission time of the first
                self.rtol = max(self.rtol, 1e-3 + 3 * float((speed.max(1) * (te.max(1) - te.min(1)) / r.min(1)).max(initial=0)))
            parts.append(w * self.part(te, r, 0.15))
            self.rmin = r.min(initial=1)
        self.cand = np.array([sum(x) for x in itertools.product(*parts)])
        self.scale = amp / 0.05 * sum(np.abs(s['strength'][: len(offs)]) if 'strength' in s else [1.0])
        self.sub = sum(np.abs(p).max(0) for p in parts)

    def mismatch(self, got):
        """(sample, channel) of the first value that differs from the definition."""
        n = min(len(got), self.end[1])
        got = np.asarray(got)[:n]
        tol = self.rtol * (self.sub[:n] if self.rtol > 1e-6 else np.abs(got)) + 1e-10 * self.scale
        bad = ~((np.abs(self.cand[:, :n] - got[None]) <= tol).any(0))
        return [int(k) for k in np.argwhere(bad)[0]] if bad.any() else None


class P(Property):
    id = 'C23'
    technique = 'deterministic simulation: seeded sources, trajectories, signals and pull schedules against a sample-by-sample definition'
    rule = (
        'One evaluation = one simulated source (stationary and moving point sources, dipoles, line sources, uncorrelated noise, '
        'convolved sources, mixtures of up to three of them) with drawn signal, geometry, flow, speed of sound, start times, padding, '
        'upsampling, trajectory and weights, and 1-4 passes of drawn block sizes (1 to longer than the signal) whose pulls are '
        'interleaved, some abandoned, with settings changed in between. Every sample of every pass is compared with the emitted '
        'signal at the emission time (solved by fixed-point iteration) over the distance; roundings that are undecided '
        'numerically allow both neighbours. Non-trivial: at least one pass delivered samples. Distinct: by event-log digest.'
    )
    distinct_measure = 'digest of configuration, pull schedule and delivered values'
    assumptions = (
        'The signal object gives the emitted signal; resampling is band limited (scipy.signal.resample).',
        'Sources move with less than half the speed of sound and stay 5 cm away from microphones.',
        'Moving dipoles, rotating line sources, convective amplification of moving line sources and spherical harmonics are not judged here.',
        'Moving line sources: the distance may be that at the emission time of the first microphone (tolerance by the speed).',
    )
    components = {'real': ['all sources named above, SourceMixer, TimeConvolve', 'signal generators, Trajectory, environments, MicGeom'],
                  'stub': ['numba kernels run as Python code']}
    quick_runs = 4000
    quick_budget = 60
    thorough_runs = 300000
    batch = 8

    # -- scenarios ------------------------------------------------------------------------------------
    def settings(self, rng, cls, base=None):
        fs = float(rng.choice([1000, 2000, 8000]))
        M = rng.choice([1, 2, 3, 4])
        s = dict(cls=cls, n=rng.choice([1, 2, 5, 20, 33, 64, 100, 150]), fs=fs, up=rng.choice([1, 2, 4, 16]), c=rng.choice([343.0, 100.0, 1500.0]),
                 sig=rng.choice(['W', 'W', 'S', 'P']), seed=rng.randrange(1 << 16), rms=rng.choice([0.5, 1.0, 2.0]),
                 mics=[[round(rng.uniform(-0.3, 0.3), 3) for _ in range(M)] for _ in range(3)],
                 loc=[round(rng.uniform(-0.4, 0.4), 3), round(rng.uniform(-0.4, 0.4), 3), round(rng.uniform(0.4, rng.choice([0.6, 3.0])), 3)],
                 start_t=rng.choice([0.0, 0.0, round(rng.uniform(0, 0.02), 4)]), start=rng.choice([0.0, 0.0, round(rng.uniform(0, 0.03), 4)]))
        if base:
            for k in ('n', 'fs', 'mics', 'c'):
                s[k] = base[k]
        s['flow'] = rng.choice([None, None, [rng.choice([0.1, 0.4]), [1.0, 0.5, 0.0]]])
        s['prepadding'] = rng.choice(['loop', 'zeros'])
        s['direction'] = [round(rng.uniform(0.1, 1), 2) for _ in range(3)]
        if cls == 'PointSourceDipole' and rng.random() < 0.5:
            s['direction'] = [d * 3e4 for d in s['direction']]
        s['length'] = round(rng.uniform(0.1, 1.0), 2)
        s['num_sources'] = rng.choice([1, 2, 3])
        s['strength'] = [round(rng.uniform(-1, 2), 2) for _ in range(3)]
        s['conv_amp'] = rng.random() < 0.3 and cls == 'MovingPointSource'
        if cls in MOVING:
            s['flow'] = None
            s['up'] = rng.choice([1, 2, 4])
            T = s['n'] / fs + 0.05
            v = rng.choice([0.0, 3.0, 20.0, 0.3 * s['c']])
            d = unit([rng.uniform(-1, 1) for _ in range(3)])
            k = rng.choice([2, 3, 5])
            s['points'] = [[round(-0.05 + j * (T + 0.05) / (k - 1), 6),
                            [round(s['loc'][q] + d[q] * v * (j * (T + 0.05) / (k - 1) - T / 2), 6) for q in range(3)]] for j in range(k)]
        if cls == 'SourceMixer':
            s['parts'] = [self.settings(rng, rng.choice(POINT), s) for _ in range(rng.choice([1, 2, 3]))]
            s['weights'] = rng.choice([None, [round(rng.uniform(-2, 2), 2) for _ in s['parts']]])
        if cls == 'PointSourceConvolve':
            s['kernel'] = [rng.choice([1, 2, 7, 30]), rng.choice([1, M]), rng.randrange(1 << 16)]
        if cls == 'UncorrelatedNoiseSource':
            s['sig'] = rng.choice(['W', 'P', 'F'])
            s['seeds'] = rng.choice([None, [rng.randrange(99) for _ in range(M)]])
        return s

    def scenario(self, rng, i, tier):
        s = self.settings(rng, KINDS[i % len(KINDS)])
        ops = []
        for p in range(rng.choice([1, 2, 2, 3, 4])):
            if p and rng.random() < 0.4:
                ops.append(['change', *self.change(rng, s)])
            ops.append(['open', p, rng.choice([1, 2, 3, 7, 16, 33, 64, s['n'], s['n'] + 1, max(1, s['n'] // 2), rng.randrange(1, 200)])])
            for _ in range(rng.choice([0, 0, 1, 2, 5])):
                ops.append(['pull', rng.randrange(p + 1), rng.choice([1, 1, 2, 4])])
            if rng.random() < 0.1:
                ops.append(['close', rng.randrange(p + 1)])
        return dict(s=s, ops=ops)

    def change(self, rng, s):
        o = [['rms', rng.choice([0.7, 1.3])], ['seed', rng.randrange(1 << 16)]]
        if s['cls'] in POINT:
            o += [['start', round(rng.uniform(0, 0.03), 4)], ['start_t', round(rng.uniform(0, 0.02), 4)], ['up', rng.choice([1, 2, 3])], ['c', s['c'] * 1.2],
                  ['mics', 0.01]]
            if s['cls'] not in MOVING:
                o += [['loc', [0.1, -0.1, round(rng.uniform(0.4, 1), 2)]]] * 2
            if s['cls'] in ('PointSourceDipole', 'LineSource', 'MovingLineSource'):
                o += [['direction', [round(rng.uniform(0.1, 1), 2) for _ in range(3)]]]
            if 'Line' in s['cls']:
                o += [['length', round(rng.uniform(0.1, 1.0), 2)], ['num_sources', rng.choice([1, 2, 3])],
                      ['strength', [round(rng.uniform(-1, 2), 2) for _ in range(3)]]]
            if s['cls'] == 'PointSource':
                o += [['prepadding', rng.choice(['loop', 'zeros'])]]
        if s['cls'] == 'SourceMixer':
            o += [['weights', [round(rng.uniform(-2, 2), 2) for _ in s['parts']]]] * 2
        return rng.choice(o)

    def shrink(self, sc):
        yield from generic_shrink(sc, ('ops',))
        s = sc['s']
        if s['cls'] == 'SourceMixer':
            for p in s['parts']:
                yield dict(sc, s=dict(s, parts=[p], weights=None))
        for k, v in (('flow', None), ('start', 0.0), ('start_t', 0.0), ('up', 1), ('sig', 'W'), ('num_sources', 1), ('conv_amp', False), ('c', 343.0), ('n', 5)):
            if s[k] != v:
                yield dict(sc, s=dict(s, **{k: v}))

    def nontrivial(self, sc, rec):
        return rec['probes'].get('samples', 0) > 0

    # -- model ----------------------------------------------------------------------------------------
    def signal(self, s, seed=None):
        import acoular as ac

        kw = dict(num_samples=s['n'], sample_freq=s['fs'])
        if s['sig'] == 'S':
            return ac.SineGenerator(freq=s['fs'] * 0.07, phase=s['seed'] % 7, amplitude=s['rms'], **kw)
        kw.update(rms=s['rms'], seed=s['seed'] if seed is None else seed)
        if s['sig'] == 'P':
            return ac.PNoiseGenerator(depth=3, **kw)
        if s['sig'] == 'F':
            return ac.FiltWNoiseGenerator(ar=np.array([1.0, -0.5]), ma=np.array([1.0, 0.3, 0.1]), **kw)
        return ac.WNoiseGenerator(**kw)

    def kernel(self, s):
        L, m, seed = s['kernel']
        return np.random.Generator(np.random.PCG64(seed)).standard_normal((L, m))

    def build(self, s, mics=None):
        import acoular as ac

        mics = mics or ac.MicGeom(pos_total=np.array(s['mics'], float))
        cls = s['cls']
        C = getattr(ac, cls)
        if cls == 'SourceMixer':
            kw = dict(sources=[self.build(p, mics) for p in s['parts']])
            if s['weights']:
                kw['weights'] = np.array(s['weights'])
            return C(**kw)
        sig = self.signal(s)
        if cls == 'UncorrelatedNoiseSource':
            return C(signal=sig, mics=mics, **({'seed': np.array(s['seeds'])} if s['seeds'] else {}))
        env = ac.Environment(c=s['c']) if not s['flow'] else ac.UniformFlowEnvironment(c=s['c'], ma=s['flow'][0], fdv=s['flow'][1])
        kw = dict(signal=sig, mics=mics, env=env)
        if cls == 'PointSourceConvolve':
            return C(loc=tuple(s['loc']), kernel=self.kernel(s), **kw)
        kw.update(start=s['start'], start_t=s['start_t'], up=s['up'])
        if cls in MOVING:
            kw.update(trajectory=ac.Trajectory(points={t: tuple(p) for t, p in s['points']}), conv_amp=s['conv_amp'])
        else:
            kw['loc'] = tuple(s['loc'])
        if cls == 'PointSource':
            kw['prepadding'] = s['prepadding']
        if cls in ('PointSourceDipole', 'LineSource', 'MovingLineSource'):
            kw['direction'] = tuple(s['direction'])
        if 'Line' in cls:
            kw.update(length=s['length'], num_sources=s['num_sources'], source_strength=np.array(s['strength']), coherence='coherent')
        return C(**kw)

    def edit(self, o, s, what, v):
        import acoular as ac

        if what in ('rms', 'seed'):
            if s['cls'] == 'SourceMixer':
                for p, q in zip(o.sources, s['parts']):
                    self.edit(p, q, what, v)
            elif s['sig'] == 'S':
                if what == 'rms':
                    o.signal.amplitude = s['rms'] = v
            else:
                setattr(o.signal, what, v)
                s[what] = v
        elif what == 'c':
            s['c'] = o.env.c = v
        elif what == 'mics':
            s['mics'] = (np.array(s['mics']) + v).tolist()
            o.mics.pos_total = np.array(s['mics'])
        elif what == 'strength':
            s[what] = v
            o.source_strength = np.array(v)
        elif what == 'weights':
            s[what] = v
            o.weights = np.array(v)
        else:
            s[what] = v
            setattr(o, what, tuple(v) if isinstance(v, list) else v)

    # -- execution ------------------------------------------------------------------------------------
    def execute(self, sc, run):
        import copy
        import warnings

        import acoular as ac

        warnings.simplefilter('ignore')
        ac.config.global_caching = 'none'
        s = copy.deepcopy(sc['s'])
        self.refs = {}
        self.strict = sc.get('strict')
        try:
            src = self.build(s)
        except Exception as e:  # noqa: BLE001
            raise Violation('error', s['cls'], f'{type(e).__name__}: {e}') from e
        passes = {}
        for op in sc['ops']:
            run.steps += 1
            if op[0] == 'change':
                for q in passes.values():
                    self.drain(q, run)
                s = copy.deepcopy(s)
                self.edit(src, s, op[1], op[2])
                run.fault('settings_changed')
            elif op[0] == 'open':
                passes[op[1]] = dict(gen=src.result(op[2]), num=op[2], s=s, got=[], end=False, closed=False, announced=src.num_samples)
            elif op[1] not in passes:
                continue
            elif op[0] == 'pull':
                for _ in range(op[2]):
                    self.pull(passes[op[1]], run)
                if len(passes) > 1:
                    run.fault('interleaved_pull')
            elif op[0] == 'close':
                passes[op[1]]['gen'].close()
                passes[op[1]]['end'] = passes[op[1]]['closed'] = True
                run.fault('abandoned_pass')
        for q in passes.values():
            self.drain(q, run)
        for q in passes.values():
            self.judge(q, run)
        run.simtime += len(passes) * s['n'] / s['fs']

    def pull(self, p, run):
        if p['end']:
            return
        try:
            b = next(p['gen'])
        except StopIteration:
            p['end'] = True
            return
        except Exception as e:  # noqa: BLE001
            raise Violation('error', p['s']['cls'], f'blocks of {p["num"]}: {type(e).__name__}: {e}') from e
        p['got'].append(np.array(b, copy=True))
        run.log('block', p['num'], p['got'][-1])

    def drain(self, p, run):
        while not p['end']:
            self.pull(p, run)
        run.state('blocks', p['s']['cls'], p['num'], len(p['got']))

    def ref(self, s, late=False):
        key = repr(s) + str(late)
        if key not in self.refs:
            self.refs[key] = Ref(s, self.signal(s).signal(), late)
        return self.refs[key]

    def variants(self, s):
        """References of one source: the definition first, then the recorded deviations."""
        out = [self.ref(s)]
        if not self.strict:
            if s['cls'] == LATE:
                out.append(self.ref(s, True))
            if s['conv_amp']:
                out.append(self.ref(s, 'origin'))
        return out

    def judge(self, p, run):
        s = p['s']
        M = len(s['mics'][0])
        cls = s['cls']
        sizes = [len(b) for b in p['got']]
        got = np.concatenate(p['got']) if p['got'] else np.zeros((0, M))
        n = len(got)
        run.probe('samples', n)
        run.probe('passes')
        det = f'blocks of {p["num"]} -> {sizes[-3:]}: '
        if any(k != p['num'] for k in sizes[:-1]) or any(not 1 <= k <= p['num'] for k in sizes):
            raise Violation('irregular-blocks', cls, det + str(sizes))
        if got.shape[1] != M:
            raise Violation('wrong-channels', cls, det + f'{got.shape[1]} channels for {M} microphones')
        if cls in POINT:
            refs = self.variants(s)
            ends = refs[0].end
            bad = [r.mismatch(got) for r in refs]
            ends = [min(r.end[0] for r in refs), max(r.end[1] for r in refs)]
            want = refs[0].cand[0]
        elif cls == 'SourceMixer':
            w = s['weights'] or [1.0] * len(s['parts'])
            combos = [Mix(rs, w) for rs in itertools.product(*(self.variants(q) for q in s['parts']))]
            bad = [m.mismatch(got) for m in combos]
            ends = [min(m.end[0] for m in combos), max(m.end[1] for m in combos)]
            want = combos[0].low
        else:
            if cls == 'PointSourceConvolve':
                x, k = self.signal(s).signal(), self.kernel(s)
                want = np.array([np.convolve(x, k[:, m % k.shape[1]]) for m in range(M)]).T
            else:
                seeds = s['seeds'] or [s['seed'] + m for m in range(M)]
                want = np.array([self.signal(s, k).signal() for k in seeds]).T
            ends = [len(want)] * 2
            tol = 1e-10 * max(np.abs(want).max(initial=0), 1e-300) * (s['kernel'][0] if 'kernel' in s else 1)
            d = np.abs(got[: len(want)] - want[:n]) > tol
            bad = [[int(k) for k in np.argwhere(d)[0]] if d.any() else None]
        if not p['closed'] and not ends[0] <= n <= ends[1] or n > ends[1]:
            raise Violation('wrong-number-of-samples', cls, det + f'{n} samples instead of {ends}')
        if not p['closed'] and ends[0] == ends[1] and ends[0] == s['n'] and n != p['announced'] and 'kernel' not in s:
            raise Violation('wrong-number-of-samples', cls, det + f'{n} samples, {p["announced"]} announced')
        if all(b is not None for b in bad):
            k = bad[0]
            raise Violation('wrong-value' if not self.strict else self.strict, cls, det + f'sample {k}: {got[tuple(k)]:.8g} instead of {want[tuple(k)]:.8g}')


class Mix:
    """Weighted sum of sources; interval bounds of every sample."""

    def __init__(self, refs, w):
        lo = [(r.cand * a).min(0) for r, a in zip(refs, w)]
        hi = [(r.cand * a).max(0) for r, a in zip(refs, w)]
        tol = [r.rtol * abs(a) * (r.sub if r.rtol > 1e-6 else np.abs(r.cand).max(0)) + 1e-10 * r.scale * abs(a) for r, a in zip(refs, w)]
        self.low, self.high, self.tol = sum(lo), sum(hi), sum(tol)
        self.end = [min(r.end[j] for r in refs) for j in (0, 1)]

    def mismatch(self, got):
        n = min(len(got), self.end[1])
        bad = (got[:n] < (self.low - self.tol)[:n]) | (got[:n] > (self.high + self.tol)[:n])
        return [int(k) for k in np.argwhere(bad)[0]] if bad.any() else None


PROPERTY = P()
