"""C18: block-by-block estimates equal their textbook definition applied to the whole signal."""

import math
import warnings

import numpy as np

from dst.core import Property, Skip, Violation

WINDOWS = {'Rectangular': np.ones, 'Hanning': np.hanning, 'Hamming': np.hamming, 'Bartlett': np.bartlett, 'Blackman': np.blackman}
OVERLAPS = {'None': 1, '50%': 2, '75%': 4, '87.5%': 8}


def rnd(seed):
    return np.random.Generator(np.random.PCG64(seed))


def butter_band(lo, hi, order):
    """Digital Butterworth band pass as (z, p, k) from its definition; lo, hi relative to the Nyquist frequency."""
    from scipy.signal import bilinear_zpk

    w1, w2 = 4 * math.tan(math.pi * lo / 2), 4 * math.tan(math.pi * hi / 2)  # prewarped, fs = 2
    bw, w0 = w2 - w1, math.sqrt(w1 * w2)
    p = []
    for k in range(order):
        q = np.exp(1j * math.pi * (2 * k + order + 1) / (2 * order)) * bw / 2
        r = np.sqrt(q * q - w0 * w0 + 0j)
        p += [q + r, q - r]
    return bilinear_zpk(np.zeros(order), np.array(p), bw**order, 2.0)


def band_edges(band, fs, frac, order, half):
    """Edges of the octave or third octave band, widened so that the Butterworth band pass has the noise bandwidth of the ideal one."""
    f = 2.0 ** (1 / (2.0 * frac))
    b = math.pi / (2 * order) / math.sin(math.pi / (2 * order)) * 2 / (f - 1 / f)
    a = (1 + math.sqrt(1 + b * b)) / b
    if half:
        a *= {6: 1.01, 5: 1.012, 4: 1.016, 3: 1.022, 2: 1.036, 1: 1.083}.get(order, 1.0) ** (3 / frac)
    fr = 2 * band / fs
    return fr / a, fr * a


def run_zpk(zpk, x):
    """Recursive filter over the whole signal, section by section, starting at rest."""
    from scipy.signal import lfilter, zpk2sos

    for s in zpk2sos(*zpk):
        x = lfilter(s[:3], s[3:], x, axis=0)
    return x


# -- time signal operations: draw, make / change, reference ------------------------------------------------


class Op:
    num_changes = False  # length of the signal

    def make(self, ac, src, p):
        raise NotImplementedError


class Mix(Op):
    def draw(self, rng, st):
        return dict(w=rng.choice([0, 1, 2]), seed=rng.randrange(999))

    def ref(self, x, fs, p):
        return (x * self.weights(p, x.shape[1])).sum(1, keepdims=True) if p['w'] else x.sum(1, keepdims=True), fs

    def weights(self, p, ch):
        return rnd(p['seed']).standard_normal(ch if p['w'] == 1 else 1)

    def make(self, ac, src, p):
        return ac.ChannelMixer(source=src)

    def set(self, o, p, ch):
        o.weights = self.weights(p, ch) if p['w'] else np.array([])


class Sum(Op):
    """Mixer / SourceMixer with other signals."""

    def draw(self, rng, st):
        return dict(n=rng.choice([1, 1, 2]), seed=rng.randrange(999), less=[rng.choice([0, 0, 1, 5, 40]) for _ in range(2)])

    def others(self, p, n, ch):
        return [rnd(p['seed'] + j).standard_normal((max(1, n - p['less'][j]), ch)) for j in range(p['n'])]

    def ref(self, x, fs, p):
        o = self.others(p, *x.shape)
        m = min(len(y) for y in [x] + o)
        return sum([y[:m] for y in o], x[:m]), fs

    def make(self, ac, src, p):
        return ac.Mixer(source=src)

    def set(self, o, p, ch):
        from dst import lib

        n = o.num_in
        o.sources = [lib.make_source(y, fs=o.source.sample_freq, style=['fresh', 'view', 'reuse'][(p['seed'] + j) % 3], tag=f's{p["seed"]}{j}{n}')
                     for j, y in enumerate(self.others(p, n, ch))]


class WSum(Op):
    def draw(self, rng, st):
        return dict(n=rng.choice([1, 2, 3]), seed=rng.randrange(999), w=rng.random() < 0.7)

    def ref(self, x, fs, p):
        w = self.weights(p)
        ys = [x] + [rnd(p['seed'] + j).standard_normal(x.shape) for j in range(p['n'])]
        return sum(y * (w[j] if p['w'] else 1.0) for j, y in enumerate(ys)), fs

    def weights(self, p):
        return rnd(p['seed'] + 77).uniform(-2, 2, p['n'] + 1)

    def make(self, ac, src, p):
        return ac.SourceMixer(sources=[src])

    def set(self, o, p, ch):
        from dst import lib

        src = o.sources[0]
        o.sources = [src] + [lib.make_source(rnd(p['seed'] + j).standard_normal((src.num_samples, ch)), fs=src.sample_freq,
                                             style=['fresh', 'view', 'reuse'][(p['seed'] + j) % 3], tag=f'w{p["seed"]}{j}') for j in range(p['n'])]
        o.weights = self.weights(p) if p['w'] else np.array([])


class Power(Op):
    def draw(self, rng, st):
        return {}

    def ref(self, x, fs, p):
        return x * x, fs

    def make(self, ac, src, p):
        return ac.TimePower(source=src)


class Cum(Power):
    def ref(self, x, fs, p):
        return np.cumsum(x, 0) / np.arange(1, len(x) + 1)[:, None], fs

    def make(self, ac, src, p):
        return ac.TimeCumAverage(source=src)


class Reverse(Power):
    def ref(self, x, fs, p):
        return x[::-1], fs

    def make(self, ac, src, p):
        return ac.TimeReverse(source=src)


class Average(Op):
    def draw(self, rng, st):
        return dict(nav=rng.choice([1, 2, 3, 5, 7, 16]))

    def ref(self, x, fs, p):
        m = len(x) // p['nav']
        return x[: m * p['nav']].reshape(m, p['nav'], x.shape[1]).mean(1), fs / p['nav']

    def make(self, ac, src, p):
        return ac.Average(source=src)

    def set(self, o, p, ch):
        o.num_per_average = p['nav']


class Octave(Op):
    half = False

    def draw(self, rng, st):
        return dict(rel=round(10 ** rng.uniform(-2.0, -0.6), 6), frac=rng.choice(['Octave', 'Third octave']), order=rng.randint(1, 6))

    def zpk(self, p, fs):
        band = p['rel'] * fs
        return butter_band(*band_edges(band, fs, {'Octave': 1, 'Third octave': 3}[p['frac']], p['order'], self.half), p['order'])

    def ref(self, x, fs, p):
        return run_zpk(self.zpk(p, fs), x), fs

    def make(self, ac, src, p):
        return ac.FiltOctave(source=src)

    def set(self, o, p, ch):
        o.band = p['rel'] * o.source.sample_freq
        o.fraction = p['frac']
        o.order = p['order']


class FiltFilt(Octave):
    half = True

    def ref(self, x, fs, p):
        from scipy.signal import sosfiltfilt, zpk2sos

        sos = zpk2sos(*self.zpk(p, fs))
        if len(x) <= 3 * (2 * len(sos) + 1):  # (shorter than the padding)
            raise Skip
        return sosfiltfilt(sos, x, axis=0), fs

    def make(self, ac, src, p):
        return ac.FiltFiltOctave(source=src)


class Bank(Op):
    def draw(self, rng, st):
        return dict(lo=rng.randint(-20, -12), n=rng.choice([1, 2, 3, 5]), frac=rng.choice(['Octave', 'Third octave']))

    def bands(self, p, fs):
        top = round(10 * math.log10(fs))
        step = 3 if p['frac'] == 'Octave' else 1
        lo = top + p['lo']
        return lo, lo + p['n'], [10 ** (i / 10) for i in range(lo, lo + p['n'], step)]

    def ref(self, x, fs, p):
        frac = {'Octave': 1, 'Third octave': 3}[p['frac']]
        return np.concatenate([run_zpk(butter_band(*band_edges(b, fs, frac, 3, False), 3), x) for b in self.bands(p, fs)[2]], 1), fs

    def make(self, ac, src, p):
        return ac.OctaveFilterBank(source=src)

    def set(self, o, p, ch):
        o.fraction = p['frac']
        o.lband, o.hband, _ = self.bands(p, o.source.sample_freq)


class Exp(Op):
    def draw(self, rng, st):
        return dict(w=rng.choice('FSI'))

    def ref(self, x, fs, p):
        a = 1 - math.exp(-1 / ({'F': 0.125, 'S': 1.0, 'I': 0.035}[p['w']] * fs))
        y = np.zeros_like(x)
        acc = np.zeros(x.shape[1])
        for i in range(len(x)):
            acc = acc + a * (x[i] - acc)
            y[i] = acc
        return y, fs

    def make(self, ac, src, p):
        return ac.TimeExpAverage(source=src)

    def set(self, o, p, ch):
        o.weight = p['w']


class Weight(Op):
    def draw(self, rng, st):
        return dict(w=rng.choice('AAACCCZ'))

    def ref(self, x, fs, p):
        from scipy.signal import bilinear_zpk

        f1, f2, f3, f4 = 2 * np.pi * np.array([20.598997, 107.65265, 737.86223, 12194.217])
        if p['w'] == 'Z':
            return x, fs
        if p['w'] == 'A':
            z, pl, k = [0] * 4, [-f1, -f1, -f2, -f3, -f4, -f4], f4**2 * 10 ** (1.9997 / 20)
        else:
            z, pl, k = [0] * 2, [-f1, -f1, -f4, -f4], f4**2 * 10 ** (0.0619 / 20)
        return run_zpk(bilinear_zpk(np.array(z, float), np.array(pl), k, fs), x), fs

    def make(self, ac, src, p):
        return ac.FiltFreqWeight(source=src)

    def set(self, o, p, ch):
        o.weight = p['w']


class Convolve(Op):
    def draw(self, rng, st):
        return dict(L=rng.choice([1, 2, 5, 16, 33, 70]), per=rng.choice([0, 1, 2]), seed=rng.randrange(999))

    def kernel(self, p, ch):
        k = rnd(p['seed']).standard_normal((p['L'], ch if p['per'] == 2 else 1))
        return k[:, 0] if p['per'] == 0 else k

    def ref(self, x, fs, p):
        k = self.kernel(p, x.shape[1])
        k = k[:, None] if k.ndim == 1 else k
        return np.stack([np.convolve(x[:, c], k[:, c if k.shape[1] > 1 else 0]) for c in range(x.shape[1])], 1), fs

    def make(self, ac, src, p):
        return ac.TimeConvolve(source=src)

    def set(self, o, p, ch):
        o.kernel = self.kernel(p, ch)


class Mask(Op):
    def draw(self, rng, st):
        return dict(a=rng.choice([0, 0, 1, 9, 20]), b=rng.choice([0, 0, 3, 17]), inv=rng.random() < 0.3)

    def ref(self, x, fs, p):
        if len(x) - p['b'] <= p['a']:
            raise Skip
        return x[p['a'] : len(x) - p['b'], (1 if p['inv'] and x.shape[1] > 1 else 0) :], fs

    def make(self, ac, src, p):
        return ac.MaskedTimeOut(source=src)

    def set(self, o, p, ch):
        o.start = p['a']
        o.stop = -p['b'] if p['b'] else None
        o.invalid_channels = [0] if p['inv'] and ch > 1 else []


class Cal(Op):
    def draw(self, rng, st):
        return dict(seed=rng.randrange(999))

    def ref(self, x, fs, p):
        return x * rnd(p['seed']).uniform(0.5, 2, x.shape[1]), fs

    def make(self, ac, src, p):
        return ac.Calib(source=src)

    def set(self, o, p, ch):
        o.data = rnd(p['seed']).uniform(0.5, 2, ch)


OPS = dict(mix=Mix(), sum=Sum(), wsum=WSum(), power=Power(), cum=Cum(), reverse=Reverse(), average=Average(), octave=Octave(), filtfilt=FiltFilt(),
           bank=Bank(), exp=Exp(), weight=Weight(), convolve=Convolve(), mask=Mask(), cal=Cal())
TERMS = ['stream', 'rfft', 'auto', 'cross', 'irfft', 'csm', 'ev', 'stream', 'csm', 'angle']


def blocks(x, bs, ov):
    """All complete blocks, every bs / ov samples."""
    hop = bs // ov
    return [x[i : i + bs] for i in range(0, len(x) - bs + 1, hop)]


class P(Property):
    id = 'C18'
    technique = 'deterministic simulation: seeded configurations, edits and pull schedules against whole-signal reference models'
    rule = (
        'One evaluation = a scripted signal of 1-700 samples and 1-4 channels (noise, offset, tone, impulse; three ways of handing '
        'out blocks), 0-3 of 15 time-domain steps (mixers, power, cumulative and exponential average, reversal, octave filters and banks, '
        'zero-phase filters, frequency weightings, convolution, masking, calibration, block average) and one kind of request: stream, FFT '
        'spectra, auto and cross power spectra (each also averaged), inverse FFT, cross spectral matrix, eigenvalues and sums, or trigger and '
        'rotation angle of a tacho signal; 1-3 times, with changed parameters and abandoned or failed passes in between, each pulled with a drawn block size by one or two '
        'interleaved passes. Every result is compared with the textbook definition evaluated by the harness on the whole signal. '
        'Non-trivial: more than one block was delivered. Distinct: by event-log digest.'
    )
    distinct_measure = 'digest of the configurations, block sizes and results'
    assumptions = (
        'The source delivers full blocks except for the last one.',
        'Octave filters are the Butterworth band passes with corrected noise bandwidth and the weightings the bilinear transforms that the documentation describes; '
        'all bins of one-sided spectra are doubled, as documented.',
    )
    components = {'real': ['the processing blocks, PowerSpectra, RFFT family, Trigger, AngleTracker'], 'stub': ['scripted source', 'numba kernels run as Python code']}
    quick_runs = 7000
    quick_budget = 60
    thorough_runs = 300000
    batch = 16

    # -- scenarios ------------------------------------------------------------------------------------
    def scenario(self, rng, i, tier):
        term = TERMS[i % len(TERMS)]
        n = rng.choice([1, 2, 7, 31, 64, 100, 128, 129, rng.randint(1, 300), rng.randint(200, 700)])
        if term in ('csm', 'ev'):
            n = rng.choice([127, 128, 129, 192, 256, 300, rng.randint(128, 1200)])
        chain = []
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            k = rng.choice(list(OPS))
            chain.append([k, OPS[k].draw(rng, None)])
        sc = dict(term=term, n=n, ch=rng.randint(1, 4), seed=rng.randrange(1 << 20), shape=rng.choice(['noise', 'noise', 'offset', 'tone', 'impulse']),
                  fs=rng.choice([1000.0, 8000.0, 51200.0, 44100.0]), style=rng.choice(['fresh', 'view', 'reuse']), chain=chain, turns=[])
        for _ in range(rng.choice([1, 1, 2, 3])):
            sc['turns'].append(dict(num=rng.choice([1, 2, 3, 7, 16, 33, 64, 128, n, n + 9]), two=rng.random() < 0.25, sched=rng.randrange(1 << 16),
                                    edit=rng.randrange(1 << 10), new=rng.randrange(1 << 20), pre=[rng.choice([0, 0, 1, 2]), rng.randrange(8)], t=self.draw_term(rng, term)))
        return sc

    def draw_term(self, rng, term):
        if term == 'angle':
            return dict(period=rng.choice([10, 17.3, 40, 100.5]), first=rng.random(), tpr=rng.choice([1, 1, 2, 3, 4]), dir=rng.choice([1, -1]),
                        start=rng.choice([0.0, 1.0, 4.5]), pts=rng.choice([4, 4, 5, 6]), ramp=rng.choice([0, 0, 0.3, -0.3, 1.0]), revs=rng.randint(8, 60),
                        kind=rng.choice(['dirac', 'rect']), thr=rng.choice([None, 0.5]), amp=rng.choice([1.0, -1.0, 3.0]), double=rng.choice([0, 0, 1]),
                        mult=rng.choice(['extremum', 'first']), style=rng.choice(['fresh', 'view', 'reuse', 'ts']))
        return dict(bs=rng.choice([8, 16, 20, 64, 100]), psbs=rng.choice([128, 128, 256]), win=rng.choice(list(WINDOWS)), ov=rng.choice(list(OVERLAPS)),
                    scaling=rng.choice(['none', 'energy', 'amplitude']), prec=rng.random() < 0.3, psd=rng.random() < 0.5, single=rng.random() < 0.5,
                    mode=rng.choice(['full', 'upper', 'lower']), nav=rng.choice([1, 2, 3, 5]), avg=rng.random() < 0.4, oct=rng.choice([0, 1, 3]),
                    f=rng.random())

    def shrink(self, sc):
        from dst.core import generic_shrink

        yield from generic_shrink(sc, ('chain', 'turns'))
        for n in (sc['n'] // 2, sc['n'] - 1):
            if n > 0:
                yield dict(sc, n=n)
        if sc['ch'] > 1:
            yield dict(sc, ch=1)
        if sc['style'] != 'fresh':
            yield dict(sc, style='fresh')

    def nontrivial(self, sc, rec):
        return rec['probes'].get('compared', 0) > 0

    # -- workload -------------------------------------------------------------------------------------
    def signal(self, sc):
        n, ch = sc['n'], sc['ch']
        x = rnd(sc['seed']).standard_normal((n, ch))
        if sc['shape'] == 'offset':
            x = x * 0.1 + 5
        elif sc['shape'] == 'tone':
            x = np.sin(2 * np.pi * 0.0873 * np.arange(n)[:, None] + np.arange(ch)[None])
        elif sc['shape'] == 'impulse':
            x = np.zeros((n, ch))
            x[n // 2] = 1.0
        return x

    def execute(self, sc, run):
        import acoular as ac

        from dst import lib

        warnings.simplefilter('ignore')
        ac.config.global_caching = 'none'
        if sc['term'] == 'angle':
            self.angle(sc, run)
            return
        x = self.signal(sc)
        src = lib.make_source(x, fs=sc['fs'], style=sc['style'], tag='x')
        self.src = src
        objs = [src]
        chain = [[k, dict(p)] for k, p in sc['chain']]
        for k, p in chain:
            objs.append(OPS[k].make(ac, objs[-1], p))
        term = None
        for turn, t in enumerate(sc['turns']):
            run.steps += 1
            if turn and chain:
                j = t['edit'] % len(chain)
                import random

                chain[j][1] = OPS[chain[j][0]].draw(random.Random(t['new']), None)
            y, fs = x, sc['fs']
            mag = float(np.abs(x).max()) if len(x) else 0.0
            for (k, p), o in zip(chain, objs[1:]):
                if k == 'sum':
                    o.__dict__['num_in'] = len(y)
                if k == 'wsum' and len(y) != o.sources[0].num_samples:
                    raise Skip  # (a source that delivers less than announced is refused)
                if k == 'mask' and p['b'] and len(y) != o.source.num_samples:
                    raise Skip  # (the end is counted from the announced length)
                if y.shape[0] == 0 or y.shape[1] > 40:
                    raise Skip
                if hasattr(OPS[k], 'set'):
                    OPS[k].set(o, p, y.shape[1])
                y, fs = OPS[k].ref(y, fs, p)
                if len(y):
                    mag = max(mag, float(np.nan_to_num(np.abs(y)).max()))
            self.mag = mag
            if not len(y) or not np.isfinite(y).all() or np.abs(y).max() > 1e12:
                raise Skip
            where = '>'.join(k for k, _ in chain) or 'source'
            term = self.check(sc, run, t, objs[-1], term, y, fs, where)
        run.simtime += len(sc['turns'])
        if self.fraction:
            raise Violation('averaged-over-fraction', 'PowerSpectra', self.fraction)

    def pull(self, run, o, num, t):
        """Blocks of one pass, or of two interleaved ones that have to agree."""
        from dst import lib

        k, at = t.get('pre', [0, 0])
        if k == 1:  # a pass that is abandoned
            g = o.result(num)
            for _ in range(at):
                if next(g, None) is None:
                    break
            g.close()
            run.fault('abandoned_pass')
        elif k == 2:  # a pass whose source fails
            self.src.fail = {-1: at}
            try:
                for _ in o.result(num):
                    pass
            except lib.SimIOError:
                run.fault('source_read_error')
            self.src.fail = None
        gens = [o.result(num)] + ([o.result(num)] if t['two'] else [])
        out = [[] for _ in gens]
        live = list(range(len(gens)))
        k = 0
        while live:
            j = live[(t['sched'] >> (k % 16)) % len(live)]
            k += 1
            b = next(gens[j], None)
            if b is None:
                live.remove(j)
            else:
                out[j].append(np.array(b, copy=True))
        if t['two']:
            run.probe('interleaved')
            if not lib.close(lib.cat(out[0], 1), lib.cat(out[1], 1), 1e-12):
                raise Violation('passes-differ', type(o).__name__, lib.diff(lib.cat(out[0]), lib.cat(out[1])))
        return out[0]

    fraction = None  # a result that was averaged over a fractional number of blocks
    mag = 0.0  # largest value on the way to the result

    def compare(self, run, got, want, where, what, tol=1e-7):
        from dst import lib

        if any(k in where for k in ('weight', 'octave', 'bank', 'filtfilt')):  # poles close to the unit circle
            tol = max(tol, 1e-5)

        # (results that cancel to nothing are round-off of the values they are calculated from)
        w = np.asarray(want)
        top = float(np.abs(w[np.isfinite(w)]).max()) if np.isfinite(w).any() else 0.0
        atol = max(tol * top, 1e-14 * max(self.mag, self.mag**2) * 100, 1e-300)
        if not lib.close(got, want, tol, atol):
            raise Violation('differs-from-definition', where, f'{what}: {lib.diff(got, want)}')
        run.probe('compared')
        run.log(where, what, np.round(np.asarray(want).ravel()[:3], 4).tolist(), np.shape(want))
        run.state(where, what.split()[0])

    def announced(self, o, n, where):
        if o.num_samples != n:
            raise Violation('wrong-number-of-samples', where, f'announced {o.num_samples}, delivered {n}')

    def check(self, sc, run, t, o, term, y, fs, where):
        import acoular as ac

        from dst import lib

        p = t['t']
        kinds = [k for k, _ in sc['chain']]
        exact = 'sum' not in kinds  # (mixing announces the length of its first source)
        if sc['term'] == 'stream':
            if 'filtfilt' in kinds and kinds[-1] != 'filtfilt' and t['two']:
                t = dict(t, two=False)
            b = self.pull(run, o, t['num'], t)
            self.compare(run, lib.cat(b, y.shape[1]), y, where, f'stream {y.shape} num={t["num"]} {sc["chain"]}')
            if any(len(z) != t['num'] for z in b[:-1]) and kinds[-1:] not in (['average'], ['sum'], ['reverse']):
                run.probe('uneven')
            if o.sample_freq != fs and abs(o.sample_freq - fs) > 1e-9 * fs:
                raise Violation('wrong-sample-rate', where, f'{o.sample_freq} expected {fs}')
            if exact:
                self.announced(o, len(y), where)
            return None
        wind_name, ov = p['win'], OVERLAPS[p['ov']]
        if sc['term'] in ('csm', 'ev'):
            bs = p['psbs']
            if y.shape[1] > 12 or 'average' in kinds and len(y) < bs:
                raise Skip
            if term is None:
                term = ac.PowerSpectra(source=o, cached=False)
            cdt = 'complex64' if p['prec'] else 'complex128'
            term.block_size, term.window, term.overlap, term.precision = bs, wind_name, p['ov'], cdt
            w = WINDOWS[wind_name](bs)
            bl = blocks(y, bs, ov)
            want = np.zeros((bs // 2 + 1, y.shape[1], y.shape[1]), complex)
            for z in bl:
                f = np.fft.rfft(z * w[:, None], axis=0)
                want += f[:, :, None] * f[:, None, :].conj()
            # known: the sum is divided by the number of blocks including the fraction that is left at the end
            frac = ov * o.num_samples / bs - ov + 1
            if term.num_blocks not in (frac, len(bl)):
                raise Violation('wrong-number-of-blocks', 'PowerSpectra', f'{term.num_blocks}, averaged {len(bl)}; {sc["chain"]}')
            if frac <= 0:
                raise Skip
            known = frac != len(bl) and term.num_blocks == frac
            want *= 2.0 / bs / (w**2).sum() / (frac if known else max(len(bl), 1))
            if known and len(bl):
                self.fraction = f'{len(y)} samples, blocks of {bs}: sum of {len(bl)} blocks divided by {frac}'
            tol = 1e-4 if p['prec'] else 1e-7
            what = f'csm {y.shape} bs={bs} {wind_name} {p["ov"]} {sc["chain"]}'
            if sc['term'] == 'csm':
                self.compare(run, np.array(term.csm[:]), want, where + '>PowerSpectra', what, tol)
                return term
            eva, eve = np.array(term.eva[:]), np.array(term.eve[:])
            sc_ = max(np.abs(want).max(), 1e-300)
            if (np.diff(eva, axis=1) < -1e-6 * sc_).any():
                raise Violation('differs-from-definition', where + '>eva', f'not ascending; {what}')
            rec = np.einsum('fik,fk,fjk->fij', eve, eva, eve.conj())
            self.compare(run, rec, want, where + '>eva,eve', 'eigen' + what, max(tol, 1e-6))
            one = np.einsum('fik,fjk->fij', eve, eve.conj()) - np.eye(y.shape[1])
            if np.abs(one).max() > 1e-4:
                raise Violation('differs-from-definition', where + '>eve', f'not orthonormal {np.abs(one).max()}; {what}')
            fr = np.fft.rfftfreq(bs, 1 / fs)
            f = fr[1 + int(p['f'] * (len(fr) - 2))]
            ref = np.linalg.eigvalsh(want)
            if p['oct']:
                lo, hi = np.searchsorted(fr, [f * 2.0 ** (-0.5 / p['oct']), f * 2.0 ** (0.5 / p['oct'])])
                r = ref[lo:hi].sum(0)
            else:
                r = ref[np.searchsorted(fr, f)]
            self.compare(run, term.synthetic_ev(f, p['oct']), r, where + '>synthetic_ev', 'evsum ' + what, max(tol, 1e-6))
            return term
        # -- FFT family
        bs = p['bs']
        cdt = 'complex64' if p['prec'] else 'complex128'
        if term is None:
            r = ac.RFFT(source=o)
            term = dict(r=r)
            term['auto'] = ac.AutoPowerSpectra(source=r)
            term['cross'] = ac.CrossPowerSpectra(source=r)
            term['irfft'] = ac.IRFFT(source=r)
            term['avg'] = ac.Average(source=r)
        r = term['r']
        if sc['term'] == 'irfft':
            wind_name, ov, p = 'Rectangular', 1, dict(p, scaling='none')
        r.block_size, r.window, r.overlap, r.scaling, r.precision = bs, wind_name, {v: k for k, v in OVERLAPS.items()}[ov], p['scaling'], cdt
        if bs % ov:
            raise Skip
        w = WINDOWS[wind_name](bs)
        spec = []
        for z in blocks(y, bs, ov):
            f = np.fft.rfft(z * w[:, None], axis=0)
            if p['scaling'] != 'none':
                f[1:-1] *= 2
            f *= 1 / w.sum() if p['scaling'] == 'amplitude' else 1 / math.sqrt((w**2).mean())
            spec.append(f)
        nf = bs // 2 + 1
        ch = y.shape[1]
        spec = np.array(spec).reshape(-1, nf, ch)
        tol = 1e-4 if p['prec'] else 1e-7
        what = f'{y.shape} bs={bs} {wind_name} {ov} {p["scaling"]} num={t["num"]} {sc["chain"]}'
        name = dict(rfft='RFFT', auto='AutoPowerSpectra', cross='CrossPowerSpectra', irfft='IRFFT')[sc['term']]
        if sc['term'] == 'rfft':
            obj, want = r, spec.reshape(len(spec), nf * ch)
        elif sc['term'] == 'irfft':
            obj, want = term['irfft'], y[: len(spec) * bs]
        else:
            scale = (2 if p['single'] else 1) / bs**2 * (bs / fs if p['psd'] else 1)
            obj = term[sc['term']]
            obj.scaling = 'psd' if p['psd'] else 'power'
            obj.single_sided = p['single']
            if sc['term'] == 'auto':
                obj.precision = 'float32' if p['prec'] else 'float64'
                want = (np.abs(spec) ** 2 * scale).reshape(len(spec), nf * ch)
            else:
                obj.precision = cdt
                obj.calc_mode = p['mode']
                c = spec[:, :, :, None] * spec[:, :, None, :].conj() * scale
                if p['mode'] == 'full':
                    want = c.reshape(len(spec), nf * ch * ch)
                else:
                    ii = np.triu_indices(ch) if p['mode'] == 'upper' else np.tril_indices(ch)
                    want = c[(slice(None), slice(None), *ii)].reshape(len(spec), nf * len(ii[0]))
            what += f' psd={p["psd"]} single={p["single"]} {p["mode"]}'
        avg = p['avg'] and sc['term'] != 'irfft'
        if avg:
            term['avg'].source = obj
            term['avg'].num_per_average = p['nav']
            obj = term['avg']
            m = len(want) // p['nav']
            want = want[: m * p['nav']].reshape(m, p['nav'], want.shape[1]).mean(1) if m else want[:0]
            what += f' averaged {p["nav"]}'
            name += '>Average'
        if not want.size:
            b = [z for z in obj.result(t['num'])]
            if sum(map(len, b)):
                raise Violation('differs-from-definition', name, f'{sum(map(len, b))} blocks of a shorter signal; {what}')
            return term
        b = self.pull(run, obj, t['num'], t)
        self.compare(run, lib.cat(b), want, where + '>' + name, what, tol)
        if exact:
            self.announced(obj, len(want), where + '>' + name)
        if sc['term'] != 'irfft':
            if obj.num_freqs != nf or not np.allclose(r.freqs, np.fft.rfftfreq(bs, 1 / fs)):
                raise Violation('wrong-frequencies', name, f'{obj.num_freqs} {r.freqs[:3]}; {what}')
        if sc['term'] == 'auto' and p['psd'] and p['single'] and p['scaling'] == 'none' and wind_name == 'Rectangular' and not avg:
            # Parseval: the density integrates to the mean square (constant part and highest line count twice)
            q = lib.cat(b).reshape(-1, nf, ch)
            ms = np.array([(z**2).mean(0) for z in blocks(y, bs, ov)])
            got = (q.sum(1) - (q[:, 0] + q[:, -1]) / 2) * fs / bs
            if not lib.close(got, ms, tol * 10):
                raise Violation('differs-from-definition', 'psd', f'does not integrate to the mean square: {lib.diff(got, ms)}; {what}')
        return term

    # -- trigger and angle ----------------------------------------------------------------------------
    def angle(self, sc, run):
        import acoular as ac

        from dst import lib

        objs = None
        for t in sc['turns']:
            p = t['t']
            # true trigger times: period changes linearly over the revolutions
            per = p['period'] * (1 + p['ramp'] * np.arange(p['revs']) / p['revs'])
            times = np.round(p['first'] * per[0] + np.concatenate([[0], np.cumsum(per[:-1])])).astype(int)
            n = int(times[-1] + 1 + p['first'] * per[-1] * 0.9)
            x = np.zeros((n, 1))
            width = max(2, int(p['period'] / 4))
            for k in times:
                if p['kind'] == 'dirac':
                    x[k] = p['amp']
                else:
                    x[k : k + width] = p['amp']
            if p['kind'] == 'rect' and times[0] == 0:
                continue  # (no edge)
            hunk = 0.2
            if p['double'] and p['kind'] == 'dirac':  # a second, smaller or larger peak close to some of them
                if p['period'] * min(1, 1 + p['ramp']) < 12 or p['mult'] == 'first':
                    continue
                for k in times[2:-1:3]:
                    x[k + 1] = 0.8 * p['amp']
            src = ac.TimeSamples(data=x, sample_freq=sc['fs']) if p['style'] == 'ts' else lib.make_source(x, fs=sc['fs'], style=p['style'], tag=f't{n}')
            if objs is None:
                trig = ac.Trigger(source=src)
                tacho = lib.make_source(np.zeros((n, 1)), fs=sc['fs'], tag=f'z{n}')
                at = ac.AngleTracker(source=tacho, trigger=trig)
                objs = trig, at
            trig, at = objs
            trig.source = src
            if p['thr'] is None:
                trig.reset_traits(['threshold'])
            else:
                trig.threshold = p['thr'] * p['amp']
            trig.trigger_type = p['kind']
            trig.hunk_length = hunk
            trig.multiple_peaks_in_hunk = p['mult']
            at.source = lib.make_source(np.zeros((n, 1)), fs=sc['fs'], tag=f'z{n}')
            at.trigger_per_revo, at.rot_direction, at.start_angle, at.interp_points = p['tpr'], p['dir'], p['start'], p['pts']
            what = f'{p}'
            peaks, hi, lo = trig.trigger_data
            want = times
            if not np.array_equal(peaks, want):
                raise Violation('wrong-trigger', 'Trigger', f'{len(peaks)} peaks {peaks[:4]}.., expected {len(want)} {want[:4]}..; {what}')
            d = np.diff(want)
            if (hi, lo) != (d.max(), d.min()):
                raise Violation('wrong-trigger', 'Trigger', f'distances {hi} {lo}, expected {d.max()} {d.min()}; {what}')
            rpm = (len(want) - 1) / (want[-1] - want[0]) / p['tpr'] * sc['fs'] * 60
            if not np.isclose(at.average_rpm, rpm):
                raise Violation('differs-from-definition', 'AngleTracker.average_rpm', f'{at.average_rpm}, expected {rpm}; {what}')
            ang = np.asarray(at.angle)
            if ang.shape != (n,) or np.shape(at.rpm) != (n,):
                raise Violation('differs-from-definition', 'AngleTracker', f'{ang.shape} values for {n} samples; {what}')
            # at the trigger times the rotor has turned by a whole number of trigger steps
            turn = p['start'] + p['dir'] * 2 * np.pi * np.arange(len(want)) / p['tpr']
            off = np.abs(np.exp(1j * ang[want]) - np.exp(1j * turn))
            if off.max() > 1e-6:
                raise Violation('differs-from-definition', 'AngleTracker.angle', f'at trigger {int(off.argmax())}: {ang[want[off.argmax()]]}; {what}')
            # speed: the slope between neighbouring triggers
            inner = np.arange(want[0], want[-1])
            k = np.searchsorted(want, inner, 'right') - 1
            slope = 60 * sc['fs'] / p['tpr'] / (want[k + 1] - want[k])
            if p['ramp'] == 0 and p['period'] == int(p['period']):
                self.compare(run, np.asarray(at.rpm)[inner], slope, 'AngleTracker.rpm', f'rpm {what}', 1e-6)
                full = p['start'] + p['dir'] * 2 * np.pi / p['tpr'] * (np.arange(n) - want[0]) / (want[1] - want[0])
                self.compare(run, np.exp(1j * (ang - ang[want[0]])), np.exp(1j * (full - full[want[0]])), 'AngleTracker.angle', f'angle {what}', 1e-6)
            else:
                q = np.asarray(at.rpm)[inner] / slope
                if q.min() < 0.6 or q.max() > 1.6:
                    raise Violation('differs-from-definition', 'AngleTracker.rpm', f'{q.min()}..{q.max()} of the speed between the triggers; {what}')
                run.probe('compared')
            run.log('angle', len(want), n)
            run.state('angle', p['kind'], p['tpr'], p['ramp'])
        run.simtime += len(sc['turns'])


PROPERTY = P()
