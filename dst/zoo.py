"""Random processing graphs over the library's blocks, described by JSON specs.

A spec is {'t': type, 'p': params, 's': [child specs]}.  ``build`` turns it into live objects, ``gen_graph`` draws
one.  Only parameters inside each block's documented domain are generated.
"""

import json

import numpy as np

FS = 8000.0


# -- leaves ---------------------------------------------------------------------------------------------------


def _mics(ch, seed=0, dist=0.0):
    import acoular as ac

    r = np.random.Generator(np.random.PCG64(1000 + seed))
    pos = r.uniform(-0.3, 0.3, (3, ch))
    pos[2] = dist
    return ac.MicGeom(pos_total=pos)


def _signal(p, n, fs):
    import acoular as ac

    k = p.get('sig', 'wnoise')
    if k == 'sine':
        return ac.SineGenerator(sample_freq=fs, num_samples=n, freq=p.get('freq', 437.0), phase=0.3)
    if k == 'pnoise':
        return ac.PNoiseGenerator(sample_freq=fs, num_samples=n, seed=p.get('seed', 1))
    if k == 'filtnoise':
        return ac.FiltWNoiseGenerator(sample_freq=fs, num_samples=n, seed=p.get('seed', 1), ar=[0.3, 0.1], ma=[0.5])
    if k == 'generic':
        from dst import lib

        src = ac.TimeSamples(data=lib.noise(p.get('seed', 1), max(2, n // p.get('div', 1)), 1), sample_freq=fs)
        return ac.GenericSignalGenerator(source=src, sample_freq=fs, num_samples=n, loop_signal=True)
    return ac.WNoiseGenerator(sample_freq=fs, num_samples=n, seed=p.get('seed', 1))


def _traj(p):
    import acoular as ac

    t = ac.Trajectory()
    if p.get('traj', 'lin') == 'lin':
        t.points = {0.0: (-0.2, 0.1, 0.6), 0.5: (0.3, 0.1, 0.7), 1.0: (0.8, 0.0, 0.6)}
    elif p['traj'] == 'fast':  # towards the array, past it and away
        t.points = {0.0: (-0.9, 0.1, 0.5), 0.02: (0.1, -0.1, 0.4), 0.04: (1.0, 0.2, 0.5), 0.1: (3.0, 0.2, 0.9), 1.0: (4.0, 0, 1)}
    else:
        t.points = {x * 0.02: (0.2 * np.cos(x), 0.2 * np.sin(x), 0.5) for x in range(60)}
    return t


def leaf_sim(p, env):
    from dst import lib

    d = lib.noise(p['seed'], p['n'], p['ch'])
    s = lib.make_source(d, fs=p.get('fs', FS), style=p['style'], tag=f"sim{p['seed']}")
    env.append(s)
    s.hook = p.get('hook')
    return s


def leaf_timesamples(p, env):
    import acoular as ac

    from dst import lib

    d = lib.noise(p['seed'], p['n'], p['ch'])
    s = ac.TimeSamples(data=d, sample_freq=p.get('fs', FS))
    env.append(s)
    return s


def leaf_masked(p, env):
    import acoular as ac

    from dst import lib

    d = lib.noise(p['seed'], p['n'] + p['start'] + p['tail'], p['ch'] + len(p['inv']))
    s = ac.MaskedTimeSamples(data=d, sample_freq=p.get('fs', FS), start=p['start'],
                             stop=p['n'] + p['start'], invalid_channels=list(p['inv']))
    env.append(s)
    return s


def leaf_pointsource(p, env):
    import acoular as ac

    kw = {}
    k = p['kind']
    mics = _mics(p['ch'], p['seed'])
    cls = {'mono': ac.PointSource, 'dipole': ac.PointSourceDipole, 'sh': ac.SphericalHarmonicSource,
           'line': ac.LineSource, 'moving': ac.MovingPointSource, 'movdipole': ac.MovingPointSourceDipole,
           'movline': ac.MovingLineSource, 'conv': ac.PointSourceConvolve}[k]
    if k in ('dipole', 'movdipole'):
        kw['direction'] = (0.3, 0.1, 1.0)
    if k == 'sh':
        kw.update(lOrder=1, alpha=np.array([0.5, 0.1, 0.7, 0.2]), direction=(0.0, 1.0, 0.2))
    if k in ('line', 'movline'):
        kw.update(num_sources=p['ns'], source_strength=np.array([1.0, 0.5, 2.0][: p['ns']]),
                  coherence=p['coh'], length=0.3, direction=(1.0, 0.0, 0.0))
    if k.startswith('mov'):
        kw.update(trajectory=_traj(p), conv_amp=p['conv_amp'])
    if k == 'conv':
        kw['kernel'] = np.random.Generator(np.random.PCG64(p['seed'])).standard_normal(p['L'])
    else:
        kw.update(start_t=p['start_t'], start=p['start'], up=p['up'])
        if k == 'mono':
            kw['prepadding'] = p['pre']
    s = cls(signal=_signal(p, p['n'], p.get('fs', FS)), mics=mics, loc=(0.1, 0.05, 0.6), **kw)
    return s


def leaf_noise(p, env):
    import acoular as ac

    return ac.UncorrelatedNoiseSource(signal=ac.WNoiseGenerator(sample_freq=p.get('fs', FS), num_samples=p['n'],
                                                                seed=p['seed']), mics=_mics(p['ch']))


def leaf_h5(p, env):
    """A recording in an HDF5 file (written here with plain h5py), read through either library."""
    import os

    import acoular as ac
    import h5py

    from dst import lib

    name = os.path.join(os.getcwd(), f"rec{p['seed']}_{p['n']}_{p['ch']}.h5")
    if not os.path.exists(name):
        with h5py.File(name, 'w') as f:
            f['time_data'] = lib.noise(p['seed'], p['n'] + p['start'] + p['tail'], p['ch'] + len(p['inv']))
            f['time_data'].attrs['sample_freq'] = p.get('fs', FS)
    if p['start'] or p['tail'] or p['inv']:
        s = ac.MaskedTimeSamples(file=name, start=p['start'], stop=p['n'] + p['start'],
                                 invalid_channels=list(p['inv']))
    else:
        s = ac.TimeSamples(file=name)
    return s


LEAVES = {'sim': leaf_sim, 'timesamples': leaf_timesamples, 'masked': leaf_masked, 'point': leaf_pointsource,
          'uncorr': leaf_noise, 'h5': leaf_h5}


def gen_leaf(rng, n, ch, kinds=None, base_seed=None):
    k = rng.choice(kinds or ['sim'] * 6 + ['timesamples', 'timesamples', 'masked', 'point', 'point', 'point',
                                            'uncorr', 'h5'])
    p = dict(n=n, ch=ch, seed=rng.randrange(1 << 20) if base_seed is None else base_seed)
    if k == 'sim':
        p['style'] = rng.choice(['fresh', 'view', 'reuse'])
    if k in ('masked', 'h5'):
        p.update(start=rng.randint(0, 9), tail=rng.randint(0, 9),
                 inv=sorted(rng.sample(range(ch + 1), rng.choice([0, 1]))))
    if k == 'point':
        p['kind'] = rng.choice(['mono', 'mono', 'dipole', 'sh', 'line', 'moving', 'movdipole', 'movline', 'conv'])
        p.update(
            ns=rng.choice([1, 2, 3]), coh=rng.choice(['coherent', 'incoherent']), traj=rng.choice(['lin', 'circ', 'fast']),
            conv_amp=rng.random() < 0.5, L=rng.randint(1, 40), up=rng.choice([1, 2, 4]),
            start_t=rng.choice([0.0, 0.0, 0.001]), start=rng.choice([0.0, 0.0, 0.002]),
            pre=rng.choice(['loop', 'zeros']), sig=rng.choice(['wnoise', 'sine', 'pnoise', 'filtnoise', 'generic']),
            freq=rng.choice([100.0, 437.0, 1999.0]), div=rng.choice([1, 2]),
        )
        if p['coh'] == 'incoherent' or p['kind'] in ('line', 'movline'):
            p['sig'] = 'wnoise'
        if p['kind'] == 'conv':
            p['sig'] = rng.choice(['wnoise', 'sine'])
        if p['kind'] not in ('mono', 'conv'):
            # these sources end where the signal ends (documented): stay inside of it
            p['start'] = p['start_t']
            if n < 50:
                p['kind'] = 'mono'
    return dict(t=k, p=p, s=[])


# -- blocks ---------------------------------------------------------------------------------------------------
# name: (params(rng, n, ch), build(params, sources), n_sources, in-domain, out-domain)


def _b(name, **traits):
    def build(p, src, env):
        import acoular as ac

        return getattr(ac, name)(source=src[0], **{k: p[k] for k in traits.get('keys', ()) if k in p})

    return build


def _masked(p, src, env):
    import acoular as ac

    return ac.MaskedTimeOut(source=src[0], start=p['start'], stop=p['stop'], invalid_channels=list(p['inv']))


def _g_masked(rng, n, ch):
    n = max(n, 1)
    start = rng.randint(0, n - 1)
    stop = rng.choice([None, n, n + 5, rng.randint(start + 1, n), -1 if n - 1 > start else None])
    return dict(start=start, stop=stop, inv=sorted(rng.sample(range(ch), rng.choice([0, 0, 1]) if ch > 1 else 0)))


def _mixer(p, src, env):
    import acoular as ac

    return ac.Mixer(source=src[0], sources=list(src[1:]))


def _srcmixer(p, src, env):
    import acoular as ac

    kw = {}
    if p['w']:
        kw['weights'] = np.array([1.5, -0.5, 2.0][: len(src)])
    return ac.SourceMixer(sources=list(src), **kw)


def _chmix(p, src, env):
    import acoular as ac

    kw = {}
    if p['w'] == 1:
        kw['weights'] = np.array([0.7])
    elif p['w'] == 2:
        kw['weights'] = np.linspace(0.5, 1.5, src[0].num_channels)
    return ac.ChannelMixer(source=src[0], **kw)


def _conv(p, src, env):
    import acoular as ac

    r = np.random.Generator(np.random.PCG64(p['seed']))
    k = r.standard_normal((p['L'], src[0].num_channels)) if p['two'] else r.standard_normal(p['L'])
    return ac.TimeConvolve(source=src[0], kernel=k)


def _calib(p, src, env):
    import acoular as ac

    return ac.Calib(source=src[0], data=np.linspace(0.5, 2.0, src[0].num_channels))


def _calibf(p, src, env):
    import acoular as ac

    n = src[0].num_channels * src[0].num_freqs
    return ac.Calib(source=src[0], data=np.linspace(0.5, 2.0, n))


def _fbank(p, src, env):
    import acoular as ac

    return ac.OctaveFilterBank(source=src[0], lband=p['lband'], hband=p['lband'] + p['nb'], fraction=p['fraction'])


def _rfft(p, src, env):
    import acoular as ac

    return ac.RFFT(source=src[0], block_size=p['bs'], window=p['window'], overlap=p['overlap'], scaling=p['scaling'])


def _splitter(p, src, env):
    import acoular as ac

    sp = ac.SampleSplitter(source=src[0])
    from dst import lib

    c = lib.Consumer(source=sp, name='c')
    sp.register_object(c, buffer_overflow_treatment='none')
    return c


def _write_h5(p, src, env):
    import os

    import acoular as ac

    d = os.getcwd()
    return ac.WriteH5(source=src[0], file=os.path.join(d, f"w{p['id']}.h5"), precision='float64')


def _cache(p, src, env):
    import acoular as ac

    return ac.Cache(source=src[0])


def _interp(p, src, env):
    import acoular as ac

    ch = src[0].num_channels
    a = np.linspace(-np.pi, np.pi, ch, endpoint=False) + 0.1
    m = ac.MicGeom(pos_total=np.array([0.3 * np.cos(a), 0.3 * np.sin(a), 0 * a]))
    a2 = a[: p['nv']] + 0.05
    v = ac.MicGeom(pos_total=np.array([0.3 * np.cos(a2), 0.3 * np.sin(a2), 0 * a2]))
    return ac.SpatialInterpolatorConstantRotation(
        source=src[0], mics=m, mics_virtual=v, method=p['method'], array_dimension='ring',
        rotational_speed=p['speed'])


def _interprot(p, src, env):
    import acoular as ac

    ch, n, fs = src[0].num_channels, max(int(src[0].num_samples), 1), src[0].sample_freq
    m, v = _ring(ch, 0.1), _ring(ch, 0.15)
    peaks = np.zeros((n, 1))
    peaks[3 :: p['rev']] = 1.0
    trig = ac.Trigger(source=ac.TimeSamples(data=peaks, sample_freq=fs), threshold=0.5, trigger_type='dirac')
    at = ac.AngleTracker(source=ac.TimeSamples(data=peaks, sample_freq=fs), trigger=trig, rot_direction=p['dir'],
                         start_angle=0.2)
    return ac.SpatialInterpolatorRotation(source=src[0], mics=m, mics_virtual=v, method=p['method'],
                                          array_dimension='ring', angle_source=at)


def _ring(ch, off):
    import acoular as ac

    a = np.linspace(-np.pi, np.pi, ch, endpoint=False) + off
    return ac.MicGeom(pos_total=np.array([0.3 * np.cos(a), 0.3 * np.sin(a), 0 * a]))


def _bf(p, src, env):
    import acoular as ac

    cls = getattr(ac, p['cls'])
    ch = src[0].num_channels
    mics = _mics(ch, p['seed'])
    grid = ac.RectGrid(x_min=-0.2, x_max=0.2, y_min=-0.1, y_max=0.1, z=p['z'], increment=0.2)
    st = ac.SteeringVector(grid=grid, mics=mics, steer_type=p['steer'])
    kw = dict(weights=p['w'])
    if 'Traj' in p['cls']:
        kw.update(trajectory=_traj(p), conv_amp=p['conv_amp'], precision=64)
        if p['rv']:
            kw['rvec'] = np.array([0, 0, 1.0])
    if 'Sq' in p['cls']:
        kw['r_diag'] = p['r_diag']
    if 'Cleant' in p['cls']:
        kw['n_iter'] = 3
    return cls(source=src[0], steer=st, **kw)


def _sector(p, src, env):
    import acoular as ac

    # source is a beamformer over the standard grid of _bf
    return ac.IntegratorSectorTime(source=src[0], grid=src[0].steer.grid,
                                   sectors=[np.array([-0.2, -0.1, 0.2, 0.1]), np.array([0.0, 0.0, 0.15])])


def _sbuf(p, src, env):
    import acoular as ac

    num = max(getattr(env, 'num', 50), 1)  # long enough to hold one block of either side
    return ac.process.SamplesBuffer(source=src[0], length=10 * num + 20 + (p['snum'] or 0) + p['len'], source_num=p['snum'],
                                    dtype='float64')


TD, FD = 'time', 'freq'
BLOCKS = {
    'Masked': (_g_masked, _masked, 1, TD, TD),
    'ChannelMixer': (lambda r, n, c: dict(w=r.choice([0, 1, 2])), _chmix, 1, TD, TD),
    'Mixer': (lambda r, n, c: {}, _mixer, 2, TD, TD),
    'SourceMixer': (lambda r, n, c: dict(w=r.random() < 0.6), _srcmixer, 2, TD, TD),
    'TimePower': (lambda r, n, c: {}, _b('TimePower'), 1, TD, TD),
    'TimeCumAverage': (lambda r, n, c: {}, _b('TimeCumAverage'), 1, TD, TD),
    'TimeReverse': (lambda r, n, c: {}, _b('TimeReverse'), 1, TD, TD),
    'FiltOctave': (lambda r, n, c: dict(band=r.choice([500.0, 1000.0, 2000.0]), order=r.choice([1, 2, 3]),
                                        fraction=r.choice(['Octave', 'Third octave'])),
                   _b('FiltOctave', keys=('band', 'order', 'fraction')), 1, TD, TD),
    'FiltFiltOctave': (lambda r, n, c: dict(band=r.choice([1000.0, 2000.0]), order=r.choice([1, 2])),
                       _b('FiltFiltOctave', keys=('band', 'order')), 1, TD, TD),
    'TimeExpAverage': (lambda r, n, c: dict(weight=r.choice('FSI')), _b('TimeExpAverage', keys=('weight',)), 1, TD, TD),
    'FiltFreqWeight': (lambda r, n, c: dict(weight=r.choice('ACZ')), _b('FiltFreqWeight', keys=('weight',)), 1, TD, TD),
    'OctaveFilterBank': (lambda r, n, c: dict(lband=r.choice([24, 27, 29]), nb=r.choice([1, 2, 4]),
                                              fraction=r.choice(['Octave', 'Third octave'])), _fbank, 1, TD, TD),
    'TimeConvolve': (lambda r, n, c: dict(L=r.randint(1, 40), two=r.random() < 0.5, seed=r.randrange(99)), _conv, 1,
                     TD, TD),
    'Calib': (lambda r, n, c: {}, _calib, 1, TD, TD),
    'Average': (lambda r, n, c: dict(num_per_average=r.randint(1, 9)), _b('Average', keys=('num_per_average',)), 1,
                TD, TD),
    'SamplesBuffer': (lambda r, n, c: dict(snum=r.choice([None, None, 3, 8]), len=r.randint(2, 5)), _sbuf, 1,
                      TD, TD),
    'Splitter': (lambda r, n, c: {}, _splitter, 1, TD, TD),
    'WriteH5': (lambda r, n, c: dict(id=r.randrange(1 << 30)), _write_h5, 1, TD, TD),
    'Cache': (lambda r, n, c: {}, _cache, 1, TD, TD),
    'Interp': (lambda r, n, c: dict(method=r.choice(['linear', 'spline']), speed=r.choice([0.0, 3.0, -7.0]),
                                    nv=max(1, c - r.randint(0, 1))), _interp, 1, TD, TD),
    'InterpRot': (lambda r, n, c: dict(method=r.choice(['linear', 'spline']), rev=r.choice([7, 10, 13]),
                                       dir=r.choice([-1, 1])), _interprot, 1, TD, TD),
    'Sector': (lambda r, n, c: {}, _sector, 1, 'bf', TD),
    'Beamformer': (lambda r, n, c: dict(
        cls=r.choice(['BeamformerTime', 'BeamformerTimeSq', 'BeamformerTimeTraj', 'BeamformerTimeSqTraj']),
        steer=r.choice(['true level', 'true location', 'classic', 'inverse']), w=r.choice(['none', 'none', 'power']),
        r_diag=r.random() < 0.5, traj=r.choice(['lin', 'circ', 'fast']), conv_amp=r.random() < 0.5, rv=r.random() < 0.3,
        z=r.choice([0.3, 0.5]), seed=r.randrange(99)), _bf, 1, TD, TD),
    'RFFT': (lambda r, n, c: dict(bs=2 * r.randint(1, 8), window=r.choice(['Rectangular', 'Hanning', 'Hamming']),
                                  overlap=r.choice(['None', 'None', '50%', '75%']),
                                  scaling=r.choice(['none', 'energy', 'amplitude'])), _rfft, 1, TD, FD),
    'IRFFT': (lambda r, n, c: {}, _b('IRFFT'), 1, 'fft', TD),
    'AutoPower': (lambda r, n, c: dict(scaling=r.choice(['power', 'psd']), single_sided=r.random() < 0.5),
                  _b('AutoPowerSpectra', keys=('scaling', 'single_sided')), 1, FD, 'pow'),
    'CrossPower': (lambda r, n, c: dict(scaling=r.choice(['power', 'psd']), single_sided=r.random() < 0.5,
                                        calc_mode=r.choice(['full', 'full', 'upper', 'lower'])),
                   _b('CrossPowerSpectra', keys=('scaling', 'single_sided', 'calc_mode')), 1, FD, 'pow'),
    'AverageF': (lambda r, n, c: dict(num_per_average=r.randint(1, 4)), _b('Average', keys=('num_per_average',)), 1,
                 'anyfreq', 'pow'),
    'CacheF': (lambda r, n, c: {}, _cache, 1, 'anyfreq', 'pow'),
}

# blocks whose output keeps the advertised number of samples / that cannot be chained on
LENGTH_EXEMPT = {'Beamformer'}


class Env(list):
    """The live sources of a graph; ``num`` is the block size it will be pulled with."""

    def __init__(self, num=50):
        super().__init__()
        self.num = num
        self.shared = None  # set to {} : equal leaves become one object
        self.wrap = lambda o: o


def build(spec, env=None):
    env = Env() if env is None else env
    if spec['t'] in LEAVES:
        if env.shared is None:
            return LEAVES[spec['t']](spec['p'], env)
        key = json.dumps(spec, sort_keys=True)
        if key not in env.shared:
            env.shared[key] = env.wrap(LEAVES[spec['t']](spec['p'], env))
        return env.shared[key]
    src = [build(s, env) for s in spec['s']]
    return BLOCKS[spec['t']][1](spec['p'], src, env)


def gen_graph(rng, depth, n, ch, leaf_kinds=None, only=None, exclude=(), leaf=None):
    """A random graph ending in a random block; returns spec."""
    spec = leaf or gen_leaf(rng, n, ch, leaf_kinds)
    dom = TD
    for d in range(depth):
        names = [k for k, b in BLOCKS.items() if _accepts(b[3], dom, spec) and k not in exclude]
        if only and d == depth - 1:
            good = [k for k in names if k in only]
            names = good or names
        if d < depth - 1:
            names = [k for k in names if k not in ('Average',)] + ['RFFT'] * (dom == TD and 'RFFT' not in exclude)
        k = rng.choice(names)
        params, _, ns, _, out = BLOCKS[k]
        if k in ('OctaveFilterBank', 'Beamformer') and any(x in ('OctaveFilterBank', 'Beamformer') for x in types(spec)):
            k = 'TimePower'
            params, _, ns, _, out = BLOCKS[k]
        m, c = shape_of(spec)
        if m < 1:
            break
        if not fits(k, m, c, spec):
            k = {TD: 'TimePower', FD: 'AverageF', 'pow': 'AverageF'}[dom]
            params, _, ns, _, out = BLOCKS[k]
        srcs = [spec]
        if ns == 2:
            for _ in range(rng.choice([1, 1, 2])):
                leaf = gen_leaf(rng, m, c, ['sim', 'timesamples', 'masked', 'point'])
                if leaf['t'] == 'point' and leaf['p']['kind'] == 'conv':
                    leaf['p']['kind'] = 'mono'
                srcs.append(leaf)
            if any(t in types(spec) for t in ('Beamformer', 'Average')) or dom != TD:
                srcs = [spec]
                k = 'TimePower'
                params, _, ns, _, out = BLOCKS[k]
        spec = dict(t=k, p=params(rng, m, c), s=srcs)
        dom = out
    return spec


def fits(k, n, c, spec):
    """Documented domain: minimum lengths and channel counts."""
    if k == 'FiltFiltOctave':
        return n >= 40
    if k == 'Beamformer':
        return c >= 3 and n >= 50
    if k in ('Interp', 'InterpRot'):
        return c >= 4 and (k == 'Interp' or (n >= 100 and 'Beamformer' not in types(spec)))
    if k == 'Masked':
        return 'Beamformer' not in types(spec)
    if k == 'WriteH5':
        return 'WriteH5' not in types(spec)
    return True


def _accepts(need, dom, spec):
    if need == dom:
        return True
    if need == 'anyfreq':
        return dom in (FD, 'pow')
    if need == 'bf':
        return dom == TD and spec['t'] == 'Beamformer'
    if need == 'fft':
        return dom == FD and spec['t'] == 'RFFT'
    return False


def types(spec):
    out = [spec['t'] if spec['t'] != 'point' else 'point:' + spec['p']['kind']]
    for s in spec['s']:
        out += types(s)
    return out


def shape_of(spec):
    """Expected (samples, channels) of the stream -- a rough plan used for drawing parameters only."""
    t, p = spec['t'], spec['p']
    if not spec['s']:
        if t == 'point' and p['kind'] == 'conv':
            return p['n'] + p['L'] - 1, p['ch']
        return p['n'], p['ch']
    n, c = shape_of(spec['s'][0])
    if t == 'Masked':
        a, b, _ = slice(p['start'], p['stop']).indices(n)
        return max(0, b - a), c - len(p['inv'])
    if t == 'ChannelMixer':
        return n, 1
    if t == 'OctaveFilterBank':
        step = 4 - {'Octave': 1, 'Third octave': 3}[p['fraction']]
        return n, c * len(range(p['lband'], p['lband'] + p['nb'], step))
    if t == 'TimeConvolve':
        return n + p['L'] - 1, c
    if t in ('Average', 'AverageF'):
        return n // p['num_per_average'], c
    if t == 'Interp':
        return n, p['nv']
    if t == 'Sector':
        return n, 2
    if t == 'Beamformer':
        return max(0, n - 12), 6
    if t == 'RFFT':
        ov = {'None': 1, '50%': 2, '75%': 4}[p['overlap']]
        return (1 + (n - p['bs']) * ov // p['bs'] if n >= p['bs'] else 0), c
    if t == 'IRFFT':
        return n * spec['s'][0]['p']['bs'], c
    return n, c
