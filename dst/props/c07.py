"""C07: results always belong to the current configuration (edit histories against freshly built objects)."""

import os
import warnings

import numpy as np

from dst.core import Property, Violation

FS = 8000.0
NCH = 4


# ---------------------------------------------------------------- values (JSON) and how they become attributes

def U(a, b, k=3):
    return lambda rng, S: round(rng.uniform(a, b), k)


def V(*c):
    return lambda rng, S: rng.choice(c)


def VEC(a=-1, b=1, n=3):
    return lambda rng, S: {'arr': [round(rng.uniform(a, b), 3) for _ in range(n)]}


def TUP(a=-1, b=1, n=3):
    return lambda rng, S: {'tup': [round(rng.uniform(a, b), 3) for _ in range(n)]}


def NOISE(*shape, cplx=False):
    return lambda rng, S: {'noise': [rng.randrange(1 << 16), list(shape), cplx]}


def SUB(n, k=2):
    return lambda rng, S: {'list': sorted(rng.sample(range(n), rng.randint(0, k)))}


def REF(kind):
    return lambda rng, S: {'ref': S.obj(rng, kind)}


def NREF(kind, none=0.4):
    return lambda rng, S: None if rng.random() < none else {'ref': S.obj(rng, kind)}


def REFS(kind, lo=1, hi=3):
    return lambda rng, S: {'refs': [S.obj(rng, kind) for _ in range(rng.randint(lo, hi))]}


def MICPOS(rng, S):
    return {'noise': [rng.randrange(1 << 16), [3, NCH], False]}


def BIGVEC(n):
    """Long array of which only one value in the middle varies (digests must not abbreviate)."""
    return lambda rng, S: {'spike': [n, rng.randrange(n // 3, n // 2), round(rng.uniform(0.1, 1.0), 3)]}


def TINY(rng, S):
    """Arrays that differ in late digits only."""
    return {'arr': [1.0 + rng.randrange(5) * 1e-10, 0.25, rng.randrange(5) * 1e-3]}


def ONEOF(*gens):
    return lambda rng, S: rng.choice(gens)(rng, S)


def FILE(ext='h5'):
    """Files of the same name in different directories."""
    return lambda rng, S: {'file': [rng.randrange(3), rng.choice(['x', 'x', 'x', 'y']), ext]}


def POINTS(rng, S):
    k = rng.choice([2, 4, 5])
    return {'points': [[round(0.04 * i, 3), [round(rng.uniform(-0.3, 0.3), 3) for _ in range(2)] + [round(rng.uniform(0.5, 1), 3)]]
                       for i in range(k)]}


GRID = dict(x_min=U(-0.4, -0.1, 2), x_max=U(0.1, 0.4, 2), y_min=U(-0.4, -0.1, 2), y_max=U(0.1, 0.4, 2))
PS = dict(signal=REF('signal'), loc=TUP(0.2, 0.8), mics=REF('mics'), env=REF('env'), start_t=V(0.0, 0.003, 0.01),
          start=V(0.0, 0.05, 0.06), up=V(1, 2, 4))
MPS = dict(PS, trajectory=REF('trajectory'), conv_amp=V(True, False), start=V(0.0, 0.001))
BF = dict(freq_data=REF('ps'), steer=REF('steer'), r_diag=V(True, False), r_diag_norm=V(0.0, 1.0, 1.5), precision=V('float64', 'float32'))
BFF = {k: v for k, v in BF.items() if k != 'r_diag_norm'}
TBF = dict(source=REF('tsource'), steer=REF('steer'), weights=V('none', 'power'))
TTR = dict(TBF, trajectory=REF('trajectory'), rvec=ONEOF(lambda r, S: {'arr': [0, 0, 0]}, VEC(0.1, 1)), conv_amp=V(True, False),
           precision=V(64, 32))
MIX4 = 'tsource'

CLS = {
    'grid': {
        'RectGrid': dict(GRID, z=U(0.3, 0.9, 2), increment=V(0.15, 0.2, 0.3)),
        'RectGrid3D': dict(GRID, z_min=U(0.3, 0.4, 2), z_max=U(0.5, 0.6, 2),
                           increment=ONEOF(V(0.2, 0.3), lambda r, S: {'arr': [r.choice([0.2, 0.3]), 0.2, r.choice([0.1, 0.2])]})),
        'LineGrid': dict(loc=TUP(-0.3, 0.3), direction=TUP(0.1, 1), length=U(0.3, 1, 2), num_points=V(2, 3, 5)),
        'MergeGrid': dict(grids=REFS('basegrid', 1, 3)),
        'ImportGrid': dict(pos=lambda r, S: {'noise': [r.randrange(1 << 16), [3, r.choice([3, 5])], False]}),
    },
    'mics': {'MicGeom': dict(pos_total=ONEOF(MICPOS, MICPOS), invalid_channels=SUB(NCH))},
    'filemics': {
        'MicGeom:file': dict(file=FILE('xml'), invalid_channels=SUB(NCH)),
        'MicAIAABenchmark': dict(file=FILE(), invalid_channels=SUB(NCH)),
    },
    'env': {
        'Environment': dict(c=U(330, 350, 1)),
        'UniformFlowEnvironment': dict(c=U(330, 350, 1), ma=V(0.0, 0.1, 0.3), fdv=VEC()),
    },
    'flow': {
        'SlotJet': dict(v0=U(5, 40, 1), origin=VEC(), flow=VEC(0.2, 1), plane=VEC(-1, -0.2), B=U(0.1, 0.4), l=U(4, 7, 1)),
        'OpenJet': dict(v0=U(5, 40, 1), origin=VEC(-2, -1), D=U(0.1, 0.4), l=U(4, 7, 1)),
        'RotatingFlow': dict(rps=U(-3, 3, 1), v0=U(0, 9, 1), origin=VEC()),
    },
    'genv': {'GeneralFlowEnvironment': dict(c=U(330, 350, 1), ff=REF('flow'), N=V(20, 30), Om=V(3.0, 3.14))},
    'steer': {'SteeringVector': dict(grid=REF('grid'), mics=REF('anymics'), env=lambda r, S: REF('anyenv' if S.objs['o0']['kind'] == 'steer' else 'env')(r, S),
                                     steer_type=V('true level', 'true location', 'inverse', 'classic'),
                                     ref=ONEOF(V(1.0, 2.0), VEC(0.5, 1)))},
    'trajectory': {'Trajectory': dict(points=POINTS)},
    'noisesig': {
        'WNoiseGenerator': dict(rms=U(0.5, 2), seed=V(1, 2, 3), num_samples=V(200, 300), sample_freq=V(FS)),
    },
    'signal': {
        'WNoiseGenerator': dict(rms=U(0.5, 2), seed=V(1, 2, 3), num_samples=V(200, 300), sample_freq=V(FS)),
        'PNoiseGenerator': dict(rms=U(0.5, 2), seed=V(1, 2, 3), depth=V(2, 3), num_samples=V(200, 300), sample_freq=V(FS)),
        'FiltWNoiseGenerator': dict(rms=U(0.5, 2), seed=V(1, 2), ar=ONEOF(lambda r, S: {'arr': []}, lambda r, S: {'arr': [1.0, r.choice([0.3, 0.5])]}),
                                    ma=ONEOF(lambda r, S: {'arr': []}, TINY), num_samples=V(200, 300), sample_freq=V(FS)),
        'SineGenerator': dict(freq=U(200, 2000, 1), phase=U(0, 3), amplitude=U(0.5, 2), num_samples=V(200, 300), sample_freq=V(FS)),
        'GenericSignalGenerator': dict(source=REF('tsamples'), amplitude=U(0.5, 2), loop_signal=V(True, False), num_samples=V(200, 500)),
    },
    'tsamples': {
        'TimeSamples': dict(data=lambda r, S: {'noise': [r.randrange(1 << 16), [r.choice([300, 300, 400]), NCH], False]},
                            sample_freq=V(FS, FS, 4000.0)),
        'MaskedTimeSamples': dict(data=NOISE(300, NCH), sample_freq=V(FS, FS, 4000.0), start=V(0, 0, 1, 11, 17), stop=V(None, 250, 122, 22),
                                  invalid_channels=SUB(NCH)),
    },
    'filesamples': {
        'TimeSamples:file': dict(file=FILE()),
        'MaskedTimeSamples:file': dict(file=FILE(), start=V(0, 0, 1, 11, 17), stop=V(None, 250, 122, 22), invalid_channels=SUB(NCH)),
        'TimeSamplesAIAABenchmark': dict(file=FILE()),
        'TriggerAIAABenchmark': dict(file=FILE()),
    },
    'psource': {
        'PointSource': dict(PS, prepadding=V('loop', 'zeros')),
        'PointSourceDipole': dict(PS, direction=TUP(0.2, 1)),
        'SphericalHarmonicSource': dict(PS, lOrder=V(1), direction=TUP(0.2, 1),
                                        alpha=lambda r, S: {'arr': [r.choice([0.5, 1.0]) for _ in range(4)]}),
        'MovingPointSource': MPS,
        'MovingPointSourceDipole': dict(MPS, direction=TUP(0.2, 1), rvec=ONEOF(lambda r, S: {'arr': [0, 0, 0]}, VEC(0.1, 1))),
        'LineSource': dict(PS, signal=REF('noisesig'), direction=TUP(0.2, 1), length=U(0.1, 1), num_sources=V(2, 3),
                           source_strength=lambda r, S: {'arr': [round(r.uniform(0.5, 1), 2) for _ in range(3)]},
                           coherence=V('coherent', 'incoherent')),
        'MovingLineSource': dict(MPS, signal=REF('noisesig'), direction=TUP(0.2, 1), length=U(0.1, 1), num_sources=V(2, 3),
                                 rvec=ONEOF(lambda r, S: {'arr': [0, 0, 0]}, VEC(0.1, 1)),
                                 source_strength=lambda r, S: {'arr': [round(r.uniform(0.5, 1), 2) for _ in range(3)]},
                                 coherence=V('coherent', 'incoherent')),
        'UncorrelatedNoiseSource': dict(signal=REF('noisesig'), mics=REF('mics'),
                                        seed=lambda r, S: {'iarr': [r.randrange(9) for _ in range(NCH)]} if r.random() < 0.5 else {'iarr': []}),
        'PointSourceConvolve': dict(signal=REF('signal'), loc=TUP(0.2, 0.8), mics=REF('mics'), env=REF('env'),
                                    kernel=lambda r, S: {'noise': [r.randrange(99), [r.choice([3, 7]), 1], False]}),
        'SourceMixer': dict(sources=REFS('psource1', 1, 3),
                            weights=ONEOF(lambda r, S: {'arr': []}, lambda r, S: {'arr': [round(r.uniform(0.5, 2), 2)]})),
    },
    'stream': {
        'MaskedTimeOut': dict(source=REF('tsource'), start=V(0, 1, 11, 17), stop=V(None, 150, 122, 22), invalid_channels=SUB(NCH)),
        'ChannelMixer': dict(source=REF('tsource'), weights=ONEOF(lambda r, S: {'arr': []}, VEC(0.5, 2, NCH), VEC(0.5, 2, NCH))),
        'Mixer': dict(source=REF('tsource'), sources=REFS('tsource', 1, 2)),
        'TimePower': dict(source=REF('tsource')),
        'TimeCumAverage': dict(source=REF('tsource')),
        'TimeReverse': dict(source=REF('tsource')),
        'FiltOctave': dict(source=REF('tsource'), band=V(500.0, 1000.0, 2000.0), fraction=V('Octave', 'Third octave'), order=V(2, 3)),
        'FiltFiltOctave': dict(source=REF('tsource'), band=V(500.0, 1000.0), fraction=V('Octave', 'Third octave'), order=V(1, 2)),
        'TimeExpAverage': dict(source=REF('tsource'), weight=V('F', 'S', 'I')),
        'FiltFreqWeight': dict(source=REF('tsource'), weight=V('A', 'C', 'Z')),
        'OctaveFilterBank': dict(source=REF('tsource'), lband=V(25, 26), hband=V(27, 28), fraction=V('Octave', 'Third octave')),
        'TimeConvolve': dict(source=REF('tsource'),
                             kernel=ONEOF(lambda r, S: {'noise': [r.randrange(99), [r.choice([3, 9]), 1], False]},
                                          lambda r, S: {'noise': [r.randrange(99), [9, NCH], False]},
                                          lambda r, S: {'noise': [r.randrange(99), [r.choice([3, 9])], False]},
                                          lambda r, S: {'spike2': [1200, r.randrange(300, 600), 0.5]})),
        'Average': dict(source=REF('tsource'), num_per_average=V(1, 4, 7)),
        'Calib': dict(source=REF('tsource'), data=VEC(0.5, 2, NCH), invalid_channels=SUB(NCH)),
        'Cache': dict(source=REF('tsource')),
        'WriteWAV': dict(source=REF('tsource'), channels=SUB(NCH)),
        'IRFFT': dict(source=REF('rfft'), precision=V('float64', 'float32')),
        'AngleTracker': dict(source=REF('tsource'), trigger=REF('trigger'), trigger_per_revo=V(1, 2), rot_direction=V(1, -1),
                             interp_points=V(4), start_angle=U(0, 3), start=V(0, 5), invalid_channels=SUB(NCH)),
        'SpatialInterpolator': dict(source=REF('tsamples'), mics=REF('mics'), mics_virtual=REF('mics'),
                                    method=V('linear', 'IDW', 'rbf-cubic'), array_dimension=V('2D', 'ring', '3D'), num_IDW=V(2, 3),
                                    p_weight=V(1.0, 2.0)),
        'SpatialInterpolatorConstantRotation': dict(source=REF('tsamples'), mics=REF('mics'), mics_virtual=REF('mics'),
                                                    method=V('linear', 'IDW'), array_dimension=V('ring', '2D'), num_IDW=V(2, 3),
                                                    p_weight=V(1.0, 2.0), rotational_speed=U(-5, 5, 1)),
        'SpatialInterpolatorRotation': dict(source=REF('tsamples'), mics=REF('mics'), mics_virtual=REF('mics'), method=V('linear', 'IDW'),
                                            array_dimension=V('ring', '2D'), num_IDW=V(2, 3), p_weight=V(1.0, 2.0), angle_source=REF('angle')),
        'IntegratorSectorTime': dict(source=REF('tbf1'), grid=REF('rectgrid'), clip=V(-350.0, 0.5),
                                     sectors=lambda r, S: {'sectors': [[-0.4, 0.4, -0.4, round(r.uniform(-0.2, 0.3), 2)] for _ in range(r.choice([1, 2]))]}),
    },
    'trigger': {'Trigger': dict(source=REF('trigsrc'), threshold=V(1.5, 2.0), hunk_length=V(0.1, 0.2))},
    'trigsrc': {'TimeSamples': dict(data=lambda r, S: {'pulses': [300, r.choice([20, 25]), r.choice([0, 3])]}, sample_freq=V(FS))},
    'rfft': {
        'RFFT': dict(source=REF('tsamples'), block_size=V(64, 128), window=V('Rectangular', 'Hanning', 'Hamming'),
                     overlap=V('None', '50%'), scaling=V('none', 'energy', 'amplitude'), precision=V('complex128', 'complex64')),
    },
    'fstream': {
        'AutoPowerSpectra': dict(source=REF('rfft'), scaling=V('power', 'psd'), single_sided=V(True, False), precision=V('float64', 'float32')),
        'CrossPowerSpectra': dict(source=REF('rfft'), scaling=V('power', 'psd'), single_sided=V(True, False), calc_mode=V('full', 'upper', 'lower'),
                                  precision=V('complex128', 'complex64')),
    },
    'ps': {
        'PowerSpectra': dict(source=REF('tsource'), block_size=V(128), window=V('Rectangular', 'Hanning'), overlap=V('None', '50%'),
                             precision=V('complex128', 'complex64'), cached=V(True, False)),
        'PowerSpectraImport': dict(csm=NOISE(65, NCH, NCH, cplx=True), frequencies=lambda r, S: {'lin': [0, r.choice([1000.0, 4000.0]), 65]}),
        'CsmAIAABenchmark': dict(file=FILE()),
    },
    'psf': {'PointSpreadFunction': dict(steer=REF('steer'), grid_indices=lambda r, S: {'iarr': r.choice([[0], [1, 2], []])},
                                        freq=V(1000.0, 1000.001, 1000.004, 2000.0), precision=V('float64', 'float32'),
                                        calcmode=V('single', 'block', 'full'))},
    'bf': {
        'BeamformerBase': BF,
        'BeamformerFunctional': dict({k: v for k, v in BFF.items() if k != 'r_diag'}, gamma=V(1.0, 2.0)),
        'BeamformerEig': dict(BF, n=V(1, 2, 3, -1, -2)),
        'BeamformerMusic': dict({k: v for k, v in BFF.items() if k != 'r_diag'}, n=V(1, 2)),
        'BeamformerDamas': dict(BF, n_iter=V(3, 5), damp=V(1.0, 0.9), psf_precision=V('float64', 'float32'), calcmode=V('full', 'single')),
        'BeamformerDamasPlus': dict(BF, method=V('NNLS', 'LassoLars', 'LP'), alpha=V(0.0, 0.5), n_iter=V(3, 100), unit_mult=V(1e9, 1e6),
                                    psf_precision=V('float64', 'float32'), calcmode=V('full')),
        'BeamformerOrth': dict(BF, n=V(1, 2, 3)),
        'BeamformerCleansc': dict(BF, n_iter=V(0, 2), damp=V(0.6, 0.9), stopn=V(2, 3)),
        'BeamformerClean': dict(BF, n_iter=V(2, 5), damp=V(0.6, 0.9), psf_precision=V('float64', 'float32'), calcmode=V('full', 'block')),
        'BeamformerCMF': dict(BFF, method=V('NNLS', 'LassoLars', 'OMPCV'), alpha=V(0.0, 0.5), n_iter=V(3, 100), unit_mult=V(1e9, 1e6)),
        'BeamformerGIB': dict({k: v for k, v in BFF.items() if k != 'r_diag'}, method=V('LassoLars', 'OMPCV'), n=V(1, 2), m=V(1, 2), alpha=V(0.0, 0.3),
                              pnorm=V(1.0, 0.9), beta=V(0.9, 0.8), eps_perc=V(0.05, 0.1), n_iter=V(3, 6)),
        'BeamformerSODIX': dict(BFF, n_iter=V(3, 5), alpha=V(0.0, 0.5), unit_mult=V(1e9, 1e6)),
        'BeamformerGridlessOrth': dict(BFF, eva_list=lambda r, S: {'iarr': r.choice([[-1], [-2], [-1, -2]])},
                                       bounds=lambda r, S: {'bounds': [[-0.2, r.choice([0.2, 0.3])], [-0.2, 0.2], [0.4, 0.6]]},
                                       shgo=lambda r, S: {'shgo': r.choice([8, 16])}),
    },
    'tbf': {
        'BeamformerTime': TBF,
        'BeamformerTimeSq': dict(TBF, r_diag=V(True, False)),
        'BeamformerTimeTraj': TTR,
        'BeamformerTimeSqTraj': dict(TTR, r_diag=V(True, False)),
        'BeamformerCleant': dict(TBF, damp=V(0.6, 0.9), n_iter=V(1, 2)),
        'BeamformerCleantSq': dict(TBF, damp=V(0.6, 0.9), n_iter=V(1, 2), r_diag=V(True, False)),
        'BeamformerCleantTraj': dict(TTR, damp=V(0.6, 0.9), n_iter=V(1, 2)),
        'BeamformerCleantSqTraj': dict(TTR, damp=V(0.6, 0.9), n_iter=V(1, 2), r_diag=V(True, False)),
    },
}
# kinds that are unions or restrictions of others
ALIAS = {
    'basegrid': [('grid', 'RectGrid'), ('grid', 'LineGrid'), ('grid', 'RectGrid3D'), ('grid', 'ImportGrid')],
    'tsource': [('tsamples', 'TimeSamples')] * 3 + [('tsamples', 'MaskedTimeSamples')] * 2 + [
        ('psource', 'PointSource'), ('psource', 'PointSourceDipole'), ('psource', 'UncorrelatedNoiseSource'),
        ('stream', 'FiltOctave'), ('stream', 'MaskedTimeOut'), ('stream', 'Calib'), ('stream', 'TimeExpAverage'), ('stream', 'Cache'),
        ('stream', 'TimeConvolve'), ('filesamples', 'TimeSamples:file'), ('filesamples', 'MaskedTimeSamples:file'),
        ('filesamples', 'TimeSamplesAIAABenchmark')],
    'anymics': [('mics', 'MicGeom')] * 5 + [('filemics', 'MicGeom:file'), ('filemics', 'MicAIAABenchmark')],
    'psource1': [('psource', 'PointSource'), ('psource', 'UncorrelatedNoiseSource'), ('psource', 'PointSourceDipole')],
    'tbf1': [('tbf', 'BeamformerTime'), ('tbf', 'BeamformerTimeSq')],
    'rectgrid': [('grid', 'RectGrid')],
    'anyenv': [('env', 'Environment')] * 6 + [('env', 'UniformFlowEnvironment')] * 5 + [('genv', 'GeneralFlowEnvironment')],
    'angle': [('stream', 'AngleTracker')],
}
ROOTS = [(k, c) for k, d in CLS.items() for c in d if k not in ('noisesig', 'trigsrc')]
FOCUS = [(k, c, n) for k, d in CLS.items() for c in d if k not in ('noisesig', 'trigsrc') for n in d[c]]
FSTEP = next(n for n in (7, 11, 13, 17) if len(FOCUS) % n)
ARRAYISH = ('arr', 'iarr', 'noise', 'spike', 'spike2', 'lin', 'pulses')


class Gen:
    """Generates an object graph: objs[id] = dict(kind, cls, a={attr: value})."""

    def __init__(self, rng, depth=3):
        self.objs = {}
        self.rng = rng
        self.depth = depth
        self.d = 0

    def obj(self, rng, kind, cls=None, fresh=False):
        have = [i for i, o in self.objs.items() if kind in o['kinds'] and o['a'] is not None]
        if have and not fresh and cls is None and rng.random() < (0.75 if kind in ('mics', 'env') else 0.3):
            return rng.choice(have)
        k = kind
        if cls is None:
            if kind in ALIAS:
                ch = ALIAS[kind] if self.d < self.depth else ALIAS[kind][:1]
                k, cls = rng.choice(ch)
            else:
                names = list(CLS[kind])
                if self.d >= self.depth:
                    names = [n for n in names if n not in ('GenericSignalGenerator', 'SourceMixer', 'MergeGrid')]
                cls = rng.choice(names)
        i = f'o{len(self.objs)}'
        kinds = [k] + [a for a, c in ALIAS.items() if (k, cls) in c]
        if k == 'signal' and cls == 'WNoiseGenerator':
            kinds.append('noisesig')
        if k == 'noisesig':
            kinds.append('signal')
        self.objs[i] = dict(kind=k, kinds=kinds, cls=cls, a=None)
        self.d += 1
        a = {n: g(rng, self) for n, g in CLS[k][cls].items()}
        self.d -= 1
        self.objs[i]['a'] = a
        return i


# ---------------------------------------------------------------- building objects

def make_file(d, name, ext):
    """A file with recording, cross spectra and microphones in all supported formats; the content depends on the directory."""
    import h5py

    path = os.path.join(os.getcwd(), f'd{d}', f'{name}.{ext}')
    if os.path.exists(path):
        return path
    os.makedirs(os.path.dirname(path), exist_ok=True)
    r = np.random.Generator(np.random.PCG64(1000 + d + 7 * (name == 'y')))
    y = r.standard_normal((300, NCH))
    c = r.standard_normal((65, NCH, NCH)) + 1j * r.standard_normal((65, NCH, NCH))
    c = c @ c.conj().swapaxes(1, 2)
    m = 0.3 * r.standard_normal((3, NCH))
    m[2] = 0
    if ext == 'xml':
        with open(path, 'w') as f:
            f.write('<?xml version="1.0" encoding="utf-8"?><MicArray name="a">'
                    + ''.join(f'<pos Name="P{i}" x="{a!r}" y="{b!r}" z="{z!r}"/>' for i, (a, b, z) in enumerate(m.T.tolist())) + '</MicArray>')
        return path
    with h5py.File(path, 'w') as f:
        for n, z, a in (('time_data', y, 'sample_freq'), ('MicrophoneData/microphoneDataPa', 2 * y, 'sampleRateHz'),
                        ('TachoData/tachoDataV', y[:, :1], 'sampleRateHz')):
            f[n] = z
            f[n].attrs[a] = FS
        f['CsmData/csmReal'] = c.real.transpose(1, 2, 0)
        f['CsmData/csmImaginary'] = c.imag.transpose(1, 2, 0)
        f['CsmData/binCenterFrequenciesHz'] = np.linspace(0, 4000.0, 65)
        f['CsmData'].attrs['fftSign'] = -1
        f['MetaData/ArrayAttributes/microphonePositionsM'] = m.T
        f['MetaData/ArrayAttributes'].attrs['microphoneCount'] = NCH
        f['metadata/remark'] = np.array([d])
    return path


class World:
    """Real objects for a configuration (objs); ids are created on demand."""

    def __init__(self, objs):
        self.objs = objs
        self.live = {}

    def value(self, v):
        import acoular as ac

        if not isinstance(v, dict):
            return v
        (k, x), = v.items()
        if k == 'ref':
            return self.get(x)
        if k == 'refs':
            return [self.get(i) for i in x]
        if k == 'arr':
            return np.array(x, dtype=float)
        if k == 'iarr':
            return np.array(x, dtype=int)
        if k == 'tup':
            return tuple(x)
        if k == 'list':
            return list(x)
        if k == 'noise':
            seed, shape, cplx = x
            r = np.random.Generator(np.random.PCG64(seed))
            a = r.standard_normal(shape)
            if cplx:
                a = a + 1j * r.standard_normal(shape)
                if len(shape) == 3:
                    a = a @ a.conj().swapaxes(1, 2)
            if shape == [3, NCH]:
                a[2] = 0
                a *= 0.3
            elif shape[0] == 3 and not cplx:
                a[2] = 0.5 + 0.1 * np.abs(a[2])
                a[:2] *= 0.2
            elif shape[0] == 300:  # recordings often start with silence
                a[0] = 0
            return a
        if k in ('spike', 'spike2'):
            n, j, val = x
            a = np.zeros(n)
            a[0] = 1.0
            a[j] = val
            return a if k == 'spike' else a[:, None]
        if k == 'lin':
            return np.linspace(*x)
        if k == 'file':
            return make_file(*x)
        if k == 'pulses':
            n, per, off = x
            a = np.zeros((n, 1))
            a[off::per] = 3.0
            return a
        if k == 'points':
            return {t: tuple(p) for t, p in x}
        if k == 'sectors':
            return [ac.RectSector(x_min=s[0], x_max=s[1], y_min=s[2], y_max=s[3]) for s in x]
        if k == 'bounds':
            return [tuple(b) for b in x]
        if k == 'shgo':
            return {'n': x, 'iters': 1, 'minimizer_kwargs': {'method': 'Nelder-Mead', 'options': {'maxiter': 10}}}
        raise KeyError(k)

    def get(self, i):
        if i not in self.live:
            import acoular as ac

            o = self.objs[i]
            kw = {n: self.value(v) for n, v in o['a'].items()}
            self.live[i] = (getattr(ac, o['cls'].split(':')[0], None) or getattr(ac.aiaa, o['cls']))(**kw)
        return self.live[i]


def deps(objs, i, seen=None):
    seen = set() if seen is None else seen
    if i in seen:
        return seen
    seen.add(i)
    for v in objs[i]['a'].values():
        if isinstance(v, dict):
            for x in ([v['ref']] if 'ref' in v else v.get('refs', [])):
                deps(objs, x, seen)
    return seen


def observe(kind, cls, x, num):
    """What the user sees; the entries in the first dict are identified by the digest."""
    import acoular as ac

    r, extra = {}, {}
    if kind == 'grid':
        r = dict(pos=x.pos, size=x.size, shape=x.shape)
        extra = dict(sub=[np.asarray(s) for s in x.subdomain(ac.RectSector(x_min=-0.2, x_max=0.2, y_min=-0.2, y_max=0.2))])
        if cls in ('RectGrid', 'RectGrid3D'):
            extra.update(n=(x.nxsteps, x.nysteps), ext=x.extend())
    elif kind in ('mics', 'filemics'):
        r = dict(pos=x.pos, num=x.num_mics, center=x.center, aperture=x.aperture)
    elif kind in ('env', 'genv'):
        g = np.array([[0.1, 0.0], [0.2, 0.1], [0.6, 0.5]])
        m = np.array([[0.3, -0.1, 0.2], [0.1, 0.2, 0.2], [0.0, 0.0, 0.0]])
        r = dict(r=x._r(g, m))
    elif kind == 'flow':
        r = dict(v=np.concatenate([np.ravel(y) for y in x.v(np.array([0.3, 0.07, 0.11]))]))
    elif kind == 'steer':
        r = dict(r0=x.r0, rm=x.rm, tr=x.transfer(1000.0), sv=x.steer_vector(1000.0))
    elif kind == 'trajectory':
        a, b = x.interval
        r = dict(loc=np.array(x.location(np.linspace(a, b, 5))), iv=(float(a), float(b)), tr=np.array(list(x.traj(0.01))))
    elif kind in ('signal', 'noisesig'):
        r = dict(s=x.signal(), n=x.num_samples)
        extra = dict(u=x.usignal(2), f=x.sample_freq)
    elif kind == 'trigger':
        d = x.trigger_data
        r = dict(d=d[0], e=d[1:])
    elif kind in ('ps',):
        r = dict(csm=x.csm[:])
        extra = dict(f=x.fftfreq(), nc=x.num_channels, eva=x.eva[:])
        if cls == 'PowerSpectra':
            extra['nb'] = x.num_blocks
    elif kind == 'psf':
        extra = dict(psf=x.psf[:])
    elif kind == 'bf':
        if cls == 'BeamformerGridlessOrth':
            res = [x.result[10], x.result[21]]
            r = dict(a=np.array(res))
            n = len(x.eva_list)
            extra = dict(pos=np.array(x.pos[:, sorted({10 * n, 21 * n, 22 * n - 1})]))
        else:
            r = dict(a=x.result[10], b=x.result[21])
            if cls != 'BeamformerSODIX':
                extra = dict(c=x.synthetic(float(x.freq_data.fftfreq()[10]), 0))
    elif cls == 'SpatialInterpolator':
        r = dict(nc=x.num_channels)
        d = np.concatenate([b.copy() for b in x.source.result(512)])[:3]
        r['d'] = x._result_core_func(d, interp_at_zero=False)
    elif cls == 'AngleTracker':
        r = dict(rpm=x.rpm, ang=x.angle, av=x.average_rpm)
    else:
        b = [y.copy() for y in x.result(num)]
        r = dict(y=np.concatenate(b) if b else np.zeros(0), nc=x.num_channels, fs=x.sample_freq)
        extra = dict(ns=x.num_samples)
        if kind == 'filesamples':
            extra.update(meta=[float(v[0]) for n, v in x.metadata.items() if n == 'remark'])
        if kind in ('rfft', 'fstream'):
            extra.update(nf=x.num_freqs, bs=x.block_size, f=x.freqs)
        if cls.split(':')[0] in ('MaskedTimeSamples', 'MaskedTimeOut'):
            extra.update(tot=(x.num_samples_total, x.num_channels_total))
    return r, extra


def same(a, b, rtol):
    from dst import lib

    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, rtol) for x, y in zip(a, b, strict=True))
    return lib.close(np.asarray(a), np.asarray(b), rtol)


class P(Property):
    id = 'C07'
    technique = 'deterministic simulation: seeded histories of edits and reads against freshly built objects as reference model'
    rule = (
        'One evaluation = one object graph (root class drawn from 70 classes, shared sub-objects) and a history of 4-14 steps: '
        'assignment of an attribute of any object of the graph, exchange of a sub-object, in-place change of a list or '
        'dictionary trait, read of any object; caching mode and HDF5 library drawn. Each read is compared with a '
        'newly built graph of the same configuration without caching, results and digests; all digests seen in the run '
        'are compared pairwise (equal digest, different result = collision). Non-trivial: an object was read, something it '
        'depends on was edited, and it was read again with another result. Distinct: by event-log digest.'
    )
    distinct_measure = 'digest of the configuration, edits and results'
    assumptions = (
        'Arrays are replaced, not modified in place (numpy arrays cannot notify).',
        'A configuration for which the freshly built objects raise an error is not judged, except that the edited objects raise one, too.',
        'Agreement means 1e-9 (single precision: 1e-4) of the largest magnitude.',
    )
    components = {
        'real': ['all classes of acoular with a digest or derived properties', 'traits notification', 'PyTables/h5py cache files'],
        'stub': ['none (in-memory recordings)'],
    }
    quick_runs = 2600
    quick_budget = 200
    thorough_runs = 60000
    batch = 8

    def scenario(self, rng, i, tier):
        g = Gen(rng, rng.choice([2, 3]))
        focus = i % 3 != 2  # every attribute of every class in turn
        if focus:
            kind, cls, fn = FOCUS[(i - i // 3) * FSTEP % len(FOCUS)]
        else:
            kind, cls = ROOTS[i % len(ROOTS)] if rng.random() < 0.7 else rng.choice(ROOTS)
        root = g.obj(rng, kind, cls)
        chans = None
        if kind in ('bf', 'tbf') and rng.random() < 0.35:  # microphones and recording change their valid channels together
            top = root
            if kind == 'bf':
                if g.objs[g.objs[root]['a']['freq_data']['ref']]['cls'] != 'PowerSpectra':
                    g.objs[root]['a']['freq_data'] = {'ref': g.obj(rng, 'ps', 'PowerSpectra')}
                top = g.objs[root]['a']['freq_data']['ref']
            if g.objs[g.objs[top]['a']['source']['ref']]['cls'] not in ('MaskedTimeSamples', 'MaskedTimeOut'):
                g.objs[top]['a']['source'] = {'ref': g.obj(rng, 'tsamples', 'MaskedTimeSamples')}
            chans = [g.objs[top]['a']['source']['ref'], g.objs[g.objs[root]['a']['steer']['ref']]['a']['mics']['ref']]
            sets = [SUB(NCH)(rng, g) for _ in range(2)]
            for c in chans:
                g.objs[c]['a']['invalid_channels'] = sets[0]
        objs = {k: dict(v, a=dict(v['a'])) for k, v in g.objs.items()}
        steps = []
        if chans:
            rng.shuffle(chans)
            steps.append(['read', root, 64])
            for c in chans:
                g.objs[c]['a']['invalid_channels'] = sets[1]
                steps.append(['set', c, 'invalid_channels', sets[1]])
                if rng.random() < 0.3:
                    steps.append(['read', root, 64])
            steps.append(['read', root, 64])
        if focus:  # the attribute in turn gets another value between two reads
            a = g.objs[root]['a']
            for _ in range(12):
                nv = CLS[kind][cls][fn](rng, g)
                refs = ([nv['ref']] if 'ref' in nv else nv.get('refs', [])) if isinstance(nv, dict) else []
                if nv != a[fn] and not any(root in deps(g.objs, r) for r in refs):
                    break
            else:
                nv = a[fn]
            for k in [k for k in g.objs if k not in objs]:
                objs[k] = dict(g.objs[k], a=dict(g.objs[k]['a']))
            a[fn] = nv
            num = rng.choice([16, 50, 128])
            steps += [['read', root, num], ['set', root, fn, nv], ['read', root, num]]
        reads = [root] * 3 + sorted(deps(objs, root))
        for _ in range(rng.randint(0, 3) if focus else rng.randint(3, 12)):
            if rng.random() < 0.45:
                steps.append(['read', rng.choice(reads), rng.choice([16, 50, 128])])
                continue
            d = sorted(deps(g.objs, root))
            o = rng.choice(d + [root] * (1 + len(d) // 2))
            a = g.objs[o]['a']
            names = [n for n in a if not (isinstance(a[n], dict) and ('ref' in a[n] or 'refs' in a[n])) or rng.random() < 0.3]
            if not names:
                continue
            n = rng.choice(names)
            v = a[n]
            if isinstance(v, dict) and ('list' in v or 'refs' in v) and rng.random() < 0.4:
                key = 'list' if 'list' in v else 'refs'
                op = rng.choice(['append', 'pop', 'set0'])
                x = list(v[key])
                kd = None
                if op in ('append', 'set0'):
                    if key == 'list':
                        cand = [c for c in range(NCH) if c not in x]
                        if op == 'append' and len(x) > 1:
                            continue
                        el = rng.choice(cand)
                    else:
                        kd = next(k for k in ('basegrid', 'psource1', 'tsource') if k in g.objs[x[0]]['kinds']) if x else None
                        if kd is None:
                            continue
                        el = g.obj(rng, kd)
                        if o in deps(g.objs, el):
                            continue
                else:
                    el = None
                if (op in ('pop', 'set0') and not x) or (op == 'pop' and key == 'refs' and len(x) < 2):
                    continue
                if op == 'append':
                    x.append(el)
                elif op == 'pop':
                    x.pop()
                else:
                    x[0] = el
                nv = {key: x}
                st = ['mut', o, n, op, el, nv]
            elif isinstance(v, dict) and 'points' in v and rng.random() < 0.5:
                j = rng.randrange(len(v['points']))
                pts = [list(p) for p in v['points']]
                pts[j] = [pts[j][0], [round(rng.uniform(-0.3, 0.3), 3) for _ in range(2)] + [0.7]]
                nv = {'points': pts}
                st = ['mut', o, n, 'key', pts[j], nv]
            else:
                nv = CLS[g.objs[o]['kind']][g.objs[o]['cls']][n](rng, g)
                refs = ([nv['ref']] if 'ref' in nv else nv.get('refs', [])) if isinstance(nv, dict) else []
                if any(o in deps(g.objs, r) for r in refs):
                    continue
                st = ['set', o, n, nv]
            for k in [k for k in g.objs if k not in objs]:
                objs[k] = dict(g.objs[k], a=dict(g.objs[k]['a']))
            a[n] = nv
            steps.append(st)
            if rng.random() < 0.6:
                steps.append(['read', root, rng.choice([16, 50, 128])])
        steps.append(['read', root, 64])
        return dict(root=root, objs=objs, steps=steps, mode=rng.choice(['none', 'individual', 'individual', 'all']),
                    lib=rng.choice(['pytables', 'h5py']))

    def nontrivial(self, sc, rec):
        return rec['probes'].get('changed_result', 0) > 0

    def execute(self, sc, run):
        import acoular as ac

        warnings.simplefilter('ignore')
        ac.config.h5library = sc['lib']
        ac.config.global_caching = sc['mode']
        objs = {k: dict(v, a=dict(v['a'])) for k, v in sc['objs'].items()}
        live = World(objs)
        live.get(sc['root'])
        digests = {}
        last = {}
        where = '?'
        for k, st in enumerate(sc['steps']):
            run.steps += 1
            if st[0] == 'set':
                _, o, n, v = st
                objs[o]['a'][n] = v
                if o in live.live:
                    setattr(live.live[o], n, live.value(v))
                run.log('set', o, objs[o]['cls'], n)
                where = f"{objs[o]['cls']}.{n}"
                run.fault('edit')
            elif st[0] == 'mut':
                _, o, n, op, el, nv = st
                objs[o]['a'][n] = nv
                if o in live.live:
                    t = getattr(live.live[o], n)
                    if op == 'key':
                        t[el[0]] = tuple(el[1])
                    else:
                        x = live.get(el) if 'refs' in nv and el is not None else el
                        if op == 'append':
                            t.append(x)
                        elif op == 'pop':
                            t.pop()
                        else:
                            t[0] = x
                run.log('mut', o, objs[o]['cls'], n, op)
                where = f"{objs[o]['cls']}.{n}[]"
                run.fault('in_place_edit')
            else:
                self.read(sc, run, live, objs, st[1], st[2], digests, last, where, k)
        run.simtime += 0.1

    def read(self, sc, run, live, objs, o, num, digests, last, where, k):
        import acoular as ac

        if o not in deps(objs, sc['root']):
            return
        kind, cls = objs[o]['kind'], objs[o]['cls']
        ac.config.global_caching = 'none'
        fresh = World(objs)
        err = ref = fd = None
        try:
            f = fresh.get(o)
            ref = observe(kind, cls, f, num)
            fd = f.digest
        except Exception as e:  # noqa: BLE001
            err = type(e).__name__
        ac.config.global_caching = sc['mode']
        try:
            x = live.get(o)
            d0 = x.digest if k % 2 else None
            got = observe(kind, cls, x, num)
            gd = x.digest
            if d0 not in (None, gd):
                raise Violation('digest-changed-by-read', cls, f'step {k}: reading the result changes the digest')
        except Violation:
            raise
        except Exception as e:  # noqa: BLE001
            if err is None:
                import traceback

                raise Violation('error-after-edit', cls, f'step {k}: {type(e).__name__}: {str(e)[:200]}; last edit {where}\n'
                                + traceback.format_exc()[-700:]) from e
            run.log('error', o, err)
            return
        if err is not None:
            if os.environ.get('DST_C07'):
                raise Violation('fresh-error', cls, f'step {k}: fresh objects raise {err}')
            raise Violation('no-error-after-edit', cls, f'step {k}: a result is delivered although new objects raise {err}; last edit {where}')
        rtol = 1e-4 if self.single(objs, o) else 1e-9
        for a, b in zip(got, ref, strict=True):
            for n in b:
                if not same(a[n], b[n], rtol):
                    from dst import lib

                    raise Violation('stale', f'{cls}', f'step {k}: {n} of {cls} differs from new objects after edit of {where}: '
                                    + (lib.diff(a[n], b[n]) if isinstance(b[n], np.ndarray) else f'{a[n]!r} != {b[n]!r}'))
        if gd != fd:
            raise Violation('digest-differs', cls, f'step {k}: digest of equal configurations differs, last edit {where}')
        key = ref[0]
        if cls.startswith('BeamformerCleant'):  # works block by block
            fd = (fd, num)
        run.log('read', o, {n: np.asarray(v).astype(complex).sum().round(6) if v is not None and n != 'shape' else v for n, v in key.items()})
        run.state(kind, cls, k > 0)
        for od, ocls, okey, odesc in digests.get(cls, ()):
            if od == fd and not all(same(key[n], okey[n], max(rtol, 1e-9)) for n in key if n != 'ns'):
                raise Violation('digest-collision', cls, f'step {k}: same digest, other result: {self.desc_diff(odesc, self.desc(objs, o))}')
        digests.setdefault(cls, []).append((fd, cls, key, self.desc(objs, o)))
        if o in last and not all(same(key[n], last[o][n], rtol) for n in key):
            run.probe('changed_result')
            run.probe('changed:' + cls)
        last[o] = key

    def desc(self, objs, o):
        return {f"{objs[i]['cls']}.{n}": v for i in sorted(deps(objs, o)) for n, v in objs[i]['a'].items()}

    def desc_diff(self, a, b):
        return {k: (a.get(k), b.get(k)) for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)}

    def single(self, objs, o):
        return any(v in ('float32', 'complex64') if isinstance(v, str) else n == 'precision' and v == 32
                   for i in deps(objs, o) for n, v in objs[i]['a'].items())

    def shrink(self, sc):
        st = sc['steps']
        for i in range(len(st)):
            if len(st) > 1:
                yield dict(sc, steps=st[:i] + st[i + 1 :])
        if sc['mode'] != 'none':
            yield dict(sc, mode='none')
        if sc['lib'] != 'h5py':
            yield dict(sc, lib='h5py')


PROPERTY = P()
