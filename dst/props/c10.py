"""C10: WriteWAV writes the selected channels in order, scaled to the full range."""

import os
import resource
import signal
import struct
import warnings

import numpy as np

from dst.core import Property, Violation


class P(Property):
    id = 'C10'
    technique = 'deterministic simulation: seeded recordings, failing sources and a disk that becomes full, judged by an independent WAV reader'
    rule = (
        'One evaluation = one simulated process that exports 1-3 signals with WriteWAV: 0-5000 samples (up to 5 blocks), '
        '1-6 channels of which any sequence is selected, amplitudes from 1e-30 to 1e30, silence, a single peak in a drawn '
        'block, offsets, extreme integers, four sample types, three ways a source hands out its blocks; faults: the source fails '
        'in the first or the second pass at a drawn block, the file may not grow beyond a drawn size. Afterwards the export '
        'is repeated without fault. The file is parsed by an independent reader: header, number of frames, rate, and every '
        'sample of every channel against the source. Non-trivial: a fault hit, or more than one block. Distinct: by digest.'
    )
    distinct_measure = 'digest of the exports, their outcomes and the bytes of the files'
    assumptions = (
        'The signals are finite and the source can be read twice.',
        'The full range is used when the largest magnitude is between 0.8 and 1 times 2**15.',
    )
    components = {
        'real': ['acoular.WriteWAV and a chain of time-domain steps before it', 'Python wave module, the file system'],
        'stub': ['scripted source with read faults', 'file size limit of the process as the full disk'],
    }
    quick_runs = 3000
    quick_budget = 40
    thorough_runs = 200000
    batch = 16

    def scenario(self, rng, i, tier):
        jobs = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            ch = rng.randint(1, 6)
            n = rng.choice([0, 1, rng.randint(2, 1023), 1024, 1025, rng.randint(1026, 5000), rng.randint(1026, 3000)])
            nsel = rng.choice([1, 1, 2, 2, 3, ch])
            jobs.append(dict(ch=ch, n=n, seed=rng.randrange(1 << 20), sel=[rng.randrange(ch) for _ in range(nsel)],
                             dtype=rng.choice(['float64', 'float64', 'float32', 'int16', 'int32']),
                             amp=rng.choice([1.0, 1.0, 1e-30, 1e-5, 3e4, 1e30]), shape=rng.choice(['noise', 'noise', 'silence', 'peak', 'offset', 'extreme', 'quiet']),
                             at=rng.random(), fs=rng.choice([44100.0, 51200.0, 44100.6, 8000.4, 1000.0]),
                             style=rng.choice(['fresh', 'view', 'reuse']), chain=rng.choice(['none', 'none', 'power', 'octave', 'mask']),
                             name=rng.choice(['', 'out.wav', 'out.wav', 'other.wav']),
                             fault=rng.choice([None, None, 'source', 'disk']), fpass=rng.randrange(2), fblock=rng.randint(0, 5),
                             limit=rng.choice([0, 20, 44, 45, 1000, rng.randint(44, 20000)])))
        return dict(jobs=jobs)

    def nontrivial(self, sc, rec):
        return sum(rec['faults'].values()) > 0 or any(j['n'] > 1024 for j in sc['jobs'])

    def signal(self, j):
        from dst import lib

        n, ch = j['n'], j['ch']
        x = lib.noise(j['seed'], n, ch)
        at = min(n - 1, int(j['at'] * n)) if n else 0
        if j['shape'] == 'silence':
            x[:] = 0
        elif j['shape'] == 'peak' and n:
            x *= 1e-3
            x[at, j['sel'][-1]] = -7
        elif j['shape'] == 'offset':
            x = x * 0.01 - 3
        elif j['shape'] == 'quiet':  # the loud channel is not selected, or the selected ones differ much
            x[:, j['sel'][0]] *= 1e-3
        x *= j['amp']
        if j['dtype'].startswith('int'):
            m = float(np.abs(x).max()) if n else 1.0
            top = np.iinfo(j['dtype']).max
            x = np.round(x / m * top * 0.9) if m else x
            if j['shape'] == 'extreme' and n:
                x[at, j['sel'][0]] = np.iinfo(j['dtype']).min
        return x.astype(j['dtype'])

    def execute(self, sc, run):
        from dst import session as S

        def inside(emit):
            self.inside(sc, emit)

        how, rep = S.session(inside)
        if how != 'ok':
            raise Violation('session-died', 'WriteWAV', how)
        for r in rep:
            run.steps += 1
            _, i, turn, outcome, msg, fds, raw, ref, fs, limited = r
            j = sc['jobs'][i]
            where = f'job {i}.{turn} {j["n"]}x{j["ch"]} {j["dtype"]} {j["shape"]} sel={j["sel"]} chain={j["chain"]}'
            run.log(i, turn, outcome, raw and (len(raw), hash_(raw)))
            run.state(j['shape'], j['dtype'], j['fault'], outcome, len(j['sel']), j['n'] > 1024)
            if fds:
                raise Violation('file-left-open', 'WriteWAV', f'{where}: {outcome}')
            if outcome == 'failed':
                run.fault('source_read_error')
                if raw is not None and len(raw) >= 44:
                    parse(raw, where)
                continue
            if outcome == 'oserror' and limited:
                run.fault('disk_full')
                continue
            if outcome != 'full':
                raise Violation('spurious-error', 'WriteWAV', f'{where}: {outcome} {msg}')
            self.content(run, j, where, raw, ref, fs)
            run.probe('files_checked')
        run.simtime += 1.0

    def content(self, run, j, where, raw, x, fs):
        nch, rate, width, y = parse(raw, where)
        if nch != len(j['sel']) or width != 2:
            raise Violation('wrong-channels', 'WriteWAV', f'{where}: {nch} channels of {width} bytes')
        if rate != int(round(fs)):
            raise Violation('wrong-rate', 'WriteWAV', f'{where}: {rate}, expected {fs}')
        if y.shape[0] != x.shape[0]:
            raise Violation('wrong-length', 'WriteWAV', f'{where}: {y.shape[0]} of {x.shape[0]} frames')
        x = x[:, j['sel']].astype(float)
        m = np.abs(x).max() if x.size else 0.0
        if m == 0:
            if y.size and np.abs(y).max() > 0:
                raise Violation('silence-not-silent', 'WriteWAV', f'{where}: {np.abs(y).max()}')
            return
        top = float(np.abs(y.astype(float)).max())
        if not 0.8 * 2**15 - 1 <= top <= 2**15 - 1:
            raise Violation('not-normalised', 'WriteWAV', f'{where}: largest magnitude {top}')
        # one common factor; its value follows from the largest sample within rounding
        lo, hi = (top - 1) / m, (top + 1) / m
        e = np.maximum(x * lo, x * hi) + 1.001 - y, y - (np.minimum(x * lo, x * hi) - 1.001)
        if min(e[0].min(), e[1].min()) < 0:
            k = np.unravel_index(int(np.minimum(e[0], e[1]).argmin()), y.shape)
            raise Violation('wrong-samples', 'WriteWAV', f'{where}: frame {k[0]} channel {k[1]}: {y[k]}, expected {x[k] / m * top:.1f}')

    def inside(self, sc, emit):
        import acoular as ac

        from dst import lib

        warnings.simplefilter('ignore')
        np.seterr(all='ignore')
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        top = os.getcwd()
        for i, j in enumerate(sc['jobs']):
            os.makedirs(os.path.join(top, f'wav{i}'), exist_ok=True)
            os.chdir(os.path.join(top, f'wav{i}'))
            src = lib.make_source(self.signal(j), j['fs'], style=j['style'])
            o = src
            if j['chain'] == 'power':
                o = ac.TimePower(source=src)
            elif j['chain'] == 'octave':
                o = ac.FiltOctave(source=src, band=200.0)
            elif j['chain'] == 'mask' and j['n']:
                o = ac.MaskedTimeInOut(source=src)
            ref = lib.cat(lib.collect(o.result(1024)), j['ch']) if j['n'] else np.zeros((0, j['ch']))
            if not np.isfinite(ref).all():
                continue
            p0 = src.passes
            w = ac.WriteWAV(source=o, channels=list(j['sel']))
            for turn in (0, 1):
                limited = None
                src.fail = None
                name = j['name']
                if name:
                    w.file = name
                if turn == 0 and j['fault'] == 'source':
                    src.fail = {p0 + j['fpass']: j['fblock']}
                soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
                if turn == 0 and j['fault'] == 'disk' and j['limit'] < 44 + 2 * j['n'] * len(j['sel']):
                    limited = j['limit']
                    resource.setrlimit(resource.RLIMIT_FSIZE, (limited, hard))
                outcome, msg = 'full', ''
                nfd = len(os.listdir('/proc/self/fd'))
                try:
                    w.save()
                except lib.SimIOError:
                    outcome = 'failed'
                except OSError as e:
                    outcome, msg = 'oserror', str(e)
                except Exception as e:  # noqa: BLE001
                    import traceback

                    outcome, msg = type(e).__name__, str(e) + traceback.format_exc()[-500:]
                resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
                p0 = src.passes
                if limited is not None and outcome == 'full':
                    outcome, msg = 'lost-error', f'file size limited to {limited}'
                    limited = None
                raw = None
                there = sorted(os.listdir('.'))
                if there:
                    with open(name or there[0], 'rb') as h:
                        raw = h.read()
                emit((0, i, turn, outcome, msg, max(0, len(os.listdir('/proc/self/fd')) - nfd), raw, ref, j['fs'], limited is not None))
                if j['fault'] is None:
                    break

    def shrink(self, sc):
        for a in range(len(sc['jobs'])):
            if len(sc['jobs']) > 1:
                yield dict(sc, jobs=sc['jobs'][:a] + sc['jobs'][a + 1 :])
            for kw in (dict(fault=None), dict(chain='none'), dict(shape='noise'), dict(amp=1.0), dict(dtype='float64'), dict(style='fresh'),
                       dict(name='out.wav'), dict(n=1), dict(n=10), dict(n=1030), dict(sel=[0]), dict(fs=1000.0)):
                if any(sc['jobs'][a][k] != v for k, v in kw.items()):
                    yield dict(sc, jobs=sc['jobs'][:a] + [dict(sc['jobs'][a], **kw)] + sc['jobs'][a + 1 :])


def hash_(b):
    import hashlib

    return hashlib.md5(b).hexdigest()[:10]


def parse(b, where):
    """Independent reader of uncompressed WAV files."""

    def bad(msg):
        raise Violation('bad-wav', 'WriteWAV', f'{where}: {msg}')

    if b is None:
        bad('no file')
    if b[:4] != b'RIFF' or b[8:12] != b'WAVE':
        bad('no RIFF header')
    (size,) = struct.unpack('<I', b[4:8])
    if size != len(b) - 8:
        bad(f'RIFF size {size}, file {len(b)}')
    pos, fmt = 12, None
    while pos + 8 <= len(b):
        cid = b[pos : pos + 4]
        (n,) = struct.unpack('<I', b[pos + 4 : pos + 8])
        if cid == b'fmt ':
            fmt = struct.unpack('<HHIIHH', b[pos + 8 : pos + 24])
        if cid == b'data':
            if fmt is None:
                bad('no format')
            tag, nch, rate, bps, align, bits = fmt
            if tag not in (1, 0xFFFE) or align != nch * bits // 8 or bps != rate * align:
                bad(f'format {fmt}')
            d = b[pos + 8 : pos + 8 + n]
            if len(d) != n or n % align:
                bad(f'data size {n}, {len(d)} there')
            return nch, rate, bits // 8, np.frombuffer(d, '<i2').reshape(-1, nch) if bits == 16 else np.zeros((0, nch))
        pos += 8 + n + (n & 1)
    bad('no data')


PROPERTY = P()
