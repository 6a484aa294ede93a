"""C11: recording from a sound device: every frame once, overflows reported, the device released."""

import gc
import os
import warnings

import numpy as np

from dst.core import Property, Violation


class DeviceError(OSError):
    pass


class Hardware:
    """Simulated sound hardware: devices that deliver numbered frames, lose data, and fail as planned."""

    def __init__(self, devices, plan, run):
        self.devices = devices
        self.plan = plan
        self.run = run
        self.streams = []
        self.now = 0.0
        self.on_read = None

    def query_devices(self, device=None, kind=None):
        d = self.devices[device]
        return dict(name=f'dev{device}', max_input_channels=d['ch'], max_output_channels=0, default_samplerate=d['fs'], index=device)

    def active(self):
        return [s for s in self.streams if s.state in ('open', 'started')]

    def InputStream(self, **kw):  # noqa: N802
        if self.plan.get('fail') == 'open':
            self.run.fault('device_open_failed')
            raise DeviceError('simulated: device unavailable')
        s = Stream(self, kw)
        self.streams.append(s)
        return s


class Stream:
    def __init__(self, hw, kw):
        self.hw = hw
        self.kw = kw
        self.state = 'open'
        self.pos = 0
        self.reads = 0
        self.delivered = []
        self.flags = []
        self.was_started = False

    def start(self):
        if self.hw.plan.get('fail') == 'start':
            self.hw.run.fault('device_start_failed')
            raise DeviceError('simulated: cannot start')
        self.state = 'started'
        self.was_started = True

    def stop(self, *a):
        if self.state == 'started':
            self.state = 'open'

    abort = stop

    def close(self, *a):
        self.state = 'closed'

    def __enter__(self):
        self.start()
        return self

    def __exit__(self, *a):
        self.stop()
        self.close()

    @property
    def active(self):
        return self.state == 'started'

    @property
    def closed(self):
        return self.state == 'closed'

    @property
    def read_available(self):
        return 0

    def read(self, frames):
        if self.state != 'started':
            raise Violation('read-from-stopped-device', 'SoundDevice', self.state)
        k = self.reads
        p = self.hw.plan
        if p.get('fail') == 'read' and p.get('at', 0) == k:
            self.hw.run.fault('device_read_failed')
            raise DeviceError('simulated: device unplugged')
        if self.hw.on_read:
            self.hw.on_read(k)
        lost = p.get('lose', {}).get(str(k), 0)
        self.pos += lost
        if lost:
            self.hw.run.fault('device_overflow')
        ch = self.kw['channels']
        x = (np.arange(self.pos, self.pos + frames)[:, None] * 7 + np.arange(ch)[None, :] + 1)
        dt = np.dtype(self.kw.get('dtype', 'float32'))
        x = (x % 251 if dt.itemsize == 1 else x % 30011).astype(dt)
        self.pos += frames
        self.reads += 1
        self.hw.now += frames / self.kw['samplerate']
        self.delivered.append(x.copy())
        self.flags.append(bool(lost))
        return x, bool(lost)


class P(Property):
    id = 'C11'
    technique = 'deterministic simulation: simulated sound hardware (frames, lost data, failures) and scripted users'
    rule = (
        'One evaluation = 1-4 recordings from 1-2 simulated devices with one generator object (settings change between '
        'them), directly, through a processing step, through a splitter with two consumers, or into a WriteH5: block size, '
        'number of samples or endless, stopped between blocks or while the device is read, closed, dropped, exception thrown '
        'in by the consumer, opening / starting / reading the device fails, data lost at drawn reads. Checked: blocks and '
        'frames, overflow flag after every block, settings given to the device, device stopped and closed afterwards, '
        'running flag. Non-trivial: a fault or an early end. Distinct: by event-log digest.'
    )
    distinct_measure = 'digest of the recordings: device calls, blocks, flags and ends'
    assumptions = ('One recording at a time per generator object.', 'The consumer does not switch collecting on again during a recording.')
    components = {
        'real': ['acoular.SoundDeviceSamplesGenerator, TimePower, SampleSplitter, WriteH5'],
        'stub': ['the sounddevice module functions InputStream and query_devices: simulated hardware'],
    }
    quick_runs = 6000
    quick_budget = 35
    thorough_runs = 300000
    batch = 24

    def scenario(self, rng, i, tier):
        devs = [dict(ch=rng.choice([1, 2, 2, 8]), fs=rng.choice([44100.0, 48000.0, 8000.0])) for _ in range(2)]
        passes = []
        for _ in range(rng.choice([1, 2, 2, 3, 4])):
            n = rng.choice([-1, -1, 0, 1, rng.randint(2, 40), rng.randint(2, 300), 64])
            passes.append(dict(dev=rng.choice([0, 0, 1]), ch=rng.choice([1, 2, 3]), fs=rng.choice([None, None, 16000.0]), n=n,
                               num=rng.choice([1, 8, 16, 64, rng.randint(1, 100)]), prec=rng.choice(['float32', 'int16', 'int32', 'float16', 'int8', 'uint8']),
                               chain=rng.choice(['none', 'none', 'none', 'power', 'split', 'h5']),
                               end=rng.choice(['full', 'full', 'stop', 'stop_in_read', 'close', 'drop', 'throw']), at=rng.randint(0, 6),
                               fail=rng.choice([None, None, None, 'open', 'start', 'read']), fat=rng.randint(0, 6),
                               lose={str(rng.randint(0, 8)): rng.randint(1, 500) for _ in range(rng.choice([0, 0, 1, 2]))}, same=rng.random() < 0.6))
        return dict(devs=devs, passes=passes)

    def nontrivial(self, sc, rec):
        return sum(rec['faults'].values()) > 0

    def execute(self, sc, run):
        import acoular as ac
        import acoular.sdinput as sdi

        warnings.simplefilter('ignore')
        hw = Hardware(sc['devs'], {}, run)
        old = sdi.sd.query_devices, sdi.sd.InputStream
        sdi.sd.query_devices, sdi.sd.InputStream = hw.query_devices, hw.InputStream
        try:
            from dst.world import Quiet

            with Quiet():
                g = None
                for k, p in enumerate(sc['passes']):
                    if g is None or not p['same']:
                        g = ac.SoundDeviceSamplesGenerator(device=p['dev'])
                    self.one(sc, run, hw, g, k, p)
        finally:
            sdi.sd.query_devices, sdi.sd.InputStream = old
        run.simtime += hw.now

    def one(self, sc, run, hw, g, k, p):
        if p['chain'] == 'split':
            # consumers of an empty stream are not simultaneous
            p = dict(p, n=p['n'] or 1, end='close' if p['end'] == 'throw' else p['end'])
        import acoular as ac

        from dst.lib import Consumer

        g.device = p['dev']
        g.num_channels = p['ch']
        g.precision = p['prec']
        if p['fs']:
            g.sample_freq = p['fs']
        g.num_samples = p['n']
        g.collect_samples = True
        dev = sc['devs'][p['dev']]
        ch = min(p['ch'], dev['ch'])
        where = f'pass {k} num={p["num"]} n={p["n"]} {p["chain"]} end={p["end"]}'
        if g.num_channels != ch:
            raise Violation('wrong-channels', 'SoundDevice', f'{where}: {g.num_channels}, device has {dev["ch"]}, wanted {p["ch"]}')
        fs = g.sample_freq
        hw.plan = dict(fail=p['fail'], at=p['fat'], lose=p['lose'])
        hw.streams = []
        endless = p['n'] == -1

        def stop_in_read(r):
            if p['end'] == 'stop_in_read' and r >= p['at']:
                g.collect_samples = False

        hw.on_read = stop_in_read
        got, outcome, stopped_after = [], 'full', None
        out = g
        consumers = []
        if p['chain'] == 'power':
            out = ac.TimePower(source=g)
        elif p['chain'] == 'split':
            sp = ac.SampleSplitter(source=g)
            out = Consumer(source=sp)
            other = Consumer(source=sp)
            sp.register_object(out, other)
            sp.buffer_size = 1000
            consumers = [other]
        elif p['chain'] == 'h5':
            w = out = ac.WriteH5(source=g, file=os.path.join(os.getcwd(), f'rec{k}.h5'), precision='float64')
        others = [c.result(p['num']) for c in consumers]
        extra = []
        it = out.result(p['num'])
        thrown = False
        seen_overflow = False
        try:
            while True:
                b = next(it, None)
                for o in others:
                    e = next(o, None)
                    if e is not None:
                        extra.append(np.array(e, copy=True))
                if b is None:
                    break
                if len(got) > 400:
                    raise Violation('does-not-stop', 'SoundDevice', where)
                got.append(np.array(b, copy=True))
                s = hw.streams[-1]
                if p['chain'] != 'split':
                    lost = s.flags[-1]
                    seen_overflow = seen_overflow or any(s.flags)
                    if lost and not g.overflow:
                        raise Violation('overflow-not-reported', 'SoundDevice', f'{where}: block {len(got) - 1}')
                    if g.overflow and not seen_overflow:
                        raise Violation('overflow-without-loss', 'SoundDevice', f'{where}: block {len(got) - 1}')
                    if not g.running:
                        raise Violation('not-running', 'SoundDevice', f'{where}: block {len(got) - 1}')
                if len(got) > p['at'] or (endless and len(got) > 12):
                    end = p['end'] if p['end'] != 'full' or not endless else 'stop'
                    if end == 'stop' and endless:
                        g.collect_samples = False
                        stopped_after = stopped_after or len(got)
                        outcome = 'stopped'
                    elif end == 'close':
                        it.close()
                        outcome = 'closed'
                        break
                    elif end == 'drop':
                        outcome = 'closed'
                        break
                    elif end == 'throw' and p['chain'] != 'split':
                        thrown = True
                        it.throw(RuntimeError('simulated consumer error'))
        except DeviceError:
            outcome = 'failed'
        except RuntimeError:
            if not thrown:
                raise
            outcome = 'thrown'
        except Exception as e:  # noqa: BLE001
            if isinstance(e, Violation):
                raise
            raise Violation('spurious-error', 'SoundDevice', f'{where}: {type(e).__name__}: {e}') from None
        it = None
        for o in others:
            o.close()
        others = o = None
        if p['chain'] == 'split':  # a splitter keeps an abandoned pass for consumers that join later
            sp.remove_object()
            sp = out = other = consumers = c = None
            gc.collect()
        hw.on_read = None
        if outcome in ('stopped', 'closed', 'thrown'):
            run.fault({'stopped': 'stopped_by_user', 'closed': 'abandoned', 'thrown': 'consumer_error'}[outcome])
        run.steps += len(got)
        run.log(k, outcome, len(got), [s.reads for s in hw.streams], got[-1] if got else None, bool(g.overflow))
        run.state(outcome, p['chain'], p['end'], p['fail'], endless)
        # -- the device
        if len(hw.streams) > 1:
            raise Violation('opened-twice', 'SoundDevice', where)
        for s in hw.streams:
            if s.state == 'started':
                raise Violation('device-not-released', 'SoundDevice', f'{where} ended ({outcome})')
            if s.was_started and s.state != 'closed':
                raise Violation('device-not-closed', 'SoundDevice', f'{where} ended ({outcome}): {s.state}')
            kw = s.kw
            if (kw.get('device'), kw.get('channels'), kw.get('samplerate'), np.dtype(kw.get('dtype'))) != (p['dev'], ch, fs, np.dtype(p['prec'])):
                raise Violation('wrong-device-settings', 'SoundDevice', f'{where}: {kw}')
        if p['fs'] and fs != p['fs']:
            raise Violation('wrong-frequency', 'SoundDevice', f'{where}: {fs} != {p["fs"]}')
        if g.running:
            raise Violation('still-running', 'SoundDevice', f'{where} ended ({outcome})')
        # -- errors
        reads = hw.streams[0].reads if hw.streams else 0
        if p['chain'] != 'split':
            due = p['fail'] in ('open', 'start') or (p['fail'] == 'read' and reads == p['fat'] and outcome == 'failed')
            if due != (outcome == 'failed'):
                raise Violation('error-lost', 'SoundDevice', f'{where}: {p["fail"]} but {outcome}')
        # -- the frames
        frames = np.concatenate(hw.streams[0].delivered) if reads else np.zeros((0, ch), p['prec'])
        if not endless:
            frames = frames[: p['n']]
        for lst, full in ((got, outcome in ('full', 'stopped')), (extra, False)):
            if p['chain'] == 'split' and lst is extra and outcome == 'full':
                full = True
            y = np.concatenate(lst) if lst else np.zeros((0, ch), p['prec'])
            x = frames.astype(y.dtype) if p['chain'] != 'power' else frames * frames
            for a, b in enumerate(lst):
                if b.ndim != 2 or b.shape[1] != ch or (a < len(lst) - 1 and len(b) != p['num']) or not 0 < len(b) <= p['num']:
                    raise Violation('wrong-block', 'SoundDevice', f'{where}: block {a} {b.shape}')
                if p['chain'] in ('none', 'split', 'h5') and b.dtype != np.dtype(p['prec']):
                    raise Violation('wrong-precision', 'SoundDevice', f'{where}: {b.dtype}')
            if len(y) > len(x) or not np.array_equal(y, x[: len(y)]):
                raise Violation('wrong-frames', 'SoundDevice', f'{where}: {y.shape} of {x.shape} {outcome}')
            if full and len(y) != len(x):
                raise Violation('lost-frames', 'SoundDevice', f'{where}: {len(y)} of {len(x)} frames handed on ({outcome})')
            if full and not endless and outcome == 'full' and len(y) != p['n']:
                raise Violation('incomplete', 'SoundDevice', f'{where}: {len(y)} of {p["n"]} frames')
        if outcome == 'full' and endless and p['end'] == 'stop_in_read' and reads > p['at'] + 1:
            raise Violation('does-not-stop', 'SoundDevice', f'{where}: {reads} reads after the stop')
        if stopped_after and len(got) > stopped_after and p['chain'] != 'split':
            raise Violation('does-not-stop', 'SoundDevice', f'{where}: {len(got)} blocks, stopped after {stopped_after}')
        if p['chain'] == 'h5' and hw.streams and hw.streams[0].was_started and outcome != 'failed':
            ts = ac.TimeSamples(file=os.path.join(os.getcwd(), f'rec{k}.h5'))
            rec = np.array(ts.data[:])
            ts.h5f.close()
            if len(rec) != sum(len(b) for b in got) or not np.array_equal(rec, frames[: len(rec)].astype('float64')):
                raise Violation('wrong-recording', 'SoundDevice', f'{where}: {rec.shape}')

    def shrink(self, sc):
        ps = sc['passes']
        for a in range(len(ps)):
            if len(ps) > 1:
                yield dict(sc, passes=ps[:a] + ps[a + 1 :])
            for kw in (dict(lose={}), dict(fail=None), dict(chain='none'), dict(end='full'), dict(at=0), dict(num=16), dict(prec='float32'),
                       dict(fs=None), dict(ch=1)):
                if any(ps[a][q] != v for q, v in kw.items()):
                    yield dict(sc, passes=ps[:a] + [dict(ps[a], **kw)] + ps[a + 1 :])


PROPERTY = P()
