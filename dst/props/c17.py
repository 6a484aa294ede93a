"""C17: range, channel selection and calibration of recordings act exactly as configured, after any history of edits."""

import gc
import os
import warnings

import numpy as np

from dst.core import Property, Violation

NAMES = ['rec.h5', 'rec.h5', 'two.h5', 'three.h5']
DIRS = ['', 'sub', 'other']
CLS = ['masked', 'masked', 'masked', 'time', 'maskedout', 'maskedout', 'calib', 'maskedout2', 'chain']


class Model:
    """What an object is configured to deliver; every value is computed by slicing the whole table."""

    def __init__(self, kind):
        self.kind = kind
        self.data = np.zeros((0, 0))  # of the recording
        self.fs = 1.0
        self.start, self.stop, self.invalid = 0, None, []
        self.cal = None  # calibration factors given to the (masked) recording
        self.out = None  # dict(start, stop, invalid): following MaskedTimeOut
        self.out2 = None
        self.block = None  # dict(cal, invalid): following Calib
        self.first = True

    @staticmethod
    def cut(x, start, stop, invalid):
        keep = [c for c in range(x.shape[1]) if c not in invalid]
        return x[slice(start, stop)][:, keep], keep

    def recording(self):
        """(table, error) of the recording itself."""
        x = self.data
        keep = list(range(x.shape[1]))
        if self.kind != 'time':
            x, keep = self.cut(x, self.start, self.stop, self.invalid)
        if self.cal is not None:
            c = np.asarray(self.cal)
            if self.kind == 'time':
                if len(c) != x.shape[1]:
                    return x, 'calib'
                x = x * c
            elif len(c) == self.data.shape[1]:
                x = x * c[keep]
            elif len(c) == x.shape[1]:
                x = x * c
            elif len(c):
                return x, 'calib'
        return x, None

    def stages(self):
        """Expected table after every stage of the chain."""
        x, err = self.recording()
        out = [(x, err)]
        for o in (self.out, self.out2):
            if o is not None:
                if x.shape[0] == 0:
                    err = err or 'empty'
                x, _ = self.cut(x, o['start'], o['stop'], o['invalid'])
                out.append((x, err))
        if self.block is not None:
            c = np.asarray(self.block['cal'])
            c = c[[i for i in range(len(c)) if i not in self.block['invalid']]]
            if x.shape[0] == 0:
                err = err or 'empty'
            if len(c) != x.shape[1]:
                err = err or 'calib'
            else:
                x = x * c
            out.append((x, err))
        return out


class P(Property):
    id = 'C17'
    technique = 'deterministic simulation: seeded histories of edits, passes and library switches against a list-slicing reference model'
    rule = (
        'One evaluation = one history of 5-60 operations on 1-4 recordings (TimeSamples, MaskedTimeSamples, each followed by nothing, '
        'by MaskedTimeOut, two of them, Calib or both) over 4-6 files in 3 directories, some with equal names and different contents, in both '
        'HDF5 libraries: change of file, in-memory data, start, stop (negative, beyond the end, None), invalid channels (assigned '
        'and edited in place, out of range, repeated), calibration (file, values, for all or for the valid channels), '
        'interleaved passes with different block sizes, abandoned passes, a file that is no recording, dropping and creating objects. After every '
        'operation the attributes of a drawn object, and in every pass all blocks, are compared with slicing the whole table. The '
        'microphone geometry with the same invalid channels is compared as well. Non-trivial: an edit was followed by a complete '
        'pass while another pass was running. Distinct: by event-log digest.'
    )
    distinct_measure = 'digest of the operations and of everything delivered'
    assumptions = (
        'A pass that is running while its own object (or one it reads from) is edited is not judged; passes of other objects are.',
        'At least one channel and a start before the stop, or the request is refused.',
        'Files are not rewritten while they are used.',
    )
    components = {'real': ['TimeSamples, MaskedTimeSamples, MaskedTimeOut, Calib, MicGeom', 'PyTables and h5py, files'], 'stub': ['recordings written by the harness']}
    quick_runs = 4000
    quick_budget = 60
    thorough_runs = 400000
    batch = 16

    # -- scenarios ------------------------------------------------------------------------------------
    def scenario(self, rng, i, tier):
        files = []
        for _ in range(rng.randint(4, 6)):
            files.append([rng.choice(NAMES), rng.choice(DIRS), rng.choice([1, 2, 5, 20, 33, 60]), rng.choice([1, 2, 3, 4, 5]), rng.choice(['float64', 'float32']),
                          rng.choice([100.0, 51200.0, 44100.0]), rng.randrange(1 << 16), rng.random() < 0.7])
        objs = [self.obj(rng) for _ in range(rng.choice([1, 2, 2, 3]))]
        ops = []
        for _ in range(rng.randint(5, 30 if tier == 'quick' else 60)):
            k = rng.choice(['edit'] * 8 + ['pass'] * 5 + ['start'] * 2 + ['step'] * 5 + ['stopit', 'lib', 'drop', 'new', 'attrs', 'badfile'])
            ops.append([k, rng.randrange(1 << 20), rng.randrange(1 << 20), rng.randrange(1 << 20)])
        return dict(files=files, objs=objs, ops=ops, lib=rng.choice(['tables', 'h5py']))

    def obj(self, rng):
        return [rng.choice(CLS), rng.choice(['masked', 'masked', 'time']), rng.randrange(8), rng.random() < 0.4]

    def shrink(self, sc):
        from dst.core import generic_shrink

        yield from generic_shrink(sc, ('ops', 'objs'))
        for j, o in enumerate(sc['ops']):
            for m in (1, 2, 3):
                if o[m] > 30:
                    yield dict(sc, ops=sc['ops'][:j] + [o[:m] + [o[m] % 30] + o[m + 1 :]] + sc['ops'][j + 1 :])

    def nontrivial(self, sc, rec):
        return rec['probes'].get('edited_and_compared', 0) > 0 and rec['probes'].get('interleaved', 0) > 0

    # -- workload -------------------------------------------------------------------------------------
    def write(self, sc):
        import h5py

        self.tables = {}
        for name, d, n, ch, dt, fs, seed, meta in sc['files']:
            p = os.path.join(os.getcwd(), d)
            os.makedirs(p, exist_ok=True)
            p = os.path.join(p, name)
            x = np.random.Generator(np.random.PCG64(seed)).standard_normal((n, ch)).astype(dt)
            with h5py.File(p, 'w') as f:
                ds = f.create_dataset('time_data', data=x)
                ds.attrs['sample_freq'] = fs
                if meta:
                    f.create_group('metadata').create_dataset('remark', data=np.array([seed]))
            self.tables[p] = (x.astype(float), fs, seed if meta else None)
        self.paths = list(self.tables)
        self.bad = os.path.join(os.getcwd(), 'bad.h5')
        with h5py.File(self.bad, 'w') as f:
            f.create_dataset('something', data=np.zeros(3))

    def make(self, spec, run):
        import acoular as ac

        kind, base, k, mics = spec
        if kind in ('masked', 'time'):
            base = kind
        m = Model(base)
        p = self.paths[k % len(self.paths)]
        o = dict(m=m, base=(ac.MaskedTimeSamples if base == 'masked' else ac.TimeSamples)(file=p), stages=[], version=0, bad=False)
        m.data, m.fs, _ = self.tables[p]
        o['file'] = p
        o['stages'].append(o['base'])
        if kind in ('maskedout', 'maskedout2', 'chain'):
            m.out = dict(start=0, stop=None, invalid=[])
            o['stages'].append(ac.MaskedTimeOut(source=o['base']))
        if kind == 'maskedout2':
            m.out2 = dict(start=0, stop=None, invalid=[])
            o['stages'].append(ac.MaskedTimeOut(source=o['stages'][-1]))
        if kind in ('calib', 'chain'):
            n = m.stages()[-1][0].shape[1]
            v = np.arange(1.0, n + 1)
            o['stages'].append(ac.Calib(source=o['stages'][-1], data=v))
            m.block = dict(cal=v, invalid=[])
        if mics:
            o['mics'] = ac.MicGeom(pos_total=self.pos(m.data.shape[1]))
        return o

    def pos(self, n):
        return np.arange(3.0 * n).reshape(3, n) + 0.5

    def execute(self, sc, run):
        import acoular as ac

        warnings.simplefilter('ignore')
        self.write(sc)
        ac.config.h5library = sc['lib']
        self.nxml = 0
        self.known = {}
        self.edited = False
        objs = [self.make(s, run) for s in sc['objs']]
        passes = []  # dict(o, version, gen, want, got, num)
        for k, a, b, c in sc['ops']:
            run.steps += 1
            if not objs:
                objs.append(self.make(self.spec_from(a, b), run))
            o = objs[a % len(objs)]
            if k == 'edit':
                what = self.edit(o, b, c)
                run.log('edit', a % len(objs), what)
                o['version'] += 1
                self.edited = True
                if c % 3 == 0:
                    self.attrs(run, o, f'after {what}')
            elif k == 'attrs':
                self.attrs(run, o, 'attributes')
            elif k == 'pass':
                self.whole(run, o, b, c, len([p for p in passes if p['version'] == p['o']['version']]))
            elif k == 'start' and len(passes) < 4:
                st = c % len(o['stages'])
                want, err = o['m'].stages()[st]
                num = 1 + b % 40
                if err or want.shape[0] == 0 or want.shape[1] == 0 or o['bad']:
                    continue
                passes.append(dict(o=o, version=o['version'], gen=o['stages'][st].result(num), want=want, got=0, num=num, st=st))
            elif k == 'step' and passes:
                p = passes[a % len(passes)]
                for _ in range(1 + b % 3):
                    if not self.step(run, p):
                        passes.remove(p)
                        break
            elif k == 'stopit' and passes:
                p = passes.pop(a % len(passes))
                p['gen'].close()
                p = None
            elif k == 'lib':
                ac.config.h5library = ['tables', 'h5py'][b % 2]
            elif k == 'drop' and len(objs) > 1:
                objs.remove(o)
                passes = [p for p in passes if p['o'] is not o or b % 2]
                o = None
                gc.collect()
                run.log('drop')
            elif k == 'new' and len(objs) < 4:
                objs.append(self.make(self.spec_from(b, c), run))
            elif k == 'badfile' and b % 3 == 0:
                self.badfile(run, o)
                o['version'] += 1
        for p in passes:
            while self.step(run, p):
                pass
        for o in objs:
            self.attrs(run, o, 'at the end')
            self.whole(run, o, 6, 0, 0)
        run.simtime += len(sc['ops'])

    def spec_from(self, a, b):
        return [CLS[a % len(CLS)], ['masked', 'masked', 'time'][a // 16 % 3], b % 8, b // 8 % 5 < 2]

    # -- operations -----------------------------------------------------------------------------------
    def edit(self, o, b, c):
        import acoular as ac

        m = o['m']
        base = o['base']
        kinds = ['file', 'file', 'data', 'calib', 'calib']
        if m.kind == 'masked':
            kinds += ['start', 'stop', 'invalid', 'invalid', 'start', 'stop']
        if m.out is not None:
            kinds += ['ostart', 'ostop', 'oinvalid']
        if m.out2 is not None:
            kinds += ['o2start', 'o2stop', 'o2invalid']
        if m.block is not None:
            kinds += ['cal', 'cinvalid', 'cal']
        k = kinds[b % len(kinds)]
        b //= len(kinds)
        if k == 'file':
            p = self.paths[b % len(self.paths)]
            if c % 4 == 0:
                base.name = p  # (former name of the attribute)
            else:
                base.file = p
            if p != o['file']:  # (the same file again is no change)
                m.data, m.fs, _ = self.tables[p]
                o['file'] = p
                o['bad'] = False
            self.set_mics(o)
            return f'file {os.path.relpath(p)}'
        if k == 'data':
            n, ch = 1 + b % 40, 1 + c % 5
            x = np.random.Generator(np.random.PCG64(b)).standard_normal((n, ch))
            base.data = x.copy()
            m.data = x
            o['bad'] = False
            self.set_mics(o)
            return f'data {n}x{ch}'
        if k == 'calib':
            how = c % 5
            if how == 0:
                base.calib = None
                m.cal = None
                return 'calib None'
            n = [m.data.shape[1], m.recording()[0].shape[1], m.data.shape[1], b % 6][c // 5 % 4]
            v = np.round(np.random.Generator(np.random.PCG64(b)).uniform(0.5, 2.0, n), 6)
            if how == 1 and base.calib is not None and n:
                base.calib.data = v
            elif how == 2 and base.calib is not None and n:
                base.calib.file = self.xml(v)
            elif how == 3 and n:
                base.calib = ac.Calib(file=self.xml(v))
            else:
                base.calib = ac.Calib(data=v)
            m.cal = v
            return f'calib {n} {how}'
        if k in ('start', 'ostart', 'o2start'):
            n = m.data.shape[0]
            v = [0, b % (n + 1), -(b % (n + 2)), n // 2, 1, n + 3][c % 6]
            if k == 'start':
                base.start = v
                m.start = v
            else:
                s = o['stages'][1 if k == 'ostart' else 2]
                s.start = v
                (m.out if k == 'ostart' else m.out2)['start'] = v
            return f'{k} {v}'
        if k in ('stop', 'ostop', 'o2stop'):
            n = m.data.shape[0]
            v = [None, b % (n + 1), -(b % (n + 2)), n, n + 7, n - 1][c % 6]
            if k == 'stop':
                base.stop = v
                m.stop = v
            else:
                s = o['stages'][1 if k == 'ostop' else 2]
                s.stop = v
                (m.out if k == 'ostop' else m.out2)['stop'] = v
            return f'{k} {v}'
        if k in ('invalid', 'oinvalid', 'o2invalid', 'cinvalid'):
            s, d = {'invalid': (base, m.__dict__), 'oinvalid': (o['stages'][min(1, len(o['stages']) - 1)], m.out), 'o2invalid': (o['stages'][-1], m.out2),
                    'cinvalid': (o['stages'][-1], m.block)}[k]
            new = self.edit_list(s, list(d['invalid']), m.data.shape[1], b, c)
            d['invalid'] = new
            if k == 'invalid' and 'mics' in o:
                o['mics'].invalid_channels = base.invalid_channels
            return f'{k} {new}'
        n = m.stages()[-2][0].shape[1]
        v = np.round(np.random.Generator(np.random.PCG64(b)).uniform(0.5, 2.0, [n, n, n + 1, max(n - 1, 0)][c % 4]), 6)
        if not len(v):
            v = np.ones(1)
        if c // 4 % 2:
            o['stages'][-1].file = self.xml(v)
        else:
            o['stages'][-1].data = v
        m.block['cal'] = v
        if m.block['invalid'] and c // 8 % 2:
            o['stages'][-1].invalid_channels = []
            m.block['invalid'] = []
        return f'cal {len(v)}'

    def set_mics(self, o):
        if 'mics' in o:
            o['mics'].pos_total = self.pos(o['m'].data.shape[1])

    def edit_list(self, s, cur, n, b, c):
        how = c % 8
        v = [b % max(n, 1), b % (n + 3), -1 - b % 2][0 if c // 8 % 4 else c // 32 % 3]
        if how == 0:
            cur = []
            s.invalid_channels = []
        elif how in (1, 2):
            cur = cur + [v]
            s.invalid_channels.append(v)
        elif how == 3 and cur:
            cur = cur[1:]
            s.invalid_channels.pop(0)
        elif how == 4:
            cur = [v]
            s.invalid_channels[:] = [v]
        elif how == 5 and cur:
            cur = [v] + cur[1:]
            s.invalid_channels[0] = v
        elif how == 6:
            cur = cur + [v, v]
            s.invalid_channels += [v, v]
        else:
            cur = sorted({v, (v + 1) % max(n, 1)})
            s.invalid_channels = list(cur)
        return cur

    def xml(self, v):
        self.nxml += 1
        p = os.path.join(os.getcwd(), f'cal{self.nxml}.xml')
        with open(p, 'w') as f:
            f.write('<?xml version="1.0" encoding="utf-8"?>\n<Calib name="x">\n')
            for j, x in enumerate(v):
                f.write(f'  <pos Name="Point {j + 1}" factor="{float(x)!r}"/>\n')
            f.write('</Calib>')
        return p

    def badfile(self, run, o):
        """A file without recording: afterwards nothing of the former file may be delivered under the new name."""
        from traits.api import pop_exception_handler, push_exception_handler

        if o['file'] == self.bad:  # (no change)
            return
        push_exception_handler(lambda *a: None, reraise_exceptions=True, locked=False)
        try:
            o['base'].file = self.bad
            failed = False
        except Exception:  # noqa: BLE001
            failed = True
        finally:
            pop_exception_handler()
        run.fault('file_without_recording')
        o['bad'] = True
        o['file'] = self.bad
        try:
            got = [np.array(x) for x in o['base'].result(16)]
        except Exception:  # noqa: BLE001
            return
        if got and not failed:
            raise Violation('data-of-other-file', type(o['base']).__name__, f'{sum(map(len, got))} samples delivered for a file without recording')

    # -- checks ---------------------------------------------------------------------------------------
    def attrs(self, run, o, what):
        from dst import lib

        if o['bad']:
            return
        m = o['m']
        want = m.stages()
        for st, s in enumerate(o['stages']):
            x = want[st][0]
            where = type(s).__name__
            for name, w in (('num_samples', x.shape[0]), ('num_channels', x.shape[1]), ('sample_freq', m.fs), ('numsamples', x.shape[0]),
                            ('numchannels', x.shape[1])):
                if where == 'Calib' and want[st][1] == 'calib':
                    continue
                try:
                    v = getattr(s, name)
                except AttributeError:
                    if name in ('numsamples', 'numchannels'):
                        continue
                    raise
                if v != w:
                    raise Violation('wrong-attribute', f'{where}.{name}', f'{what}: {v}, expected {w}; {self.describe(o)}')
            if where in ('MaskedTimeSamples', 'MaskedTimeOut'):
                src = m.data if where == 'MaskedTimeSamples' else want[st - 1][0]
                for name, w in (('num_samples_total', src.shape[0]), ('num_channels_total', src.shape[1])):
                    if getattr(s, name) != w:
                        raise Violation('wrong-attribute', f'{where}.{name}', f'{what}: {getattr(s, name)}, expected {w}; {self.describe(o)}')
        if o['file'] != self.bad and o['base'].basename != os.path.basename(o['file'])[:-3]:
            raise Violation('wrong-attribute', 'basename', f'{what}: {o["base"].basename} {o["file"]}')
        if 'mics' in o and m.kind == 'masked':
            mg = o['mics']
            keep = [c for c in range(m.data.shape[1]) if c not in m.invalid]
            if keep:
                w = self.pos(m.data.shape[1])[:, keep]
                ap = max((float(np.linalg.norm(w[:, p] - w[:, q])) for p in range(len(keep)) for q in range(len(keep))), default=0.0)
                if mg.num_mics != len(keep) or not np.array_equal(mg.pos, w) or not lib.close(mg.center, w.mean(1)) or not np.isclose(mg.aperture, ap):
                    raise Violation('wrong-geometry', 'MicGeom', f'{what}: {mg.num_mics} microphones, expected {len(keep)}; {self.describe(o)}')
                if mg.num_mics != o['base'].num_channels:
                    raise Violation('wrong-geometry', 'MicGeom', f'{what}: {mg.num_mics} microphones and {o["base"].num_channels} channels')
        run.probe('attributes_compared')

    def describe(self, o):
        m = o['m']
        return (f'{m.kind} {m.data.shape} [{m.start}:{m.stop}] invalid={m.invalid} cal={None if m.cal is None else len(m.cal)} out={m.out} out2={m.out2} '
                f'block={None if m.block is None else (len(m.block["cal"]), m.block["invalid"])}')

    def step(self, run, p):
        """One block of a running pass; False when it is finished."""
        live = p['version'] == p['o']['version']
        where = type(p['o']['stages'][p['st']]).__name__
        try:
            b = next(p['gen'], None)
        except Exception as e:  # noqa: BLE001
            if live:
                raise Violation('pass-disturbed', where, f'{type(e).__name__}: {e} after {p["got"]} of {len(p["want"])} samples') from e
            return False
        if not live:
            return b is not None
        if b is None:
            if p['got'] != len(p['want']):
                raise Violation('wrong-samples', where, f'pass ended after {p["got"]} of {len(p["want"])} samples; {self.describe(p["o"])}')
            run.probe('running_passes_compared')
            return False
        self.block(run, b, p['want'], p['got'], p['num'], where, p['o'])
        p['got'] += len(b)
        return True

    def block(self, run, b, want, i, num, where, o):
        from dst import lib

        b = np.asarray(b)
        w = want[i : i + num]
        if b.shape != w.shape or not lib.close(b, w, 1e-12):
            raise Violation('wrong-samples', where, f'samples {i}..{i + len(b)} of {len(want)}, block size {num}: {lib.diff(b, w)}; {self.describe(o)}')

    def whole(self, run, o, b, c, others):
        st = len(o['stages']) - 1 if c % 2 == 0 else c // 2 % len(o['stages'])
        s = o['stages'][st]
        where = type(s).__name__
        want, err = o['m'].stages()[st]
        num = [1, 3, 7, 16, 128, 1 + b % 40][b % 6]
        if o['bad']:
            return
        i = 0
        failed = None
        try:
            for x in s.result(num):
                if not err and want.size:
                    self.block(run, x, want, i, num, where, o)
                i += len(x)
        except Violation:
            raise
        except Exception as e:  # noqa: BLE001
            failed = e
        if want.size == 0 or err:
            if failed is None and i:
                raise Violation('error-not-reported', where, f'{err or "empty"}: {i} samples delivered; {self.describe(o)}')
            return
        if failed is not None:
            raise Violation('spurious-error', where, f'{type(failed).__name__}: {failed}; {self.describe(o)}') from failed
        if i != len(want):
            raise Violation('wrong-samples', where, f'{i} of {len(want)} samples; {self.describe(o)}')
        run.probe('passes_compared')
        if self.edited:
            run.probe('edited_and_compared')
        if others:
            run.probe('interleaved')
        self.digest(run, s, want)
        run.log('pass', where, num, i, want.shape[1])
        run.state(where, o['m'].kind, want.shape[1] < o['m'].data.shape[1], o['m'].cal is not None, others > 0)

    def digest(self, run, s, want):
        """The digest identifies what is delivered."""
        key = s.digest
        w = self.known.get(key)
        if w is None:
            self.known[key] = want
        elif w.shape != want.shape or not np.allclose(w, want, rtol=1e-9, atol=0):
            raise Violation('equal-digests', type(s).__name__, f'digest {key} for {w.shape} and {want.shape} samples')


PROPERTY = P()
