"""C09: what WriteH5 records is what TimeSamples reads, however the recording ended."""

import gc
import os
import warnings
from datetime import datetime, timedelta, timezone

import numpy as np

from dst.core import Property, Violation
from dst.props.c08 import is_open

METAS = [
    {}, {}, {'text': 'plain text'}, {'location': 'Zürich, 25 °C'}, {'temperature': 21.5, 'run': 7},
    {'weights': np.linspace(0.1, 1.7, 5), 'ids': [3, 1, 2]}, {'matrix': np.arange(6.0).reshape(2, 3) / 7, 'note': 'x'},
    {'phase': np.array([1 + 2j, -0.5j]), 'single': np.float32(0.1), 'small': np.int16(-3)}, {'title': 'wind tunnel'},
]


class Clock:
    """A wall clock that stands still, has a coarse resolution, or is set back."""

    def __init__(self, t):
        self.t = t

    def now(self, tz=None):
        return (datetime(2030, 1, 1, tzinfo=timezone.utc) + timedelta(microseconds=self.t)).astimezone(tz)

    utcnow = now


class P(Property):
    id = 'C09'
    technique = 'deterministic simulation: seeded recordings with stops, aborts, disk faults, crashes and a simulated clock'
    rule = (
        'One evaluation = 1-3 simulated processes that make 1-4 recordings each with WriteH5 (save, result, two passes '
        'interleaved): block size, number of samples to write, precision, metadata, HDF5 library; ends: complete, stopped by '
        'write_flag, closed, dropped, source failure, I/O error / full disk / torn write at a drawn storage operation, kill; '
        'automatic names from a clock that stands still or is set back. After each one a new process reads every recording '
        'with TimeSamples (one object per recording, or one for all): samples, channels, frequency, metadata and precision are compared exactly with what was handed '
        'on. Non-trivial: a recording ended early or by a fault, or more than one recording. Distinct: by event-log digest.'
    )
    distinct_measure = 'digest of the jobs, their ends, storage operations and the contents read'
    assumptions = (
        'A killed process loses nothing HDF5 had flushed; acoular flushes after every block of result().',
        'Metadata are texts, numbers and arrays of numbers with names HDF5 accepts.',
        'num_samples_write is -1 or not negative.',
        'Two recordings are not written to the same explicitly given file at the same time.',
    )
    components = {
        'real': ['acoular.WriteH5, TimeSamples, h5files', 'PyTables, h5py, the file system, processes (fork)'],
        'stub': ['scripted sources with read faults', 'fault injection in the HDF5 file classes', 'wall clock of acoular.tprocess'],
    }
    quick_runs = 2500
    quick_budget = 50
    thorough_runs = 120000
    batch = 8

    def scenario(self, rng, i, tier):
        srcs = [dict(n=rng.choice([0, 1, rng.randint(2, 60), rng.randint(2, 60), 300]), ch=rng.choice([1, 2, 3, 5]), seed=rng.randrange(1 << 20),
                     dtype=rng.choice(['float64', 'float64', 'float32', 'int16', 'int32']), style=rng.choice(['fresh', 'view', 'reuse']),
                     fs=rng.choice([1.0, 44100.0, 51200.0, 1e5 / 3])) for _ in range(rng.randint(1, 2))]
        sessions = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            jobs = []
            for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
                jobs.append(dict(src=rng.randrange(len(srcs)), op=rng.choice(['save', 'result', 'result', 'result']),
                                 num=rng.choice([1, 4, 7, 16, 64, rng.randint(1, 70)]),
                                 nsw=rng.choice([-1, -1, -1, 0, 1, 16, rng.randint(1, 80)]),
                                 precision=rng.choice(['float32', 'float64']), meta=rng.randrange(len(METAS)),
                                 file=rng.choice(['', '', 'a.h5', 'b.h5', 'sub/a.h5']),
                                 end=rng.choice(['full', 'full', 'flag', 'close', 'drop', 'fail', 'die']),
                                 at=rng.choice([0, 0, 1, 2, rng.randint(0, 10)]), retry=rng.random() < 0.3,
                                 par=rng.random() < 0.25, dt=rng.choice([0, 0, 1, 1000000, -5, 7])))
            fault = None
            if rng.random() < 0.45:
                fault = dict(kind=rng.choice(['crash_before', 'crash_after', 'error', 'full', 'torn_error']),
                             at=rng.choice([rng.randint(0, 6), rng.randint(3, 15), rng.randint(5, 60)]))
            sessions.append(dict(lib=rng.choice(['pytables', 'h5py']), rlib=rng.choice(['pytables', 'h5py']), jobs=jobs, fault=fault,
                                 rnum=rng.choice([1, 5, 32, 1000]), rone=rng.random() < 0.4))
        return dict(srcs=srcs, sessions=sessions, t0=rng.choice([0, 999999]))

    def nontrivial(self, sc, rec):
        return sum(rec['faults'].values()) > 0 or rec['probes'].get('recordings_read', 0) > 1

    def raw(self, s):
        from dst import lib

        x = lib.noise(s['seed'], s['n'], s['ch'])
        return (x * 1000).astype(s['dtype']) if s['dtype'].startswith('int') else x.astype(s['dtype'])

    def execute(self, sc, run):
        from dst import session as S

        os.makedirs('td', exist_ok=True)
        os.makedirs('sub', exist_ok=True)
        model = {}  # file -> dict(src, lo rows, hi rows, job)
        clock = sc['t0']
        for k, ses in enumerate(sc['sessions']):
            how, rep = S.session(lambda emit, ses=ses, clock=clock: self.inside(sc, ses, emit, clock))
            if how not in ('ok', 'crash'):
                raise Violation('session-died', 'WriteH5', f'session {k}: {how}')
            run.steps += len(rep)
            self.judge(sc, run, k, ses, how, rep, model)
            for j in ses['jobs']:
                clock += j['dt']
            run.simtime += 1e-6 * abs(sum(j['dt'] for j in ses['jobs']))
            self.read_all(sc, run, k, ses, model)

    # -- writing --------------------------------------------------------------------------------------
    def inside(self, sc, ses, emit, t):
        import acoular as ac
        import acoular.h5files as h5
        import acoular.tprocess as tp

        from dst import lib, session as S

        warnings.simplefilter('ignore')
        gc.disable()
        ac.config.h5library = ses['lib']
        ac.config.td_dir = os.path.realpath('td')
        clock = Clock(t)
        if hasattr(tp, 'datetime'):
            tp.datetime = clock
        S.Ops(ses['fault'], emit).install()
        handles = []
        for name in ('H5FileTables', 'H5FileH5py'):
            track(getattr(h5, name), handles)

        pending = None
        for i, j in enumerate(ses['jobs']):
            s = sc['srcs'][j['src']]
            src = lib.make_source(self.raw(s), s['fs'], style=s['style'])
            w = ac.WriteH5(source=src, precision=j['precision'], num_samples_write=j['nsw'], metadata=dict(METAS[j['meta']]))
            if j['file']:
                w.file = j['file']
            clock.t += j['dt']
            if pending is not None and pending[1]['file'] == j['file'] != '':
                self.finish(emit, *pending, handles)
                pending = None
            it = self.job(emit, i, j, src, w, handles)
            if pending is not None:
                # two passes at the same time
                if next(it, None) is None:
                    it = None
                self.finish(emit, *pending, handles)
                pending = None
                if it is not None:
                    self.finish(emit, it, j, handles)
            elif j['par'] and j['op'] == 'result':
                if next(it, None) is not None:
                    pending = (it, j)
            else:
                self.finish(emit, it, j, handles)
        if pending is not None:
            self.finish(emit, *pending, handles)

    def finish(self, emit, it, j, handles):
        for _ in it:
            pass

    def job(self, emit, i, j, src, w, handles):
        """One recording; yields after every block."""
        from dst import lib, session as S

        for turn in range(2 if j['retry'] else 1):
            src.fail = {-1: j['at']} if j['end'] == 'fail' and turn == 0 else None
            end = j['end'] if turn == 0 else 'full'
            n0 = len(handles)
            emit(('begin', i, turn, os.path.realpath(w.file) if w.file else None))
            outcome, msg, count = 'full', '', 0
            mine = []
            g = None
            try:
                if j['op'] == 'save':
                    w.save()
                else:
                    g = w.result(j['num'])
                    while True:
                        b = next(g, None)
                        if not mine:
                            mine = handles[n0:]
                            n0 = len(handles)
                            emit(('file', i, turn, os.path.realpath(w.file)))
                        if b is None:
                            break
                        count += 1
                        emit(('block', i, turn, np.array(b, copy=True)))
                        if end == 'die' and count > j['at']:
                            S.die()
                        if end == 'flag' and count > j['at']:
                            w.write_flag = False
                            outcome = 'stopped'
                        elif end in ('close', 'drop') and count > j['at']:
                            outcome = 'closed'
                            if end == 'close':
                                g.close()
                            break
                        yield count
            except lib.SimIOError:
                outcome = 'failed'
            except OSError as e:
                outcome, msg = 'error', str(e)
            except Exception as e:  # noqa: BLE001
                import traceback

                outcome, msg = 'exception', f'{type(e).__name__}: {e} {traceback.format_exc()[-600:]}'
            if not mine:
                mine = handles[n0:]
            g = None
            # the exception and its frames are gone here; nothing keeps the generator alive
            still = sum(is_open(h) for h in mine)
            emit(('end', i, turn, outcome, msg, still, os.path.realpath(w.file) if w.file else '', count))

    # -- judging --------------------------------------------------------------------------------------
    def judge(self, sc, run, k, ses, how, rep, model):
        fault = next((r for r in rep if r[0] == 'op'), None)
        if fault:
            run.fault(fault[2])
            run.probe('fault_in:' + fault[1])
        blocks, ended, begun, files, faulted = {}, {}, [], {}, None
        for r in rep:
            key = r[1:3]
            if r[0] == 'begin':
                begun.append(key)
                blocks[key] = []
                files[key] = r[3]
                cur = key
            elif r[0] == 'block':
                blocks[key].append(r[3])
                cur = key
            elif r[0] == 'file':
                files[key] = r[3]
            elif r[0] == 'end':
                ended[key] = r[3:]
            elif r[0] == 'op':
                faulted = cur
        for key in begun:
            i, turn = key
            j = ses['jobs'][i]
            s = sc['srcs'][j['src']]
            x = self.raw(s)
            where = f'session {k} job {i}.{turn} {j["op"]} num={j["num"]} {j["precision"]} {ses["lib"]}'
            got = blocks[key]
            e = ended.get(key)
            run.log('job', k, i, turn, j['op'], len(got), e and (e[0], e[2], e[4]))
            run.state(j['op'], j['end'], e and e[0], fault and fault[1:3], ses['lib'])
            # blocks are passed on as they are
            for a, b in enumerate(got):
                y = x[a * j['num'] : (a + 1) * j['num']]
                if b.shape != y.shape or b.dtype != y.dtype or not np.array_equal(b, y):
                    raise Violation('block-changed', 'WriteH5', f'{where}: block {a} {b.shape} {b.dtype}, source {y.shape} {y.dtype}')
            if e is None:
                if how != 'crash':
                    if e is None and key not in ended:
                        raise Violation('never-ended', 'WriteH5', where)
                f = files[key]
                run.fault('process_killed')
                if f:
                    # everything handed on was flushed before; a file in the middle of being created may be unreadable
                    model[f] = dict(src=j['src'], lo=self.rows(j, len(got), s['n']), hi=s['n'], job=j, broken=not got or bool(fault), where=where)
                continue
            outcome, msg, still, f, count = e
            hitme = self.hit_here(fault, key, outcome)
            if outcome == 'exception' or (outcome == 'error' and not hitme):
                raise Violation('spurious-error', 'WriteH5', f'{where}: {msg}')
            if still:
                raise Violation('file-left-open', 'WriteH5', f'{where} ended ({outcome}), {still} file handle(s) open')
            if outcome in ('failed', 'closed', 'stopped'):
                run.fault({'failed': 'source_read_error', 'closed': 'pass_abandoned', 'stopped': 'stopped_by_flag'}[outcome])
            lo = hi = None
            if j['op'] == 'save':
                if outcome == 'full':
                    lo = hi = s['n']
                elif outcome == 'failed':
                    lo = hi = min(s['n'], j['at'] * 4096)
                else:
                    lo, hi = 0, s['n']
            else:
                nb = len(got)
                lo = hi = self.rows(j, nb, s['n'])
                if outcome == 'full':
                    total = s['n'] if j['nsw'] == -1 else min(j['nsw'], s['n'])
                    if lo != total:
                        raise Violation('incomplete', 'WriteH5', f'{where}: handed on {lo} rows, expected {total} (nsw {j["nsw"]})')
                elif outcome == 'stopped':
                    pass
                elif outcome == 'error':
                    hi = self.rows(j, nb + 1, s['n'])
            if not f:
                if outcome != 'error':
                    raise Violation('no-file-name', 'WriteH5', where)
                continue
            if not j['file'] and turn == 0 and f in model:
                raise Violation('name-collision', 'WriteH5', f'{where}: automatic name is that of another recording ({model[f]["where"]})')
            # a fault while the file is being set up leaves a file without (all of) its description
            setup = outcome == 'error' and fault and fault[1] in ('create_extendable_array', 'set_node_attribute', 'create_new_group', 'create_array')
            model[f] = dict(src=j['src'], lo=lo, hi=hi, job=j, broken=bool(setup), where=where)

    def hit_here(self, fault, key, outcome):
        return fault is not None and fault[2] in ('error', 'full', 'torn_error')

    def rows(self, j, nb, n):
        r = min(nb * j['num'], n)
        return r if j['nsw'] == -1 else min(r, j['nsw'])

    # -- reading --------------------------------------------------------------------------------------
    def read_all(self, sc, run, k, ses, model):
        from dst import session as S

        files = sorted(model)

        def reader(emit):
            import acoular as ac

            warnings.simplefilter('ignore')
            ac.config.h5library = ses['rlib']
            one = None
            for f in files:
                try:
                    if one is not None and ses.get('rone'):  # one object reads one recording after the other
                        ts = one
                        ts.file = f
                    else:
                        ts = one = ac.TimeSamples(file=f)
                    d = np.array(ts.data[:], copy=True)
                    meta = {a: value(b) for a, b in ts.metadata.items()}
                    bl = [np.array(b, copy=True) for b in ts.result(ses['rnum'])] if ts.num_samples else []
                    emit((f, 'ok', d, ts.sample_freq, ts.num_samples, ts.num_channels, meta, bl))
                except Exception as e:  # noqa: BLE001
                    import traceback

                    emit((f, 'error', f'{type(e).__name__}: {str(e)[:200]} {traceback.format_exc()[-300:]}'))

        how, rep = S.session(reader)
        if how != 'ok':
            raise Violation('session-died', 'TimeSamples', f'reading after session {k}: {how}')
        for r in rep:
            f = r[0]
            m = model[f]
            s = sc['srcs'][m['src']]
            x = self.raw(s)
            where = f'{m["where"]} read with {ses["rlib"]}'
            run.probe('recordings_read')
            if m['broken']:
                run.probe('not_set_up_completely')
                if r[1] != 'ok':
                    continue
            if r[1] != 'ok':
                raise Violation('unreadable', 'WriteH5', f'{where}: {r[2]}')
            _, _, d, fs, n, ch, meta, bl = r
            run.log('read', k, d, n, ch, sorted(meta))
            exp = x.astype(m['job']['precision'])
            if d.ndim != 2 or d.shape[1] != s['ch'] or ch != s['ch']:
                raise Violation('wrong-channels', 'WriteH5', f'{where}: {d.shape}, {ch} channels; expected {s["ch"]}')
            if d.dtype != exp.dtype:
                raise Violation('wrong-precision', 'WriteH5', f'{where}: {d.dtype}')
            if not m['lo'] <= len(d) <= m['hi'] or n != len(d):
                raise Violation('wrong-length', 'WriteH5', f'{where}: {len(d)} samples in the file (num_samples {n}), written {m["lo"]}..{m["hi"]}')
            if not np.array_equal(d, exp[: len(d)]):
                raise Violation('wrong-samples', 'WriteH5', f'{where}: {d[:2]} != {exp[:2]}')
            if m['broken']:
                continue
            if fs != s['fs']:
                raise Violation('wrong-frequency', 'WriteH5', f'{where}: {fs} != {s["fs"]}')
            if len(d) and not np.array_equal(np.concatenate(bl), d):
                raise Violation('wrong-blocks', 'TimeSamples', f'{where}: blocks of {ses["rnum"]}')
            em = METAS[m['job']['meta']]
            if set(meta) != set(em):
                raise Violation('wrong-metadata', 'WriteH5', f'{where}: {sorted(meta)} != {sorted(em)}')
            for a in em:
                if not same(meta[a], em[a]):
                    raise Violation('wrong-metadata', 'WriteH5', f'{where}: {a}: {meta[a]!r} != {em[a]!r}')

    def shrink(self, sc):
        for i in range(len(sc['sessions'])):
            if len(sc['sessions']) > 1:
                yield dict(sc, sessions=sc['sessions'][:i] + sc['sessions'][i + 1 :])
        for i, ses in enumerate(sc['sessions']):
            def w(**kw):
                return dict(sc, sessions=sc['sessions'][:i] + [dict(ses, **kw)] + sc['sessions'][i + 1 :])  # noqa: B023

            if ses['fault']:
                yield w(fault=None)
            for a in range(len(ses['jobs'])):
                if len(ses['jobs']) > 1:
                    yield w(jobs=ses['jobs'][:a] + ses['jobs'][a + 1 :])
                for kw in (dict(retry=False), dict(par=False), dict(end='full'), dict(nsw=-1), dict(meta=0), dict(num=16), dict(at=0),
                           dict(precision='float64')):
                    if any(ses['jobs'][a][q] != v for q, v in kw.items()):
                        yield w(jobs=ses['jobs'][:a] + [dict(ses['jobs'][a], **kw)] + ses['jobs'][a + 1 :])


def track(c, handles):
    init = c.__init__

    def __init__(obj, *a, **k):
        init(obj, *a, **k)
        handles.append(obj)

    c.__init__ = __init__


def value(node):
    if hasattr(node, 'read'):
        return node.read()
    return node[()]


def same(got, exp):
    if isinstance(exp, str):
        b = got.item() if isinstance(got, np.ndarray) else got
        return (b.decode('utf-8') if isinstance(b, bytes) else b) == exp
    g, e = np.asarray(got), np.asarray(exp)
    return g.shape == e.shape and g.dtype == e.dtype and np.array_equal(g, e)


PROPERTY = P()
