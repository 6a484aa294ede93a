"""C05: the stream cache never changes what is delivered, whatever happened to earlier runs."""

import hashlib
import os
import warnings

import numpy as np

from dst.core import Property, Violation

MODES = ['individual', 'individual', 'all', 'readonly', 'overwrite', 'none']


class P(Property):
    id = 'C05'
    technique = 'deterministic simulation: process crashes, disk faults and aborted runs over a model of the cache contents'
    rule = (
        'One evaluation = one history of 2-6 simulated processes that use acoular.Cache over 1-3 sources in one cache '
        'directory: caching mode, block size, HDF5 library, complete / abandoned / failing passes, a crash or an I/O '
        'error at a drawn storage operation (before, after, in the middle of an append). After the faults: one pass '
        'that may rebuild, one that must be served from the file. Every delivered block is compared bit by bit with '
        'the uncached stream; the model decides when the source may and may not be evaluated and the file may and may '
        'not change. Non-trivial: at least one fault hit and at least one pass was served from the file. Distinct: by '
        'event-log digest.'
    )
    distinct_measure = 'digest of the sequence of storage operations, faults, deliveries and cache states'
    assumptions = (
        'A crash loses what HDF5 had not written at that point (the real library decides, the process is killed).',
        'A cache file that the HDF5 library itself cannot open any more after a crash is reported as an error by '
        'acoular; it must never be delivered as data. The file is then removed by the operator.',
        'A file written with one HDF5 library and read with the other may be recomputed instead of used.',
        'In mode overwrite the source may have changed under an unchanged digest; an interrupted overwrite leaves it '
        'open which of the two computations is in the file.',
    )
    components = {
        'real': ['acoular.Cache, h5cache, h5files, RFFT, FiltOctave', 'PyTables, h5py, the file system', 'processes (fork)'],
        'stub': ['scripted sources with read faults', 'fault injection in the HDF5 file classes'],
    }
    quick_runs = 2200
    quick_budget = 60
    thorough_runs = 60000
    batch = 4

    def scenario(self, rng, i, tier):
        nsrc = rng.choice([1, 1, 2, 3])
        srcs = []
        for j in range(nsrc):
            n = rng.choice([0] + [rng.randint(1, 40)] * 24)
            srcs.append(dict(n=n, ch=rng.randint(1, 3), seed=rng.randrange(1 << 20), tag=f't{j}',
                             base=rng.choice([None, 'a', 'a', 'b']),
                             dtype=rng.choice(['float64', 'float64', 'float32']),
                             chain=rng.choice(['none', 'none', 'FiltOctave', 'RFFT', 'RFFT32']),
                             style=rng.choice(['fresh', 'view', 'reuse'])))
        lib = rng.choice(['pytables', 'h5py'])
        sessions = []
        for _ in range(rng.choice([1, 2, 3, 4])):
            passes = []
            mode = rng.choice(MODES)
            for _ in range(rng.choice([1, 1, 2, 3])):
                if rng.random() < 0.25:
                    mode = rng.choice(MODES)
                passes.append(dict(src=rng.randrange(nsrc), num=rng.choice([1, 2, 3, 5, 8, rng.randint(1, 50)]),
                                   mode=mode, end=rng.choice(['full', 'full', 'full', 'close', 'fail', 'die']),
                                   at=rng.randint(0, 8), keep=rng.random() < 0.5))
            fault = None
            if rng.random() < 0.6:
                fault = dict(kind=rng.choice(['crash_before', 'crash_after', 'torn_crash', 'error', 'full', 'torn_error']),
                             at=rng.choice([0, 1, 2, 3, 4, 5, rng.randint(0, 12), rng.randint(0, 40)]))
            if fault is None:
                for q in passes:
                    if q['end'] == 'full' and rng.random() < 0.3:
                        q['twin'] = dict(at=rng.choice([0, 0, 1, 2, rng.randint(0, 20)]), num=rng.choice([q['num'], rng.randint(1, 12)]),
                                         same=rng.random() < 0.7, first=rng.random() < 0.5)
            sessions.append(dict(lib=lib if rng.random() < 0.9 else rng.choice(['pytables', 'h5py']), passes=passes,
                                 fault=fault, exit=rng.choice(['clean', 'clean', 'kill'])))
        return dict(srcs=srcs, sessions=sessions, operator=rng.random() < 0.7, last=rng.choice(['individual', 'all']), num=rng.randint(1, 12))

    def nontrivial(self, sc, rec):
        return rec['probes'].get('served_from_cache', 0) > 0 and sum(rec['faults'].values()) > 0

    # -- building blocks --------------------------------------------------------------------------------
    def raw(self, s, version):
        from dst import lib

        return lib.noise(s['seed'] + 77777 * version, s['n'], s['ch'], np.dtype(s['dtype']))

    def chain(self, s, version, tag=True):
        import acoular as ac

        src = tagged_source()(data=self.raw(s, version), sample_freq=8000.0, style=s['style'], tag=s['tag'],
                              basename=s['base'])
        src.num_samples, src.num_channels = s['n'], s['ch']
        o = src
        if s['chain'] == 'FiltOctave':
            o = ac.FiltOctave(source=src, band=1000.0)
        elif s['chain'].startswith('RFFT'):
            o = ac.RFFT(source=src, block_size=4, precision='complex64' if s['chain'] == 'RFFT32' else 'complex128')
        return src, o

    def reference(self, s, version):
        from dst import lib

        _, o = self.chain(s, version)
        return lib.cat(lib.collect(o.result(7)), s['ch'])

    def execute(self, sc, run):
        import acoular as ac

        cdir = os.path.join(os.getcwd(), 'cache')
        ac.config.cache_dir = cdir
        version = [0] * len(sc['srcs'])
        refs = {}
        # per source: cached (state, version): state in absent/partial/complete/unknown
        state = [['absent', None] for _ in sc['srcs']]

        def ref(j, v):
            if (j, v) not in refs:
                refs[j, v] = self.reference(sc['srcs'][j], v)
            return refs[j, v]

        for k, ses in enumerate(sc['sessions']):
            self.session(sc, run, k, ses, version, state, ref, cdir)
        self.clean(sc, run, cdir, state, False)
        # faults have stopped: one pass repairs, the next one is served from the file
        for j in range(len(sc['srcs'])):
            for turn in (0, 1):
                p = dict(src=j, num=sc['num'], mode=sc['last'], end='full', at=0, keep=False)
                ses = dict(lib=sc['sessions'][-1]['lib'], passes=[p], fault=None, exit='clean')
                self.session(sc, run, f'final{turn}', ses, version, state, ref, cdir, final=True)
            if len(ref(j, version[j])) and state[j][0] != 'complete':
                raise Violation('not-cached', 'Cache', f'a fault-free pass over source {j} left state {state[j]}')
        run.simtime += 1.0

    def session(self, sc, run, k, ses, version, state, ref, cdir, final=False):
        from dst import session as S

        for p in ses['passes']:
            if p['mode'] == 'overwrite':
                p['version'] = version[p['src']] = version[p['src']] + 1
            else:
                p['version'] = version[p['src']]
        before = snapshot(cdir)
        how, rep = S.session(lambda emit: self.inside(sc, ses, emit))
        run.log('session', k, ses['lib'], how, [(r[0], r[1:] if r[0] in ('op', 'oplog') else None) for r in rep if r[0] != 'block'])
        run.steps += len(rep)
        if how not in ('ok', 'crash'):
            raise Violation('session-died', 'Cache', f'session {k}: {how}')
        fault = next((r for r in rep if r[0] == 'op'), None)
        if fault:
            run.fault(fault[2])
            run.probe('fault_in:' + fault[1])
        broken = False  # storage became unreliable in this session
        i = -1
        delivered = {}
        twin = {}
        ends = {}
        for r in rep:
            if r[0] == 'pass':
                i += 1
                delivered[i] = []
            elif r[0] == 'block':
                delivered[i].append(r[1])
            elif r[0] == 'twin':
                twin.setdefault(i, []).append(r[1])
            elif r[0] == 'end':
                ends[i] = r[1:]
        mid = snapshot(cdir)
        mixed = len({x['lib'] for x in sc['sessions']}) > 1
        for i, p in enumerate(ses['passes']):
            if i not in delivered:
                break
            j = p['src']
            got = delivered[i]
            e = ends.get(i)  # (outcome, source blocks read, op count range)
            st, sv = state[j]
            if e is not None and e[0] in ('closed', 'failed', 'died'):
                run.fault({'closed': 'pass_abandoned', 'failed': 'source_read_error', 'died': 'process_killed'}[e[0]])
            hit = fault is not None and (e is None or e[2] <= fault[3] < e[3])
            # -- what may be delivered
            okv = {p['version']}
            if st != 'absent' and p['mode'] in ('individual', 'all', 'readonly'):
                okv = set(range(version[j] + 1)) if sv is None else {sv}
            self.content(run, sc, p, i, got, e, [ref(j, v) for v in sorted(okv)])
            if i in twin and e is not None and e[0] == 'full':
                run.fault('concurrent_pass')
                self.content(run, sc, dict(p, num=p['twin']['num']), f'{i} (concurrent)', twin[i], e, [ref(j, v) for v in sorted(okv)])
            run.log('pass', j, p['mode'], p['num'], st, e and e[:4], len(got))
            run.state(st, p['mode'], p['end'], e and e[0], hit and fault[2])
            # -- errors only when something was injected
            if e is not None and e[0] == 'error' and not hit and not broken:
                if e[4].startswith('open') and st == 'unknown':
                    run.probe('unreadable_cache_file')
                    raise_if_final(final, e)
                else:
                    raise Violation('spurious-error', 'Cache', f'session {k} pass {i} ({p["mode"]}, state {st}): {e[4]}')
            if hit and e is not None and e[0] == 'full' and fault[2] not in ('crash_after',):
                run.probe('fault_survived')
            # -- use of the source
            if e is not None and not broken and not hit and sc['srcs'][j]['n']:
                if st == 'complete' and p['mode'] in ('individual', 'all', 'readonly') and e[1] > 0 and not mixed:
                    raise Violation('cache-not-used', 'Cache', f'session {k} pass {i}: source evaluated ({e[1]} blocks) '
                                    f'although the cache is complete (mode {p["mode"]})')
                if e[0] == 'full' and (p['mode'] in ('none', 'overwrite')) and e[1] == 0:
                    raise Violation('source-not-used', 'Cache', f'session {k} pass {i}: mode {p["mode"]}')
                if e[1] == 0 and e[0] == 'full':
                    run.probe('served_from_cache')
            # -- model
            if p['mode'] in ('none', 'readonly'):
                pass
            elif hit or e is None or broken:
                state[j] = ['unknown', None]
                broken = broken or hit
            elif e[0] == 'full' and not len(ref(j, p['version'])):
                pass  # nothing to cache
            elif e[0] == 'full':
                if p['mode'] == 'overwrite' or st == 'absent' or not version[j]:
                    state[j] = ['complete', p['version']]
                elif st != 'complete':  # which computation is in the file is not known
                    state[j] = ['complete', None]
            elif e[0] == 'error':
                state[j] = ['unknown', None]
            elif p['mode'] == 'overwrite' or st != 'complete':
                state[j] = ['partial', None]
                if e[0] == 'closed' and len(got) * p['num'] >= 0:
                    state[j] = ['unknown', None] if st == 'complete' or e[5] else ['partial', None]
            if ses['exit'] == 'kill' or how == 'crash':
                # whatever was not flushed is lost: a completed entry may not be durable
                if p['mode'] not in ('none', 'readonly') and state[j][0] != 'complete':
                    state[j] = ['unknown', None]
        if all(p['mode'] in ('none', 'readonly') for p in ses['passes']) and mid != before:
            raise Violation('file-changed', 'Cache', f'session {k} with modes {[p["mode"] for p in ses["passes"]]} changed '
                            f'the cache directory: {before} -> {mid}')
        if how == 'crash' or ses['exit'] == 'kill':
            # the whole file may have lost anything not on disk; entries written in this session become uncertain,
            # and so does everything else in a file that was open for writing
            wr = {sc['srcs'][p['src']]['base'] for p in ses['passes'] if p['mode'] not in ('none', 'readonly')}
            for j, s in enumerate(sc['srcs']):
                if s['base'] in wr:
                    state[j] = ['unknown', None] if state[j][0] != 'absent' or any(
                        p['src'] == j for p in ses['passes']) else state[j]
            run.fault('process_killed')
            # a file that HDF5 itself refuses to open is removed by the operator
            self.clean(sc, run, cdir, state, not sc['operator'])

    def clean(self, sc, run, cdir, state, keep):
        for f in sorted(os.listdir(cdir)):
            if opens(os.path.join(cdir, f)):
                continue
            run.probe('unopenable_file_' + ('kept' if keep else 'removed'))
            if not keep:
                os.remove(os.path.join(cdir, f))
            for j, s in enumerate(sc['srcs']):
                if f == (s['base'] or 'void') + '_cache.h5':
                    state[j] = ['unknown', None]

    def content(self, run, sc, p, i, got, e, refs):
        num = p['num']
        n = len(refs[0])
        for a, b in enumerate(got):
            ok = False
            for r in refs:
                x = r[a * num : (a + 1) * num]
                if b.shape == x.shape and b.dtype == x.dtype and np.array_equal(b, x):
                    ok = True
            if not ok:
                x = refs[0][a * num : (a + 1) * num]
                raise Violation('wrong-data', 'Cache', f'pass {i} mode {p["mode"]} num={num} block {a}: {b.shape} {b.dtype}, '
                                f'uncached {x.shape} {x.dtype} ({n} samples)')
        if e is not None and e[0] == 'full' and sum(len(b) for b in got) != n:
            raise Violation('incomplete-data', 'Cache', f'pass {i} mode {p["mode"]}: {sum(len(b) for b in got)} of {n} samples')

    # -- runs in the simulated process -------------------------------------------------------------------
    def inside(self, sc, ses, emit):
        import acoular as ac

        from dst import lib, session as S

        warnings.simplefilter('ignore')
        ac.config.h5library = ses['lib']
        ops = S.Ops(ses['fault'], emit).install()
        kept = {}
        for i, p in enumerate(ses['passes']):
            ac.config.global_caching = p['mode']
            key = (p['src'], p['version'])
            if p['keep'] and key in kept:
                src, c = kept[key]
            else:
                src, o = self.chain(sc['srcs'][p['src']], p['version'])
                c = ac.Cache(source=o)
                kept[key] = src, c
            src.fail = {-1: p['at']} if p['end'] == 'fail' else None
            d0, o0 = src.delivered, ops.n
            emit(('pass', i))
            outcome, msg = 'full', ''
            count = 0
            rows = 0
            try:
                g = c.result(p['num'])
                other = c
                if p.get('twin') and not p['twin']['same']:
                    other = ac.Cache(source=self.chain(sc['srcs'][p['src']], p['version'])[1])
                for b in interleave(g, other, p.get('twin'), emit):
                    b = np.array(b, copy=True)
                    emit(('block', b))
                    count += 1
                    rows += len(b)
                    if p['end'] == 'die' and count > p['at']:
                        emit(('end', 'died', src.delivered - d0, o0, ops.n, '', False))
                        S.die()
                    if p['end'] == 'close' and count > p['at']:
                        outcome = 'closed'
                        g.close()
                        break
            except lib.SimIOError:
                outcome = 'failed'
            except Exception as e:  # noqa: BLE001
                outcome, msg = 'error', f'{"open " if not count else ""}{type(e).__name__}: {str(e)[-300:]}'
                import traceback

                msg += traceback.format_exc()[-700:]
            src.fail = None
            emit(('end', outcome, src.delivered - d0, o0, ops.n, msg, src.delivered - d0 > 0))
        emit(('oplog', len(ops.log)))
        if ses['exit'] == 'kill':
            S.die()

    def shrink(self, sc):
        for i in range(len(sc['sessions'])):
            if len(sc['sessions']) > 1:
                yield dict(sc, sessions=sc['sessions'][:i] + sc['sessions'][i + 1 :])
        for i, s in enumerate(sc['sessions']):
            for v in self.shrink_session(s):
                yield dict(sc, sessions=sc['sessions'][:i] + [v] + sc['sessions'][i + 1 :])
        used = {p['src'] for s in sc['sessions'] for p in s['passes']}
        for j in range(len(sc['srcs']) - 1, -1, -1):
            if j not in used and len(sc['srcs']) > 1 and j == len(sc['srcs']) - 1:
                yield dict(sc, srcs=sc['srcs'][:-1])
        for j, s in enumerate(sc['srcs']):
            for key, v in (('chain', 'none'), ('dtype', 'float64'), ('style', 'fresh'), ('ch', 1), ('base', None)):
                if s[key] != v:
                    yield dict(sc, srcs=sc['srcs'][:j] + [dict(s, **{key: v})] + sc['srcs'][j + 1 :])
            for n in (1, 2, 3, 5, s['n'] // 2, s['n'] - 1):
                if 0 < n < s['n']:
                    yield dict(sc, srcs=sc['srcs'][:j] + [dict(s, n=n)] + sc['srcs'][j + 1 :])

    def shrink_session(self, s):
        if s['fault']:
            yield dict(s, fault=None)
        if s['exit'] == 'kill':
            yield dict(s, exit='clean')
        for i, p in enumerate(s['passes']):
            if len(s['passes']) > 1:
                yield dict(s, passes=s['passes'][:i] + s['passes'][i + 1 :])
            for v in (dict(p, end='full'), dict(p, at=0), dict(p, num=1), dict(p, mode='individual'), dict(p, src=0), dict(p, twin=None)):
                if v != dict(p, twin=p.get('twin')) and v != p:
                    yield dict(s, passes=s['passes'][:i] + [v] + s['passes'][i + 1 :])


def interleave(g, other, twin, emit):
    """Pass on the blocks of g and run a second pass at the same time."""
    h = None
    g = iter(g)
    k = 0
    while True:
        if twin and h is None and k == twin['at'] and twin['first']:
            h = other.result(twin['num'])
            emit_next(h, emit)
        try:
            b = next(g)
        except StopIteration:
            break
        yield b
        if twin and h is None and k == twin['at'] and not twin['first']:
            h = other.result(twin['num'])
        if h is not None:
            emit_next(h, emit)
        k += 1
    while h is not None and emit_next(h, emit):
        pass


def emit_next(h, emit):
    for b in h:
        emit(('twin', np.array(b, copy=True)))
        return True
    return False


def raise_if_final(final, e):
    if final:
        raise Violation('not-recovered', 'Cache', f'fault-free pass fails: {e[4]}')


def snapshot(d):
    out = {}
    for f in sorted(os.listdir(d)):
        with open(os.path.join(d, f), 'rb') as h:
            out[f] = hashlib.md5(h.read()).hexdigest()
    return out


def opens(f):
    import h5py

    try:
        with h5py.File(f, 'r') as h:
            nodes = []
            h.visititems(lambda n, o: nodes.append(o))
            for o in nodes:
                if hasattr(o, 'shape'):
                    o[()]
        return True
    except Exception:  # noqa: BLE001
        return False


_TS = []


def tagged_source():
    """A source whose digest names what it is, not what it delivers."""
    if not _TS:
        from acoular.internal import digest
        from traits.api import Any, Property, cached_property

        from dst.lib import ScriptedSource

        class TaggedSource(ScriptedSource):
            basename = Any
            digest = Property(depends_on=['tag'])

            @cached_property
            def _get_digest(self):
                return digest(self)

        _TS.append(TaggedSource)
    return _TS[0]


PROPERTY = P()
