"""C03: a sample splitter delivers the exact source stream to every consumer under every interleaving."""

import numpy as np

from dst.core import Property, Violation, generic_shrink

POLICY = {'E': 'error', 'W': 'warning', 'N': 'none'}


def gen_sched(rng, nthreads, est):
    mode = rng.choice(['random', 'random', 'random', 'pct', 'pct'])
    s = {'seed': rng.randrange(1 << 30), 'mode': mode}
    if mode == 'random':
        s['p'] = rng.choice([0.003, 0.02, 0.1, 0.3, 0.7])
        s['weights'] = [rng.choice([1.0, 1.0, 1.0, 0.02, 0.2, 5.0]) for _ in range(nthreads)]
    else:
        s['d'] = rng.randint(1, 6)
        s['horizon'] = rng.choice([200, 1000, est])
    return s


def shrink_sched(sc):
    sw = sc.get('switches')
    if sw is not None:
        yield from generic_shrink(sc, ['switches'])


class P(Property):
    id = 'C03'
    technique = 'deterministic simulation: controlled thread scheduler, seeded schedule search, fault injection'
    rule = (
        'One evaluation = one simulated execution: a splitter over a scripted or library source, 2-4 consumers in '
        'simulated threads (or interleaved iterators in one thread), 1-3 passes, optional source read error, schedule '
        'drawn at bytecode or line granularity (random-walk, stalled threads, PCT). Non-trivial: at least two '
        'context switches happened while a consumer was inside the library. Distinct: by digest of the event log '
        '(order of all source pulls and deliveries).'
    )
    distinct_measure = 'digest of the global order of source pulls, deliveries, ends and errors'
    assumptions = (
        'Preemption is possible between any two bytecodes of library frames; calls into C (deque operations) are '
        'atomic, as CPython guarantees.',
        'No consumer falls further behind than its buffer allows (overflow is C04).',
    )
    components = {
        'real': ['acoular.process.SampleSplitter, LockedGenerator', 'acoular.tprocess.TimePower, Average, RFFT, '
                 'TimeSamples, PointSource (subset of runs)', 'python threads (released one at a time)'],
        'stub': ['scripted source with injectable read errors', 'thread scheduler', 'threading locks (simulated)'],
    }
    quick_runs = 2600
    quick_budget = 55
    thorough_runs = 150000
    batch = 12
    library_locks = True
    scenario_timeout = 60

    def scenario(self, rng, i, tier):
        nc = rng.choice([2, 2, 3, 3, 4])
        num = rng.randint(1, 7)
        nblocks = rng.choice([1, 1, 2, 3, 4, 6, 8])
        n = max(1, num * nblocks - rng.choice([0, 0, rng.randrange(num)]))
        kinds = [rng.choice(['plain', 'plain', 'plain', 'power', 'avg', 'rfft']) for _ in range(nc)]
        sc = dict(
            mode=rng.choice(['threads'] * 5 + ['interleaved']),
            n=n, ch=rng.randint(1, 3), num=num, kinds=kinds,
            style=rng.choice(['fresh', 'view', 'reuse']),
            source=rng.choice(['scripted'] * 6 + ['timesamples', 'pointsource']),
            passes=rng.choice([1, 1, 2, 3]),
            bufs=[rng.choice([None, None, 0, 2]) for _ in range(nc)],  # None: default, k: blocks + k
            fail=None,
            gran=rng.choice(['opcode', 'opcode', 'line']),
            order=[rng.randrange(nc) for _ in range(300)],
        )
        if sc['source'] == 'scripted' and rng.random() < 0.25:
            sc['fail'] = [rng.choice([0, 0, 1, -1]), rng.randint(0, nblocks)]
        sc['sched'] = gen_sched(rng, nc, 2500)
        sc['switches'] = None
        return sc

    def nontrivial(self, sc, rec):
        return rec['probes'].get('switches', 0) >= 2 or sc['mode'] == 'interleaved'

    # ---------------------------------------------------------------------------------------------------
    def build(self, sc, hook=None):
        import acoular as ac

        from dst import lib

        if sc['source'] == 'timesamples':
            src = ac.TimeSamples(data=lib.ident_data(sc['n'], sc['ch']), sample_freq=1000.0)
        elif sc['source'] == 'pointsource':
            mics = ac.MicGeom(pos_total=np.array([[0.0, 0.1 * k, 0.0] for k in range(sc['ch'])]).T)
            sig = ac.SineGenerator(sample_freq=1000.0, num_samples=sc['n'], freq=37.0)
            src = ac.PointSource(signal=sig, mics=mics, loc=(0.1, 0.2, 0.5))
        else:
            fail = {sc['fail'][0]: sc['fail'][1]} if sc['fail'] else None
            src = lib.make_source(lib.ident_data(sc['n'], sc['ch']), style=sc['style'], fail=fail, hook=hook)
        return src

    def execute(self, sc, run):
        import acoular as ac

        from dst import lib, sched

        ref_sc = dict(sc, fail=None)
        num = sc['num']
        ref_blocks = lib.collect(self.build(ref_sc).result(num))
        nb = len(ref_blocks)
        sim = None

        def hook(p, k):
            run.log('src', p, k)
            if sim is not None:
                sim.point('src')

        src = self.build(sc, hook)
        sp = ac.SampleSplitter(source=src)
        cons = []
        for j, kind in enumerate(sc['kinds']):
            if kind == 'power':
                c = ac.TimePower(source=sp)
            elif kind == 'avg':
                c = ac.Average(source=sp, num_per_average=num)
            elif kind == 'rfft':
                c = ac.RFFT(source=sp, block_size=2 * num)
            else:
                c = lib.Consumer(source=sp, name=f'c{j}')
            cons.append(c)
            b = sc['bufs'][j]
            # the FFT block pulls its own block size, everybody else the same one
            sp.register_object(c, buffer_size=None if b is None else 2 * nb + 2 + b)
        if 'rfft' in sc['kinds']:
            # a common block size is decided by whoever starts first: keep to sizes all of them agree on
            cons_num = [1 if k == 'rfft' else 2 * num if k == 'plain' or k == 'power' else 1 for k in sc['kinds']]
            for c, k in zip(cons, sc['kinds']):
                if k == 'avg':
                    c.num_per_average = 2 * num
            ref_blocks = lib.collect(self.build(ref_sc).result(2 * num))
            nb = len(ref_blocks)
        else:
            cons_num = [1 if k == 'avg' else num for k in sc['kinds']]

        def reference(kind):
            rsrc = lib.make_source(np.concatenate(ref_blocks), style='fresh')
            rsrc.sample_freq = src.sample_freq
            bs = len(ref_blocks[0])
            if kind == 'power':
                return [b**2 for b in ref_blocks]
            if kind == 'avg':
                full = 2 * num if 'rfft' in sc['kinds'] else num
                return lib.collect(ac.Average(source=rsrc, num_per_average=full).result(1))
            if kind == 'rfft':
                return lib.collect(ac.RFFT(source=rsrc, block_size=2 * num).result(1))
            del bs
            return ref_blocks

        refs = [reference(k) for k in sc['kinds']]
        taken = []
        for p in range(sc['passes']):
            got = [[] for _ in cons]
            end = [None] * len(cons)

            def consume(j, got=got, end=end):
                try:
                    for b in cons[j].result(cons_num[j]):
                        got[j].append(np.array(b, copy=True))
                        run.log('got', j, len(got[j]))
                        if sim is not None:
                            sim.point('consume')
                    end[j] = 'end'
                except OSError as e:
                    end[j] = 'error'
                    run.log('err', j, type(e).__name__, str(e)[:40])
                run.log('done', j, end[j])

            if sc['mode'] == 'threads':
                cfg = dict(sc['sched'])
                if sc['switches'] is not None:
                    cfg['switches'] = [s[1:] for s in sc['switches'] if s[0] == p]
                sim = sched.Sim(run, cfg, sc['gran'])
                for j in range(len(cons)):
                    sim.spawn(f'c{j}', lambda j=j: consume(j))
                try:
                    sim.go()
                finally:
                    taken += [[p, *s] for s in sim.taken]
                    run.resolved = dict(sc, switches=list(taken))
                    run.probe('switches', len(sim.taken))
                for t in sim.threads:
                    if t.error is not None:
                        raise t.error
                sim_used, sim = sim, None
                del sim_used
            else:
                self.interleave(sc, cons, cons_num, got, end, run)
            self.judge(sc, p, refs, got, end, run, nb)

    def interleave(self, sc, cons, cons_num, got, end, run):
        gens = [c.result(m) for c, m in zip(cons, cons_num)]
        order = list(sc['order']) + [j for _ in range(400) for j in range(len(cons))]
        for j in order:
            if j >= len(cons) or end[j]:
                continue
            try:
                b = next(gens[j])
                got[j].append(np.array(b, copy=True))
                run.log('got', j, len(got[j]))
            except StopIteration:
                end[j] = 'end'
                run.log('done', j, 'end')
            except OSError as e:
                end[j] = 'error'
                run.log('err', j, type(e).__name__)
            if all(end):
                break

    def judge(self, sc, p, refs, got, end, run, nb):
        from dst import lib

        # Does the failing pass of the source coincide with this pass?  (a late consumer may open another pass)
        faulty = sc['fail'] is not None
        if faulty:
            run.fault('source_read_error')
        for j, kind in enumerate(sc['kinds']):
            g, r = got[j], refs[j]
            where = 'SampleSplitter'
            if faulty and end[j] == 'error':
                r = r[: len(g)]
                if kind != 'plain' and kind != 'power':
                    continue  # a processing consumer need not have produced output for a partial block
            elif faulty and len(g) < len(r):
                raise Violation('silent-truncation', where, f'pass {p} consumer {j} ({kind}) ended normally with '
                                f'{len(g)} of {len(r)} blocks although the source failed')
            elif end[j] == 'error':
                raise Violation('spurious-error', where, f'pass {p} consumer {j} ({kind}) got an error')
            if len(g) != len(r):
                lost = len(g) < len(r)
                raise Violation('lost-block' if lost else 'extra-block', where,
                                f'pass {p} consumer {j} ({kind}): {len(g)} blocks, expected {len(r)}')
            for k, (x, y) in enumerate(zip(g, r)):
                if x.shape != y.shape or not lib.close(x, y):
                    raise Violation('wrong-block', where, f'pass {p} consumer {j} ({kind}) block {k}: {lib.diff(x, y)}'
                                    if x.shape == y.shape else f'pass {p} consumer {j} block {k}: shape {x.shape} != {y.shape}')
        run.state(sc['mode'], tuple(end), tuple(len(g) for g in got))

    def shrink(self, sc):
        if sc['passes'] > 1:
            yield dict(sc, passes=sc['passes'] - 1)
        for j in range(len(sc['kinds'])):
            if len(sc['kinds']) > 2:
                new = dict(sc)
                for f in ('kinds', 'bufs'):
                    new[f] = sc[f][:j] + sc[f][j + 1 :]
                yield new
        for j, k in enumerate(sc['kinds']):
            if k != 'plain':
                yield dict(sc, kinds=sc['kinds'][:j] + ['plain'] + sc['kinds'][j + 1 :])
        if sc['ch'] > 1:
            yield dict(sc, ch=1)
        if sc['source'] != 'scripted':
            yield dict(sc, source='scripted')
        if sc['style'] != 'fresh':
            yield dict(sc, style='fresh')
        if sc['fail']:
            yield dict(sc, fail=None)
        for n in (sc['num'], 2 * sc['num'], sc['n'] // 2):
            if 0 < n < sc['n']:
                yield dict(sc, n=n)
        if sc['mode'] == 'interleaved':
            yield from generic_shrink(sc, ['order'])
        yield from shrink_sched(sc)


PROPERTY = P()
