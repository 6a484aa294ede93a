"""C04: per-consumer overflow policies of the sample splitter, and recovery afterwards."""

import warnings

import numpy as np

from dst.core import Property, Violation, generic_shrink
from dst.props.c03 import POLICY, gen_sched, shrink_sched


class P(Property):
    id = 'C04'
    technique = 'deterministic simulation: thread scheduler + reference model of bounded queues, stalled consumers'
    rule = (
        'One evaluation = one execution of a splitter with 2-4 consumers with individually drawn buffer sizes '
        '(1..6 blocks) and overflow policies under a random pull order (threads under the scheduler, or one thread) '
        'with stalled and prematurely closed consumers, followed by a recovery pass. Non-trivial: at least one '
        'buffer overflowed. Distinct: by event-log digest.'
    )
    distinct_measure = 'digest of the global order of source pulls, deliveries, warnings and errors'
    assumptions = (
        'A buffer of k blocks overflows when a further block is distributed while k blocks wait in it.',
        'After an overflow under policy error other consumers may still receive correct blocks before the error.',
    )
    components = {
        'real': ['acoular.process.SampleSplitter, LockedGenerator', 'python threads (released one at a time)'],
        'stub': ['scripted source', 'thread scheduler', 'threading locks (simulated)', 'warning sink'],
    }
    quick_runs = 6000
    quick_budget = 55
    thorough_runs = 200000
    batch = 25
    library_locks = True

    def scenario(self, rng, i, tier):
        nc = rng.choice([2, 2, 3, 4])
        num = rng.randint(1, 4)
        nblocks = rng.choice([2, 3, 5, 8, 12])
        n = num * nblocks - rng.choice([0, 0, rng.randrange(num)])
        pol = [rng.choice('EEWWNN') for _ in range(nc)]
        how = rng.choice(['arg', 'arg', 'dict', 'global'])
        g = rng.randint(1, 6)
        size = [g if how == 'global' else rng.choice([1, 1, 2, 3, 4, 6, 20]) for _ in range(nc)]
        return dict(
            mode=rng.choice(['threads', 'threads', 'interleaved', 'interleaved', 'interleaved']),
            n=n, num=num, pol=''.join(pol), size=size, how=how,
            gran=rng.choice(['opcode', 'line']),
            style=rng.choice(['fresh', 'reuse']),
            close=[rng.choice([None] * 5 + [rng.randint(0, 3)]) for _ in range(nc)],
            unreg=[rng.random() < 0.5 for _ in range(nc)],  # unregister after an early close
            recover=rng.choice([None, 'same', 'same', 'remove', 'resize']),
            weights=[rng.choice([1, 1, 0.2, 3, 0]) for _ in range(nc)],
            order=rng.choices(range(nc), [rng.choice([1, 1, 0.2, 3, 0.01]) for _ in range(nc)], k=40),
            sched=gen_sched(rng, nc, 2500), switches=None,
        )

    def nontrivial(self, sc, rec):
        return rec['probes'].get('overflow', 0) > 0

    def execute(self, sc, run):
        import acoular as ac

        from dst import lib, sched

        num = sc['num']
        data = lib.ident_data(sc['n'], 1)
        nb = -(-sc['n'] // num)
        sim = None
        fetched = [0]

        def hook(p, k):
            fetched[0] += 1
            run.log('src', p, k)
            if sim is not None:
                sim.point('src')

        src = lib.make_source(data, style=sc['style'], hook=hook)
        nc = len(sc['pol'])
        cons = [lib.Consumer(source=src, name=f'c{j}') for j in range(nc)]
        kw = {}
        if sc['how'] == 'global':
            kw['buffer_size'] = sc['size'][0]
        elif sc['how'] == 'dict':
            kw['buffer_size'] = {c: s for c, s in zip(cons, sc['size'])}
        sp = ac.SampleSplitter(source=src, **kw)
        for j, c in enumerate(cons):
            c.source = sp
            sp.register_object(
                c, buffer_size=sc['size'][j] if sc['how'] == 'arg' else None,
                buffer_overflow_treatment=POLICY[sc['pol'][j]],
            )
        stranger = lib.Consumer(source=sp, name='stranger')
        try:
            next(stranger.result(num))
        except OSError:
            pass
        else:
            raise Violation('unregistered-served', 'SampleSplitter', 'an unregistered object received data')
        try:
            sp.register_object(cons[0])
        except OSError:
            pass
        else:
            raise Violation('double-registration', 'SampleSplitter', 'registering twice did not fail')

        warned = []

        def show(message, category, *a, **k):
            names = [j for j, c in enumerate(cons) if str(c) in str(message)]
            warned.append((fetched[0], names, str(message)[:30]))
            run.log('warn', names)

        warnings.simplefilter('always')
        warnings.showwarning = show

        got = [[] for _ in cons]
        end = [None] * nc
        late = [None] * nc  # (fetched, deliveries) when the error was raised

        if sc['mode'] == 'interleaved':
            self.interleaved(sc, run, sp, cons, got, end, warned, fetched, nb, num)
        else:

            def consume(j):
                g = cons[j].result(num)
                try:
                    for b in g:
                        got[j].append(int(b[0, 0] - 1) // 100 // num)
                        run.log('got', j, got[j][-1])
                        if sim is not None:
                            sim.point('consume')
                        if sc['close'][j] is not None and len(got[j]) > sc['close'][j]:
                            g.close()
                            end[j] = 'closed'
                            run.fault('consumer_closed_early')
                            if sc['unreg'][j]:
                                sp.remove_object(cons[j])
                                run.log('removed', j)
                                end[j] = 'removed'
                                run.fault('consumer_unregistered')
                            return
                    end[j] = 'end'
                except OSError:
                    late[j] = fetched[0], [len(x) for x in got]
                    end[j] = 'error'
                run.log('done', j, end[j])

            cfg = dict(sc['sched'])
            if sc['switches'] is not None:
                cfg['switches'] = sc['switches']
            sim = sched.Sim(run, cfg, sc['gran'])
            for j in range(nc):
                sim.spawn(f'c{j}', lambda j=j: consume(j))
            try:
                sim.go()
            finally:
                run.resolved = dict(sc, switches=list(sim.taken))
                run.probe('switches', len(sim.taken))
            for t in sim.threads:
                if t.error is not None:
                    raise t.error
            sim = None
            self.judge_threads(sc, run, got, end, late, warned, nb)
        if sc['recover']:
            self.recover(sc, run, sp, cons, end, data, num, nb)

    # -- one thread: exact reference model ---------------------------------------------------------------
    def interleaved(self, sc, run, sp, cons, got, end, warned, fetched, nb, num):
        from collections import deque

        nc = len(cons)
        gens = [c.result(num) for c in cons]
        queues = [deque() for _ in cons]
        lost = [0] * nc
        nxt = 0
        broken = False
        pulls = 0
        full = list(range(nc)) + list(sc['order']) + [j for _ in range(60) for j in range(nc) if sc['weights'][j]]
        for j in full:
            if end[j]:
                continue
            if sc['close'][j] is not None and len(got[j]) >= sc['close'][j]:
                gens[j].close()
                end[j] = 'closed'
                run.fault('consumer_closed_early')
                if sc['unreg'][j]:
                    sp.remove_object(cons[j])
                    run.fault('consumer_unregistered')
                    end[j] = 'removed'
                continue
            pulls += 1
            # model
            want = None
            maywarn = set()
            mustfail = broken
            if not broken:
                if queues[j]:
                    want = queues[j].popleft()
                elif nxt >= nb:
                    want = 'end'
                else:
                    over = [x for x in range(nc) if end[x] != 'removed' and len(queues[x]) >= sc['size'][x]]
                    maywarn = {x for x in over if sc['pol'][x] == 'W'}
                    if over:
                        run.probe('overflow')
                        run.fault('stalled_consumer_overflow', len(over))
                    if any(sc['pol'][x] == 'E' for x in over):
                        mustfail = True
                    for x in (y for y in range(nc) if end[y] != 'removed'):
                        queues[x].append(nxt)
                        if len(queues[x]) > sc['size'][x]:
                            queues[x].popleft()
                            lost[x] += 1
                    nxt += 1
                    want = queues[j].popleft()
            n0 = len(warned)
            try:
                b = next(gens[j])
                have = int(b[0, 0] - 1) // 100 // num
                k0 = have * num
                exp = cons[0].source.source.data[k0 : k0 + num]
                if b.shape != exp.shape or not np.array_equal(b, exp):
                    raise Violation('wrong-block', 'SampleSplitter', f'consumer {j} got a mixed block')
                got[j].append(have)
            except StopIteration:
                have = 'end'
                end[j] = 'end'
            except OSError:
                have = 'error'
                end[j] = 'error'
            run.log('pull', j, have)
            new = {x for _, names, _ in warned[n0:] for x in names}
            if mustfail:
                broken = True
                if have != 'error':
                    raise Violation('overflow-not-reported', 'SampleSplitter',
                                    f'pull {pulls} of consumer {j} gave {have}, policies {sc["pol"]} sizes {sc["size"]}')
                continue
            if have != want:
                cls = 'spurious-error' if have == 'error' else 'wrong-delivery'
                raise Violation(cls, 'SampleSplitter', f'pull {pulls}, consumer {j}: got {have}, model says {want}; '
                                f'policies {sc["pol"]} sizes {sc["size"]} order {full[:pulls]}')
            if maywarn - new:
                raise Violation('missing-warning', 'SampleSplitter', f'consumers {sorted(maywarn - new)} lost data silently')
            if new - maywarn:
                raise Violation('spurious-warning', 'SampleSplitter', f'warning for {sorted(new - maywarn)}')
            run.state(tuple(len(q) for q in queues), sc['pol'])
        for g in gens:
            g.close()

    # -- threads: invariants over the history ------------------------------------------------------------
    def judge_threads(self, sc, run, got, end, late, warned, nb):
        nc = len(got)
        warned_objs = {x for _, names, _ in warned for x in names}
        closed = any(e == 'closed' for e in end)
        for j in range(nc):
            g, pol = got[j], sc['pol'][j]
            if any(y <= x for x, y in zip(g, g[1:])):
                raise Violation('wrong-order', 'SampleSplitter', f'consumer {j}: {g}')
            gaps = (g[0] if g else 0) + sum(y - x - 1 for x, y in zip(g, g[1:]))
            if gaps:
                run.probe('overflow')
                run.fault('stalled_consumer_overflow')
                if pol == 'E':
                    raise Violation('lost-block', 'SampleSplitter', f'consumer {j} with policy error lost data: {g}')
                if pol == 'W' and j not in warned_objs:
                    raise Violation('missing-warning', 'SampleSplitter', f'consumer {j} lost data silently: {g}')
            if end[j] == 'end' and (not g or g[-1] != nb - 1):
                raise Violation('lost-block', 'SampleSplitter', f'consumer {j} ended before the last block: {g} of {nb}')
            if end[j] == 'error':
                run.probe('overflow')
                run.fault('stalled_consumer_overflow')
                f, cnt = late[j]
                if not any(sc['pol'][x] == 'E' and f - cnt[x] >= sc['size'][x] for x in range(nc)):
                    # a consumer that stopped reading for good also overflows; it is covered by the same test
                    raise Violation('spurious-error', 'SampleSplitter', f'consumer {j} failed after {f} blocks, '
                                    f'deliveries {cnt}, sizes {sc["size"]}, policies {sc["pol"]}')
        if not closed and 'error' in end and 'end' in end:
            # whoever ended normally must have had everything
            pass
        run.state(sc['pol'], tuple(end), tuple(len(g) for g in got))

    def recover(self, sc, run, sp, cons, end, data, num, nb):
        """Once everybody stopped, a new run over the splitter is complete again (bounded liveness)."""
        from dst import lib

        # a consumer that was closed early is registered anew so that its position is defined
        use = list(cons)
        if sc['recover'] == 'remove':
            sp.remove_object(*[c for c, e in zip(cons, end) if e != 'removed'])
            if len(sp.block_buffer) or len(sp.buffer_overflow_treatment):
                raise Violation('not-removed', 'SampleSplitter', 'objects remain after remove_object')
            for c in use:
                sp.register_object(c, buffer_size=nb + 1)
        elif sc['recover'] == 'resize':
            sp.buffer_size = nb + 1
            for c, e in zip(cons, end):
                if e == 'removed':
                    sp.register_object(c, buffer_size=nb + 1)
        else:
            sp.remove_object()
            for c in use:
                sp.register_object(c, buffer_size=nb + 1)
        run.log('recover', sc['recover'])
        for attempt in range(3):
            # objects that were interrupted first see the end (or the error) of the interrupted pass
            ok = True
            gens = [c.result(num) for c in use]
            out = [[] for _ in use]
            live = set(range(len(use)))
            for _ in range(nb + 3):
                for j in sorted(live):
                    try:
                        out[j].append(next(gens[j]).copy())
                    except StopIteration:
                        live.discard(j)
                    except OSError:
                        live.discard(j)
                        ok = False
            if live:
                raise Violation('no-end', 'SampleSplitter', 'a recovered pass did not end')
            if ok and all(len(o) == nb and np.array_equal(np.concatenate(o), data) for o in out):
                run.probe('recovered')
                run.probe(f'recovered_after_{attempt}')
                return
        raise Violation('no-recovery', 'SampleSplitter', f'three complete passes after {sc["recover"]}: still failing '
                        f'(ok={ok}, lengths {[len(o) for o in out]}, expected {nb})')

    def shrink(self, sc):
        if sc['recover']:
            yield dict(sc, recover=None)
        for j in range(len(sc['pol'])):
            if len(sc['pol']) > 2:
                yield dict(
                    sc, pol=sc['pol'][:j] + sc['pol'][j + 1 :],
                    **{f: sc[f][:j] + sc[f][j + 1 :] for f in ('size', 'close', 'weights', 'unreg')},
                    order=[o - (o > j) for o in sc['order'] if o != j],
                )
        for j, c in enumerate(sc['close']):
            if c is not None:
                yield dict(sc, close=sc['close'][:j] + [None] + sc['close'][j + 1 :])
        if sc['num'] > 1:
            yield dict(sc, num=1, n=-(-sc['n'] // sc['num']))
        if sc['n'] > sc['num']:
            yield dict(sc, n=sc['n'] - sc['num'])
        yield from generic_shrink(sc, ['order'])
        yield from shrink_sched(sc)


PROPERTY = P()
