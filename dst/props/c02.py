"""C02: passes over a processing chain are isolated from each other and leave their inputs untouched."""

import numpy as np

from dst.core import Property, Violation, generic_shrink
from dst.props.c01 import gen_size, gen_spec, label, shrink_spec

# blocks that pull their source with the block size they are asked for (a splitter serves one size only)
SAME_NUM = ('ChannelMixer', 'TimePower', 'TimeCumAverage', 'TimeReverse', 'FiltOctave', 'FiltFiltOctave',
            'TimeExpAverage', 'FiltFreqWeight', 'OctaveFilterBank', 'TimeConvolve', 'Calib', 'Masked', 'Mixer',
            'SourceMixer', 'Interp')
# one pass at a time by nature: they own a file / a cache entry / a set of registered consumers
SINGLE = ('SamplesBuffer', 'WriteH5', 'Splitter', 'Cache', 'CacheF')


class P(Property):
    id = 'C02'
    technique = 'deterministic simulation: seeded interleaving of passes with aborts and read faults, fresh-object oracle'
    rule = (
        'One evaluation = one history of passes over randomly drawn processing graphs: (repeat) a sequence of complete, '
        'abandoned and failing passes over one object; (interleave) 2-3 passes of one object pulled in random order; '
        '(shared) two different chains over one source object pulled in random order; (split) the same behind a sample '
        'splitter. Oracle: every completed pass equals the pass of a freshly built graph, and the arrays of the sources '
        'are bit-identical afterwards. Non-trivial: at least two passes made progress. Distinct: by event-log digest.'
    )
    distinct_measure = 'digest of the order of pulls, faults and delivered block contents'
    assumptions = (
        'A block may be overwritten by its producer when the next block is pulled (reused buffers are allowed).',
        'Blocks that own a file, cache entry or buffer (WriteH5, Cache, SamplesBuffer) or registered consumers (splitter) are used by one '
        'pass at a time; they take part in the repeat histories only.',
    )
    components = {
        'real': ['acoular.tprocess, process, fprocess, sources, signals, tbeamform, tools', 'HDF5 files in a scratch dir'],
        'stub': ['scripted sources with read faults', 'numba kernels run as plain Python'],
    }
    quick_runs = 6000
    quick_budget = 60
    thorough_runs = 150000
    batch = 10

    def scenario(self, rng, i, tier):
        from dst import zoo

        mode = rng.choice(['repeat', 'repeat', 'interleave', 'interleave', 'shared', 'shared', 'split'])
        if mode in ('repeat', 'interleave'):
            spec, n, ch = gen_spec(rng, ('Splitter',) if mode == 'repeat' else SINGLE)
            specs = [spec]
        else:
            n, ch = gen_size(rng)
            leaf = zoo.gen_leaf(rng, n, ch)
            nn, cc = zoo.shape_of(leaf)
            specs = []
            for _ in range(rng.choice([2, 2, 3])):
                if rng.random() < 0.15:
                    specs.append(leaf)
                    continue
                if mode == 'split':
                    s = zoo.gen_graph(rng, rng.choice([1, 1, 2]), nn, cc, leaf=leaf,
                                      exclude=[b for b in zoo.BLOCKS if b not in SAME_NUM])
                else:
                    s = zoo.gen_graph(rng, rng.choice([1, 1, 2]), nn, cc, leaf=leaf, exclude=SINGLE)
                specs.append(s)
        num = rng.choice([1, 2, 3, 7, rng.randint(1, n + 3), max(1, n // 2), max(1, n // 3), n])
        num = max(num, -(-n // 40))
        sc = dict(mode=mode, specs=specs, n=n, num=num)
        if mode == 'repeat':
            sc['passes'] = [dict(num=rng.choice([num, num, rng.randint(max(1, n // 30), n + 3)]),
                                 end=rng.choice(['full', 'full', 'close', 'drop', 'fail', 'throw']),
                                 at=rng.randint(0, 4)) for _ in range(rng.choice([2, 3, 4]))]
        else:
            k = len(specs) if len(specs) > 1 else rng.choice([2, 3])
            sc['order'] = [rng.randrange(k) for _ in range(rng.choice([10, 40, 120]))]
            sc['k'] = k
            # a pass that is abandoned / fails while the others go on
            sc['quit'] = [rng.choice([None] * 5 + [rng.randint(0, 4)]) for _ in range(k)]
            sc['nums'] = [num if mode == 'split' else rng.choice([num, num, rng.randint(max(1, n // 30), n + 3)])
                          for _ in range(k)]
        return sc

    def nontrivial(self, sc, rec):
        return rec['probes'].get('passes', 0) >= 2 and rec['probes'].get('blocks', 0) > 2

    def execute(self, sc, run):
        import acoular as ac

        ac.config.global_caching = 'individual'
        run.probe('mode:' + sc['mode'])
        for s in sc['specs']:
            run.probe('graph:' + label(s))
        if sc['mode'] == 'repeat':
            self.repeat(sc, run)
        else:
            self.together(sc, run)

    # -- helpers -----------------------------------------------------------------------------------------
    def reference(self, spec, num):
        from dst import lib, zoo

        env = zoo.Env(num)
        env.shared = {}
        env.tag = 'ref'
        return lib.collect(zoo.build(fresh_cache(spec), env).result(num))

    def snapshot(self, env):
        return [(s, np.array(s.data, copy=True)) for s in env if getattr(s, 'data', None) is not None]

    def unchanged(self, snap, where):
        for s, d in snap:
            if not np.array_equal(np.asarray(s.data), d):
                raise Violation('source-modified', where, f'the array of {type(s).__name__} was modified in place')

    def same(self, blocks, ref, where, what):
        from dst import lib

        if [len(b) for b in blocks] != [len(b) for b in ref]:
            raise Violation('pass-differs', where, f'{what}: block lengths {[len(b) for b in blocks]}, fresh object '
                            f'{[len(b) for b in ref]}')
        for i, (a, b) in enumerate(zip(blocks, ref)):
            if not lib.close(a, b, 1e-9):
                raise Violation('pass-differs', where, f'{what}: block {i}: {lib.diff(a, b)}')

    # -- a history of passes over one object -------------------------------------------------------------
    def repeat(self, sc, run):
        from dst import lib, zoo

        spec = sc['specs'][0]
        where = label(spec)
        env = zoo.Env(max(p['num'] for p in sc['passes']))
        o = zoo.build(spec, env)
        snap = self.snapshot(env)
        sims = [s for s in env if isinstance(s, lib.ScriptedSource)]
        for k, p in enumerate(sc['passes']):
            num = p['num']
            ref = self.reference(spec, num)
            failing = p['end'] == 'fail' and sims
            for s in sims:
                s.fail = {-1: p['at']} if failing else None
            got = []
            g = o.result(num)
            outcome = 'end'
            try:
                for b in g:
                    got.append(np.array(b, copy=True))
                    run.probe('blocks')
                    if p['end'] in ('close', 'drop', 'throw') and len(got) > p['at']:
                        outcome = p['end']
                        break
            except lib.SimIOError:
                outcome = 'failed'
            except StopIteration:
                raise
            if outcome == 'close':
                g.close()
                run.fault('pass_closed_early')
            elif outcome == 'throw':
                try:
                    g.throw(KeyboardInterrupt())
                except KeyboardInterrupt:
                    run.fault('interrupt_thrown_into_pass')
                except RuntimeError:  # the generator had ended or translated it
                    pass
            elif outcome == 'drop':
                del g
                run.fault('pass_abandoned')
            elif outcome == 'failed':
                run.fault('source_read_error')
            for s in sims:
                s.fail = None
            run.probe('passes')
            run.log('pass', k, num, p['end'], outcome, [len(b) for b in got], lib.cat(got, 1))
            if outcome == 'end':
                self.same(got, ref, where, f'pass {k} (num={num}) after {[q["end"] for q in sc["passes"][:k]]}')
            else:
                self.same(got, ref[: len(got)], where, f'start of pass {k} (num={num}, {outcome})')
            self.unchanged(snap, where)
            run.state(where, k, outcome)
        run.simtime += sc['n'] / 8000.0

    # -- several passes at once --------------------------------------------------------------------------
    def together(self, sc, run):
        import acoular as ac

        from dst import lib, zoo

        num = max(sc['nums'])
        env = zoo.Env(num)
        env.shared = {}
        split = []
        if sc['mode'] == 'split':

            def wrap(o):
                if split:
                    return o  # only the shared leaf is split
                sp = ac.SampleSplitter(source=o)
                split.append(sp)
                return sp

            env.wrap = wrap
        specs = sc['specs'] if len(sc['specs']) > 1 else sc['specs'] * sc['k']
        if sc['mode'] == 'interleave':
            objs = [zoo.build(specs[0], env)] * sc['k']
        else:
            objs = []
            for j, s in enumerate(specs):
                if split and not s['s']:
                    objs.append(lib.Consumer(source=split[0], name=f'c{j}'))
                    continue
                o = zoo.build(s, env)
                if o in split:
                    o = lib.Consumer(source=o, name=f'c{j}')
                objs.append(o)
            if split:
                for o in objs:
                    for c in consumers(o, split[0]):
                        split[0].register_object(c, buffer_size=2000)
        snap = self.snapshot(env)
        refs = [self.reference(s, m) for s, m in zip(specs, sc['nums'])]
        gens = [o.result(m) for o, m in zip(objs, sc['nums'])]
        got = [[] for _ in gens]
        live = set(range(len(gens)))
        order = list(sc['order'])
        tail = 0
        while live:
            if order:
                j = order.pop(0)
                if j not in live:
                    continue
            else:
                j = sorted(live)[tail % len(live)]
                tail += 1
            if sc['quit'][j] is not None and len(got[j]) > sc['quit'][j] and sc['mode'] != 'split':
                gens[j].close()
                live.discard(j)
                run.fault('pass_closed_early')
                run.log('close', j)
                continue
            try:
                b = np.array(next(gens[j]), copy=True)
            except StopIteration:
                live.discard(j)
                run.log('end', j)
                continue
            run.log('got', j, b)
            i = len(got[j])
            got[j].append(b)
            run.probe('blocks')
            w = label(specs[j])
            if i >= len(refs[j]):
                raise Violation('pass-differs', w, f'pass {j} of {sc["mode"]}: more blocks than a fresh object yields')
            if b.shape != refs[j][i].shape or not lib.close(b, refs[j][i], 1e-9):
                raise Violation('pass-differs', w, f'pass {j} of {sc["mode"]} {[label(s) for s in specs]}, nums '
                                f'{sc["nums"]}: block {i}: {lib.diff(b, refs[j][i])}')
        for j in range(len(gens)):
            run.probe('passes')
            if sc['quit'][j] is None or sc['mode'] == 'split':
                self.same(got[j], refs[j], label(specs[j]), f'pass {j} of {sc["mode"]}')
            run.state(sc['mode'], label(specs[j]), len(got[j]) > 1)
        self.unchanged(snap, label(specs[0]))
        run.simtime += sc['n'] / 8000.0

    def shrink(self, sc):
        if sc['mode'] == 'repeat':
            for i in range(len(sc['passes'])):
                if len(sc['passes']) > 1:
                    yield dict(sc, passes=sc['passes'][:i] + sc['passes'][i + 1 :])
            for v in shrink_spec(sc['specs'][0]):
                yield dict(sc, specs=[v])
            return
        if len(sc['specs']) == 1:
            for v in shrink_spec(sc['specs'][0]):
                yield dict(sc, specs=[v])
        elif len(sc['specs']) > 2:
            for i in range(len(sc['specs'])):
                yield dict(sc, specs=sc['specs'][:i] + sc['specs'][i + 1 :], k=sc['k'] - 1,
                           nums=sc['nums'][:i] + sc['nums'][i + 1 :], quit=sc['quit'][:i] + sc['quit'][i + 1 :],
                           order=[x - (x > i) for x in sc['order'] if x != i])
        for j, q in enumerate(sc['quit']):
            if q is not None:
                yield dict(sc, quit=sc['quit'][:j] + [None] + sc['quit'][j + 1 :])
        if len(set(sc['nums'])) > 1:
            yield dict(sc, nums=[sc['num']] * len(sc['nums']))
        yield from generic_shrink(sc, ['order'])


def fresh_cache(spec):
    """The reference graph must not read what the graph under test wrote."""
    if spec['t'] in ('Cache', 'CacheF'):
        return fresh_cache(spec['s'][0])
    if not spec['s']:
        return spec
    new = dict(spec, s=[fresh_cache(s) for s in spec['s']])
    if spec['t'] == 'WriteH5':
        return dict(new, p=dict(spec['p'], id=spec['p']['id'] + (1 << 40)))
    return new


def consumers(o, sp, seen=None):
    """The objects of a chain that read from the splitter."""
    out = []
    for name in ('source', 'sources'):
        s = getattr(o, name, None)
        for x in s if isinstance(s, (list, tuple)) or type(s).__name__ == 'TraitListObject' else [s]:
            if x is sp:
                out.append(o)
            elif x is not None and x is not o and hasattr(x, 'result'):
                out += consumers(x, sp)
    return out


PROPERTY = P()
