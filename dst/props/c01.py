"""C01: the block size (pull schedule) never changes what a processing chain delivers."""

import numpy as np

from dst.core import Property, Violation


def gen_size(rng):
    n = rng.choice([1, 2, 3, rng.randint(1, 30), rng.randint(50, 140), rng.randint(20, 120), rng.randint(20, 120)])
    return n, rng.randint(1, 6)


def gen_spec(rng, exclude=()):
    from dst import zoo

    n, ch = gen_size(rng)
    k = rng.choice([b for b in zoo.BLOCKS if b not in exclude])
    if zoo.BLOCKS[k][3] == zoo.TD:
        depth = rng.choice([1, 1, 2, 2, 3])
    else:
        depth = rng.choice([2, 2, 3])
    if rng.random() < 0.15:
        return zoo.gen_leaf(rng, n, ch, exclude and [x for x in zoo.LEAVES if x not in exclude]), n, ch
    return zoo.gen_graph(rng, depth, n, ch, only=[k], exclude=exclude), n, ch


def label(spec):
    from dst import zoo

    return zoo.types(spec)[0]


def tolerance(spec):
    return 1e-8


def shrink_spec(spec):
    """Smaller graphs: replace a node by its first source, drop extra sources, shorten leaves."""
    from dst import zoo

    if spec['s']:
        yield spec['s'][0]
        if len(spec['s']) > 1 and spec['t'] in ('Mixer', 'SourceMixer'):
            for i in range(len(spec['s']) - 1, 0, -1):
                if len(spec['s']) > 1 and not (spec['t'] == 'Mixer' and len(spec['s']) == 2):
                    yield dict(spec, s=spec['s'][:i] + spec['s'][i + 1 :])
        for i, c in enumerate(spec['s']):
            for v in shrink_spec(c):
                new = dict(spec, s=spec['s'][:i] + [v] + spec['s'][i + 1 :])
                d = zoo.BLOCKS[spec['t']][3]
                if v is c['s'][0] if c['s'] else False:
                    # only if the domain still matches
                    cd = zoo.BLOCKS[c['t']][3]
                    if not zoo._accepts(d, zoo.BLOCKS[v['t']][4] if v['t'] in zoo.BLOCKS else zoo.TD, v):
                        continue
                    del cd
                yield new
    elif spec['t'] == 'sim' and spec['p']['style'] != 'fresh':
        yield dict(spec, p=dict(spec['p'], style='fresh'))
    elif spec['t'] in ('timesamples', 'masked', 'uncorr', 'h5'):
        yield dict(t='sim', p=dict(n=spec['p']['n'], ch=spec['p']['ch'], seed=spec['p']['seed'], style='fresh'), s=[])


class P(Property):
    id = 'C01'
    technique = 'deterministic simulation: seeded search over processing graphs and pull schedules, metamorphic oracle'
    rule = (
        'One evaluation = one randomly drawn processing graph (leaf sources of 6 kinds, up to 3 stacked blocks out of '
        '26, random parameters inside their documented domain, 1-140 samples, 1-6 channels) pulled with 3-5 different '
        'block sizes, one of them larger than the stream. Non-trivial: at least one pull schedule cut the stream into '
        'two or more blocks. Distinct: by event-log digest (block boundaries and content hashes).'
    )
    distinct_measure = 'digest of the delivered block sequence under all pull schedules'
    assumptions = (
        'Agreement means 1e-8 of the largest magnitude of the stream (different summation order is allowed).',
        'Exempt as documented: CLEAN-T runs per block; time-domain beamformers deliver fewer samples than their '
        'source (propagation time).',
    )
    components = {
        'real': ['acoular.tprocess, process, fprocess, sources, signals, tbeamform, tools', 'HDF5 files in a scratch dir'],
        'stub': ['scripted sources (fresh / view / reused buffer)', 'numba kernels run as plain Python'],
    }
    quick_runs = 8000
    quick_budget = 60
    thorough_runs = 150000
    batch = 10

    def scenario(self, rng, i, tier):
        spec, n, ch = gen_spec(rng)
        sizes = {n * 2 + 60}
        pool = [1, 2, 3, 7, rng.randint(1, n + 3), rng.randint(1, max(2, n // 2)), max(1, n - 1), n, n + 1,
                max(1, n // 2)]
        want = rng.choice([3, 4, 5])
        for _ in range(20):
            if len(sizes) >= want:
                break
            sizes.add(rng.choice(pool))
        return dict(spec=spec, sizes=sorted(sizes, reverse=True),
                    rr=rng.choice([None, None, rng.randint(1, n + 5), 0]))

    def nontrivial(self, sc, rec):
        return rec['probes'].get('multi_block', 0) > 0

    def execute(self, sc, run):
        import acoular as ac

        from dst import lib, zoo

        ac.config.global_caching = 'none'
        spec = sc['spec']
        where = label(spec)
        tt = zoo.types(spec)
        run.probe('graph:' + where)
        bf = 'Beamformer' in tt
        ref = None
        for num in sc['sizes']:
            o = zoo.build(spec, zoo.Env(num))
            blocks = lib.collect(o.result(num))
            self.shape_rules(o, blocks, num, where)
            if len(blocks) > 1:
                run.probe('multi_block')
            full = lib.cat(blocks, 1)
            run.log('pull', num, [len(b) for b in blocks], full)
            run.simtime += len(full) / 8000.0
            if not bf:
                want = int(np.floor(float(o.num_samples) + 1e-9))
                if len(full) != want:
                    raise Violation('num-samples', where, f'num={num}: {len(full)} samples delivered, {o.num_samples} '
                                    f'announced; {tt}')
            elif len(full) > float(o.num_samples):
                raise Violation('num-samples', where, f'num={num}: {len(full)} samples > {o.num_samples} announced')
            if ref is None:
                ref = full
                continue
            a, b = full, ref
            if a.shape != b.shape or not lib.close(a, b, tolerance(spec)):
                raise Violation('block-size-dependence', where,
                                f'num={num} against one block of {sc["sizes"][0]}: {lib.diff(a, b)}; {tt}')
        if sc['rr'] is not None and not bf and len(ref):
            self.return_result(sc, run, ref, where)
        run.state(where, tuple(tt), len(sc['sizes']))

    def return_result(self, sc, run, ref, where):
        import acoular as ac

        from dst import lib, zoo

        nmax = sc['rr']
        num = sc['sizes'][-1]
        o = zoo.build(sc['spec'], zoo.Env(num))
        got = ac.tools.return_result(o, nmax or -1, num)
        exp = ref[:nmax] if nmax else ref
        run.log('return_result', nmax, num, got)
        run.probe('return_result')
        size = max(float(np.abs(ref[np.isfinite(ref)]).max(initial=0)), 1e-300)
        if not lib.close(got, exp, atol=tolerance(sc['spec']) * size):
            raise Violation('return-result', where, f'return_result(nmax={nmax}, num={num}): {lib.diff(got, exp)}')

    def shape_rules(self, o, blocks, num, where):
        for i, b in enumerate(blocks):
            if b.ndim != 2:
                raise Violation('block-shape', where, f'num={num}: block {i} has shape {b.shape}')
            if b.shape[0] == 0:
                raise Violation('empty-block', where, f'num={num}: block {i} of {len(blocks)} is empty')
            if b.shape[0] > num or (b.shape[0] != num and i < len(blocks) - 1):
                raise Violation('block-length', where, f'num={num}: blocks {[len(x) for x in blocks]}')
            ch = o.num_channels
            if hasattr(o, 'num_freqs'):
                ch *= o.num_freqs
            if b.shape[1] != ch:
                raise Violation('num-channels', where, f'num={num}: {b.shape[1]} columns, {ch} announced')
        if len({b.dtype for b in blocks}) > 1:
            raise Violation('block-dtype', where, f'{[str(b.dtype) for b in blocks]}')

    def shrink(self, sc):
        for v in shrink_spec(sc['spec']):
            yield dict(sc, spec=v)
        for i in range(1, len(sc['sizes'])):
            if len(sc['sizes']) > 2:
                yield dict(sc, sizes=sc['sizes'][:i] + sc['sizes'][i + 1 :])
        if sc['rr'] is not None:
            yield dict(sc, rr=None)


PROPERTY = P()
