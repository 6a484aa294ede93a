"""Command line: main.py ID [--tier quick|thorough] [--replay FILE] [--selftest N] [--runs N] [--index I]"""

import argparse
import gc
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))

from dst import core  # noqa: E402


def boot(pid, scratch):
    """Environment, import of the property module and of the library from the working tree."""
    os.environ['NUMBA_CACHE_DIR'] = os.path.join(scratch, 'numba')
    os.environ['MPLCONFIGDIR'] = os.path.join(scratch, 'mpl')
    os.environ['MPLBACKEND'] = 'Agg'
    os.environ['OPENBLAS_NUM_THREADS'] = '1'
    os.environ['OMP_NUM_THREADS'] = '1'
    os.environ['HDF5_USE_FILE_LOCKING'] = os.environ.get('HDF5_USE_FILE_LOCKING', 'FALSE')
    sys.dont_write_bytecode = True
    mod = importlib.import_module(f'dst.props.{pid.lower()}')
    prop = mod.PROPERTY
    os.environ['NUMBA_NUM_THREADS'] = str(prop.numba_threads)
    if not prop.needs_jit:
        os.environ['NUMBA_DISABLE_JIT'] = '1'
    os.chdir(scratch)
    sys.path.insert(0, core.REPO)
    from dst import world

    world.install(prop)
    import acoular

    root = os.path.realpath(os.path.join(core.REPO, 'acoular'))
    if os.path.dirname(os.path.realpath(acoular.__file__)) != root:
        raise core.HarnessError(f'acoular imported from {acoular.__file__}, not from {root}')
    world.after_import(scratch)
    prop.prepare()
    gc.collect()
    gc.freeze()  # children collect only what they created themselves
    return prop


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--selftest', type=int)
    ap.add_argument('--runs', type=int)
    ap.add_argument('--budget', type=float)
    ap.add_argument('--index', type=int)
    ap.add_argument('--digests', type=int)
    ap.add_argument('--workers', type=int)
    ap.add_argument('--explore', action='store_true', help='list all distinct violations of the runs')
    a = ap.parse_args()
    pid = a.id.upper()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix=f'dst-{pid}-')
    old = os.getcwd()
    code = 2
    try:
        code = work(a, pid, seed, scratch, t0)
    except core.HarnessError as e:
        print(f'HARNESS-ERROR property={pid}: {e}', flush=True)
        code = 2
    finally:
        os.chdir(old)
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)


def work(a, pid, seed, scratch, t0):
    print(f'dst property={pid} VERIF_SEED={seed} tier={a.tier}', flush=True)
    prop = boot(pid, scratch)
    eng = core.Engine(prop, a.tier, seed, scratch, a.workers)
    if prop.needs_jit:
        out = core.in_child(lambda: (prop.warmup(), {'ok': 1})[1], 600)
        if 'ok' not in out:  # the scenarios will show whether the library is at fault
            print(f'warm-up failed: {str(out)[:600]}', flush=True)
    boot_s = time.time() - t0

    if a.replay:
        with open(a.replay) as f:
            body = json.load(f)
        out = eng.exec_isolated(body['scenario'])
        v = out['violation']
        same = v is not None and core.vkey(v) == core.vkey(body['violation'])
        print(json.dumps(dict(violation=v, reproduced=same, log_digest=out['rec']['digest'],
                              identical_log=out['rec']['digest'] == body['log_digest'])))
        if v is not None:
            print(f'VIOLATION property={pid} replay={a.replay}')
            return 1
        return 0

    if a.index is not None:
        sc = (list(prop.fixed_scenarios())[-a.index - 1] if a.index < 0 else eng.gen(a.index))
        print(json.dumps(sc, indent=None))
        os.environ['DST_LOG'] = '1'
        out = eng.exec_isolated(sc)
        for e in out['rec']['events']:
            print(' ', e)
        print(json.dumps(out['violation'], indent=1), out['skip'], out['rec']['faults'], out['rec']['probes'])
        return 0

    if a.digests is not None:  # event-log digests, for determinism comparison between interpreters
        agg = []

        fixed = list(prop.fixed_scenarios())

        def acc(_agg, i, res):
            agg.append((i, res['rec']['digest'], bool(res['violation']), bool(res['skip'])))
            return orig(_agg, i, res)

        orig = eng._account
        eng._account = acc
        eng.known = []
        eng.search(a.digests, 3600)
        print('DIGESTS ' + json.dumps(sorted(agg)))
        return 0

    if a.explore:
        eng.explore = {}
        agg, best = eng.search(a.runs or prop.quick_runs, a.budget or 600)
        for k, v in sorted(eng.explore.items()):
            i, d = min(v, key=lambda x: (len(x[1]), x[0]))
            print(f'{len(v):4d} {k[0]} {k[1]} @{i}: {d[:300]}')
        print(agg['evaluations'], agg['skipped'], len(agg['nontrivial']), agg['probes'])
        return 1 if eng.explore else 0

    if a.selftest is not None:
        return selftest(a, pid, seed)

    runs = a.runs or (prop.quick_runs if a.tier == 'quick' else prop.thorough_runs)
    budget = a.budget or (float(os.environ.get('DST_BUDGET', 0)) or (prop_budget(prop, a.tier)))
    agg, best = eng.search(runs, budget)
    extra = dict(boot_s=round(boot_s, 1))
    # every listed finding is demonstrated again on this tree
    for k in eng.known:
        if k.get('status') == 'fixed':
            continue
        out = eng.exec_isolated(k['scenario'])
        v = out['violation']
        if v and v['cls'] == k['cls'] and v['where'] == k['where']:
            print(f'KNOWN-FINDING: property={pid} {k["what"]}', flush=True)
        elif v and best is None:
            best = (-1, out)
    # a sample of the runs is executed again: the log must be identical
    resample = 0
    mism = 0
    if best is None:
        for i in range(0, min(4, agg['evaluations'])):
            sc = eng.gen(i)
            d = {eng.exec_isolated(sc)['rec']['digest'] for _ in range(2)}
            resample += 1
            mism += len(d) != 1
        extra['determinism_resampled'] = resample
        extra['determinism_mismatches'] = mism
        if mism:
            raise core.HarnessError(f'{mism} of {resample} runs did not repeat exactly')
    if hasattr(prop, 'cross_process'):
        pass
    nvio = 0
    if best is not None:
        i, res = best
        print(f'violation in scenario {i}: {json.dumps(res["violation"])[:1500]}', flush=True)
        # the first failing run is kept even when minimisation cannot finish
        res, tried = eng.minimise(res, 40)
        path = core.save_replay(prop, res, seed)
        again = eng.exec_isolated(res['sc'])
        extra['minimise_attempts'] = tried
        extra['replay'] = path
        extra['replay_identical'] = again['rec']['digest'] == res['rec']['digest']
        print(f'minimised after {tried} attempts: {json.dumps(res["violation"])[:1500]}')
        print(json.dumps(res['sc'])[:2000])
        nvio = 1
    core.write_evidence(prop, a.tier, seed, agg, time.time() - t0, nvio, extra)
    print(
        f'{pid}: {agg["evaluations"]} runs ({agg["requested"]} requested, {agg["skipped"]} skipped), '
        f'{len(agg["nontrivial"])} distinct non-trivial, faults {sum(agg["faults"].values())}, boot {boot_s:.0f}s, '
        f'total {time.time() - t0:.0f}s',
        flush=True,
    )
    if nvio:
        print(f'VIOLATION property={pid} replay={extra["replay"]}', flush=True)
        return 1
    if not agg['nontrivial']:
        raise core.HarnessError('nothing was explored')
    return 0


def prop_budget(prop, tier):
    if tier == 'quick':
        return getattr(prop, 'quick_budget', 60)
    return getattr(prop, 'thorough_budget', 780)


def selftest(a, pid, seed):
    """Determinism: same scenarios in fresh interpreters, other worker counts, other hash seeds."""
    res = []
    for hs, w in (('0', '8'), ('0', '1'), ('12345', '3'), ('777', '8')):
        env = dict(os.environ, PYTHONHASHSEED=hs, DST_WORKERS=w, VERIF_SEED=str(seed))
        for k in ('NUMBA_DISABLE_JIT', 'NUMBA_CACHE_DIR', 'NUMBA_NUM_THREADS'):
            env.pop(k, None)
        p = subprocess.run(
            [sys.executable, os.path.join(HERE, 'main.py'), pid, '--digests', str(a.selftest), '--tier', a.tier],
            env=env, capture_output=True, text=True,
        )
        line = [x for x in p.stdout.splitlines() if x.startswith('DIGESTS ')]
        if not line:
            print(p.stdout[-2000:], p.stderr[-2000:])
            return 2
        res.append(json.loads(line[0][8:]))
    bad = 0
    for i, r in enumerate(res[1:], 1):
        for x, y in zip(res[0], r):
            if x != y:
                bad += 1
                print('DIVERGED', i, x, y)
    print(f'selftest {pid}: {len(res[0])} scenarios x {len(res)} interpreters, {bad} divergences, '
          f'{sum(x[2] for x in res[0])} violations')
    return 1 if bad else 0


if __name__ == '__main__':
    main()
