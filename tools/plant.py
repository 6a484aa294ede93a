#!/usr/bin/env python3
"""plant.py [ids...]: confirms planted bugs of /verif/seeded in scratch copies of /repo and runs their check on them.

--new SPEC.py   reads BUGS (list of dicts) from SPEC.py, writes patch.diff/demo.sh/meta.json to /verif/seeded first
--no-tests      skips the stable tests       --no-check  skips the check
--others        runs all other checks as well (reports which of them also notice the bug)
"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import time

V = os.environ.get('PLANT_V', '/verif')
REPO = os.environ.get('PLANT_REPO', '/repo')
PY = '/opt/venv/bin/python'


def sh(cmd, cwd=None, timeout=900, env=None):
    e = dict(os.environ, **(env or {}))
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout, executable='/bin/bash')
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as ex:
        return 124, str(ex.stdout)[-2000:]


def copy(i):
    d = f'/tmp/plant/{i}'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs('/tmp/plant', exist_ok=True)
    sh(f'cp -a {REPO} {d}')
    sh('git checkout -q -- . ', cwd=d)
    return d


def write(b):
    d = copy('w' + b['id'])
    for f, old, new in b['edits']:
        p = f'{d}/acoular/{f}'
        s = open(p).read()
        n = s.count(old)
        assert n == 1 or b.get('nth') is not None, (b['id'], f, n, old)
        if n == 1:
            s = s.replace(old, new)
        else:
            parts = s.split(old)
            k = b['nth']
            s = old.join(parts[: k + 1]) + new + old.join(parts[k + 1 :])
        open(p, 'w').write(s)
    _, diff = sh('git diff', cwd=d)
    out = f"{V}/seeded/{b['id']}"
    os.makedirs(out, exist_ok=True)
    open(out + '/patch.diff', 'w').write(diff)
    open(out + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
    open(out + '/demo.sh', 'w').write('#!/bin/bash\n# cwd: the repository; exit 0 if the property holds\n'
                                      'T=$(mktemp -d)\ntrap \'rm -rf "$T"\' EXIT\nH=$(cd "$(dirname "$0")" && pwd)\n'
                                      'R=$PWD\ncd "$T"\nPYTHONPATH="$R" timeout 250 /opt/venv/bin/python -B -W ignore "$H/demo.py"\n')
    os.chmod(out + '/demo.sh', 0o755)
    json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(out + '/meta.json', 'w'), indent=1)
    shutil.rmtree(d)


def run(i, opts):
    t0 = time.time()
    meta = json.load(open(f'{V}/seeded/{i}/meta.json'))
    d = copy(i)
    r = {}
    env = dict(NUMBA_CACHE_DIR=f'/tmp/plant/nb{i}', PYTHONDONTWRITEBYTECODE='1')
    r['demo_clean'] = sh(f'{V}/seeded/{i}/demo.sh', cwd=d, timeout=300, env=env)
    c, o = sh(f'git apply {V}/seeded/{i}/patch.diff', cwd=d)
    if c:
        return i, dict(apply=(c, o))
    shutil.rmtree(f'/tmp/plant/nb{i}', ignore_errors=True)
    r['demo_bug'] = sh(f'{V}/seeded/{i}/demo.sh', cwd=d, timeout=300, env=env)
    if 'check' in opts:
        for p in [meta['property']] + (opts['others'] if opts.get('others') else []):
            c, o = sh(f'./check.sh {p} quick', cwd=V, timeout=900,
                      env=dict(DST_REPO=d, DST_EVIDENCE='/tmp/plant/ev', VERIF_SEED='1'))
            r['check ' + p] = (c, o)
    if 'tests' in opts:
        t = open('/opt/vp/test.sh').read().replace('/repo', d).replace('. /opt/vp/env.sh', f'. /opt/vp/env.sh; export NUMBA_CACHE_DIR=/tmp/plant/nb{i}')
        open(f'/tmp/plant/{i}.sh', 'w').write(t)
        sh(f'bash /tmp/plant/{i}.sh /tmp/plant/{i}.json', timeout=900)
        b = json.load(open('/opt/vp/BASELINE.json'))
        b = b.get('passed') or b.get('stable') or b
        bp = {x if isinstance(x, str) else x['id'] for x in b}
        missing = sorted(bp - set(json.load(open(f'/tmp/plant/{i}.json'))['passed']))
        r['tests'] = (len(missing), '\n'.join(missing[:8]))
    shutil.rmtree(d, ignore_errors=True)
    shutil.rmtree(f'/tmp/plant/nb{i}', ignore_errors=True)
    r['t'] = (round(time.time() - t0), '')
    return i, r


def main():
    a = sys.argv[1:]
    opts = dict(tests=1, check=1)
    ids = []
    while a:
        x = a.pop(0)
        if x == '--new':
            ns = {}
            exec(open(a.pop(0)).read(), ns)
            for b in ns['BUGS']:
                write(b)
                ids.append(b['id'])
        elif x == '--no-tests':
            opts.pop('tests')
        elif x == '--no-check':
            opts.pop('check')
        elif x == '--others':
            m = json.load(open(V + '/MANIFEST.json'))
            opts['others'] = [c['property'] for c in m['checks']]
        else:
            ids.append(x)
    ids = ids or sorted(os.listdir(V + '/seeded'))
    with cf.ThreadPoolExecutor(int(os.environ.get('J', '3'))) as ex:
        for f in cf.as_completed([ex.submit(run, i, opts) for i in ids]):
            i, r = f.result()
            bad = []
            if r.get('demo_clean', (0,))[0] != 0:
                bad.append('DEMO FAILS ON CLEAN TREE\n' + r['demo_clean'][1][-600:])
            if r.get('demo_bug', (1,))[0] == 0:
                bad.append('DEMO PASSES WITH BUG')
            if r.get('tests', (0,))[0]:
                bad.append('TESTS FAIL: ' + r['tests'][1])
            if 'apply' in r:
                bad.append('DOES NOT APPLY ' + r['apply'][1])
            for k, (c, o) in r.items():
                if k.startswith('check'):
                    v = [ln for ln in o.splitlines() if ln.startswith('violation') or ln.startswith('VIOLATION')]
                    bad.append(f'{k}: exit {c} ' + (v[0][:260] if v else o[-200:]))
            print('==', i, r.get('t'), *bad, sep='\n   ', flush=True)


main()
