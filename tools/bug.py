#!/usr/bin/env python3
"""Confirm a planted bug and run the checks against it, in a scratch copy of /repo.

bug.py ID [--no-tests] [--checks P1,P2|own|all|none] [--tier quick]
"""
import argparse, json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument('id')
ap.add_argument('--no-tests', action='store_true')
ap.add_argument('--checks', default='own')
ap.add_argument('--seed', default='1')
a = ap.parse_args()
d = os.path.join(V, 'seeded', a.id)
meta = json.load(open(d + '/meta.json'))
w = f'/tmp/bug-{a.id}'
shutil.rmtree(w, ignore_errors=True)
subprocess.run(['cp', '-a', '/repo', w], check=True)
res = dict(id=a.id, property=meta['property'])
env = dict(os.environ, MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1',
           PYTHONHASHSEED='0')
try:
    demo = os.path.join(w + '-demo')
    shutil.rmtree(demo, ignore_errors=True)
    shutil.copytree(d, demo)
    r0 = subprocess.run(['bash', demo + '/demo.sh'], cwd=w, env=env, capture_output=True, text=True, timeout=400)
    subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=w, check=True)
    t = time.time()
    r1 = subprocess.run(['bash', demo + '/demo.sh'], cwd=w, env=env, capture_output=True, text=True, timeout=400)
    res.update(demo_clean=r0.returncode, demo_bug=r1.returncode, demo_s=round(time.time() - t, 1))
    if r0.returncode != 0:
        print(r0.stdout[-1500:], r0.stderr[-1500:])
    print('demo with bug:', (r1.stdout + r1.stderr)[-300:].strip().replace('\n', ' | '))
    if not a.no_tests:
        env2 = dict(env, PYTHONPATH=w)
        p = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-p', 'no:xdist',
                            '--timeout=300', '--continue-on-collection-errors', '-o', 'junit_family=xunit2', f'--junitxml={w}-j.xml', 'kinisi/tests'],
                           cwd=w, env=env2, capture_output=True, text=True)
        subprocess.run(['/usr/bin/python3', '/opt/vp/results.py', f'{w}-o.json', f'junit:{w}-j.xml'],
                       capture_output=True)
        o = json.load(open(f'{w}-o.json'))
        stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        passed = set(o.get('passed', []))
        lost = sorted(stable - passed); res['tests_lost'] = [len(lost)] + lost[:4]
        for f in (f'{w}-j.xml', f'{w}-o.json'):
            if os.path.exists(f):
                os.remove(f)
    ids = [c['property_id'] if 'property_id' in c else c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']] \
        if a.checks == 'all' else [meta['property']] if a.checks == 'own' else [] if a.checks == 'none' else a.checks.split(',')
    for p in ids:
        t = time.time()
        e = dict(os.environ, KINISI_SIM_REPO=w, VERIF_SEED=a.seed, VERIF_TIER='quick')
        r = subprocess.run([V + '/check.py', p], env=e, cwd=V, capture_output=True, text=True)
        line = [x for x in r.stdout.splitlines() if x.startswith('VIOLATION')]
        res[p] = dict(rc=r.returncode, s=round(time.time() - t), line=line[:1])
        if a.checks != 'all' or r.returncode:
            print(r.stdout[-1200:], r.stderr[-600:])
finally:
    shutil.rmtree(w, ignore_errors=True)
    shutil.rmtree(w + '-demo', ignore_errors=True)
print(json.dumps(res))
