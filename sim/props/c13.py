"""C13: after every fit the covariance matrix is that of the variances, symmetric, and conditioned as requested."""
import copy

import numpy as np

from .. import world as W
from ..core import in_fork
from . import c05

ID = 'C13'
LEVEL = 'exploration'
TIERS = {'quick': dict(runs=2500, budget=240, redo=20), 'thorough': dict(runs=40000, budget=1500, redo=100)}
RULE = ('a run takes one set of displacements (from a simulated trajectory, or drawn with tails of any weight) through a history of fits with different '
        'starts, condition limits and covariance models, refused and interrupted calls, saves and reloads, and judges the covariance matrix after each; '
        'distinct = (source, number of intervals, history) combinations')
ASSUMPTIONS = ['no interval has zero variance', 'the condition number is judged up to 1e12, beyond what double precision can tell only positive semi-definiteness',
               'a matrix that cannot be conditioned as requested without changing it is changed by no more than that takes']
REAL = ['kinisi', 'emcee, scipy, statsmodels, h5py']
STUBS = ['random streams', 'interrupts', 'progress display']


def gen_step(rng):
    s = W.gen_step(rng)
    s.update(n_walkers=6, n_samples=4, n_burn=0, thin=1, seeded=True)
    s.pop('volume', None)
    if rng.random() < 0.8:
        s['cond_max'] = rng.choice((3.0, 10.0, 100, 1e3, 1e4, 1e6, 1e8, 1e10, 1e12, 1e16))
    if rng.random() < 0.6:
        s.pop('model', None)
    return s


def gen(rng, tier, idx):
    if rng.random() < 0.4:
        src = dict(spec=W.gen_simple(rng))
        kind = src['spec']['opts']['kind']
    else:
        kind = rng.choice(('diff', 'diff', 'jump', 'cond'))
        n = rng.randrange(3, 40) * (2 if kind != 'diff' else 1)
        src = dict(direct=dict(kind=kind, n=n, atoms=rng.choice((1, 2, 5, 9)), obs=rng.choice((3, 6, 15, 40)), tail=rng.choice((None, 1.5, 3, 6)),
                               growth=rng.choice((0.3, 1.0, 1.0, 2.0)), seed=rng.randrange(10**8), counts=rng.choice(('time', 'time', 'any')),
                               boot=rng.random() < 0.1))
    ops = []
    for _ in range(rng.choice((1, 2, 3, 4))):
        r = rng.random()
        if r < 0.72 or not ops:
            s = gen_step(rng)
            done = [o for o in ops if o[0] == 'step']
            if done and rng.random() < 0.4:
                s = dict(done[-1][1], cond_max=rng.choice((5.0, 1e2, 1e5, 1e16)))
            ops.append(['step', s])
        elif r < 0.82:
            ops.append(['bad', gen_step(rng), rng.choice(('start_beyond', 'start_none', 'walkers', 'rs', 'unknown', 'huge_w'))])
        elif r < 0.92:
            ops.append(['interrupt', gen_step(rng), rng.random(), rng.choice(('kbd', 'mem', 'rt'))])
        else:
            ops.append(['reload'])
    return dict(src=src, kind=kind, ops=ops)


def make(sc):
    """-> something with a fit, the bootstrap object in it, and the ratio of the numbers of observations"""
    if 'spec' in sc['src']:
        an = W.simple(sc['src']['spec'])
        return an, 1 / np.asarray(an.dt)
    import kinisi.diffusion as kd
    d = sc['src']['direct']
    rs = np.random.RandomState(d['seed'])
    t = np.arange(1, d['n'] + 1)
    disp = []
    for i in t:
        x = rs.randn(d['atoms'], max(2, d['obs'] - i // 3), 3) if d['tail'] is None else rs.standard_t(d['tail'], size=(d['atoms'], max(2, d['obs'] - i // 3), 3))
        disp.append(x * i**(0.5 * d['growth']))
    n_o = d['atoms'] * d['n'] / t if d['counts'] == 'time' else np.sort(rs.uniform(1, 30, size=d['n']))[::-1] * d['atoms']
    kw = dict(progress=False)
    if d['boot']:
        kw.update(bootstrap=True, n_resamples=20, max_resamples=20, random_state=np.random.RandomState(d['seed']))
    if d['kind'] == 'diff':
        b = kd.MSDBootstrap(t * 1.0, disp, n_o, **kw)
    elif d['kind'] == 'jump':
        b = kd.MSTDBootstrap(t * 1.0, disp, n_o, **kw)
    else:
        b = kd.MSCDBootstrap(t * 1.0, disp, [(-1.0)**i * (1 + i % 2) for i in range(d['atoms'])], n_o, **kw)
    return b, n_o[:len(b.dt)]


def step(b, sc, s, bad=None):
    np.random.seed(s['seed'] % 2**32)
    c05.go(b, dict(seeded=True, bare='spec' not in sc['src'], kind=sc['kind']), sc['kind'], s, bad, False)


def judge(run, C, v, n_o, cond, model, t, what):
    m = len(v)
    C = np.asarray(C)
    run.expect(C.shape == (m, m), 'size', f'{what}: the covariance matrix is {C.shape}, for {m} intervals')
    run.expect(C.dtype.kind == 'f' and np.all(np.isfinite(C)), 'finite', f'{what}: the covariance matrix is not real and finite')
    size = np.abs(C).max()
    run.expect(np.abs(C - C.T).max() <= 1e-12 * size, 'symmetric', f'{what}: the covariance matrix is not symmetric')
    w = np.linalg.eigvalsh((C + C.T) / 2)
    run.expect(w[0] >= -1e-10 * w[-1], 'definite', f'{what}: the covariance matrix has a negative eigenvalue ({w[0]:.3g}, largest {w[-1]:.3g})')
    if cond <= 1e12:
        run.expect(w[0] >= w[-1] / cond * (1 - 1e-4) - 1e-14 * w[-1], 'condition',
                   lambda: f'{what}: condition number {w[-1] / w[0]:.4g}, requested at most {cond:g}')
    tol = 1e-6
    if model:
        x = t**2 / n_o
        v = (v @ x) / (x @ x) * x
        tol = 2e-3
    i, j = np.indices((m, m))
    lo, hi = np.minimum(i, j), np.maximum(i, j)
    B = v[lo] * n_o[lo] / n_o[hi]
    e = np.linalg.eigvalsh(B)
    change = max(0.0, e[-1] / cond - e[0]) * 1.02 + tol * e[-1]
    off = np.linalg.norm(C - B, 2)
    run.expect(off <= change, 'values', lambda: f'{what}: the covariance matrix is {off:.4g} from that of the variances and numbers of observations, '
               f'conditioning it takes at most {change:.4g} (largest eigenvalue {e[-1]:.4g})')
    run.count('probe:matrix conditioned' if e[0] < e[-1] / cond else 'probe:matrix used as it is')
    if e[0] < 0:
        run.count('fault:variances no covariance matrix can have')


def run(sc, run):
    b, n_o = run.call('building the analysis', make, sc)
    names = {'diff': ('msd', 'msd_std'), 'jump': ('mstd', 'mstd_std'), 'cond': ('mscd', 'mscd_std')}[sc['kind']]
    hist = []
    for i, op in enumerate(sc['ops']):
        inner = getattr(b, '_diff', b)
        bare = inner is b
        t = np.asarray(b.dt)
        v = (np.asarray(inner.s) if bare else np.asarray(getattr(b, names[1])))**2
        if len(t) < 3 or not np.all(v > 0) or np.any(np.diff(t) <= 0):
            return
        ok = False
        if op[0] == 'step':
            try:
                step(b, sc, op[1])
            except Exception as e:  # noqa
                run.fail('unexpected-error', f"a fit after {'+'.join(hist) or 'nothing'} raised {type(e).__name__}: {str(e)[:200]}")
            ok = True
        elif op[0] == 'bad':
            try:
                step(b, sc, op[1], op[2])
                return
            except Exception:  # noqa
                run.count('fault:rejected ' + op[2])
        elif op[0] == 'interrupt':
            st, r = in_fork(c05.dry, dict(sc, seeded=True, bare=bare, progress=False, step=[sc['kind'], op[1]], what='step', f=dict(kind='line', u1=op[2], u2=0.3)), b)
            if st != 'ok':
                run.fail('unexpected-error', f'a fit ended with {st} {r!r}'[:300])
            rec = c05.LineRecorder([c05.KIN], r[2], c05.EXC[op[3]]())
            try:
                with rec:
                    step(b, sc, op[1])
                ok = True
            except BaseException as e:  # noqa
                if not rec.fired:
                    run.fail('unexpected-error', f'a fit raised {type(e).__name__} without a fault')
                run.count('fault:interrupted fit')
        elif not bare:
            b.save(f'f{i}')
            b = type(b).load(f'f{i}')
        else:
            import kinisi.diffusion as kd
            b = kd.Bootstrap.from_dict(b.to_dict())
        hist.append(op[0])
        inner = getattr(b, '_diff', b)
        if ok:
            last = op[1]
            k = np.argwhere(t >= W.start_of(b, last))[0][0]
            cond = float(last.get('cond_max', 1e16))
            what = f"{'+'.join(hist)}: fit from interval {k} of {len(t)}, cond_max {cond:g}{', modelled' if last.get('model') else ''}"
            judge(run, inner.covariance_matrix, v[k:], n_o[k:len(t)], cond, last.get('model'), t[k:], what)
            judged = np.array(inner.covariance_matrix)
        elif 'step' in hist and op[0] != 'interrupt':
            run.expect(np.array_equal(judged, inner.covariance_matrix), 'changed', f"{'+'.join(hist)}: the covariance matrix changed without a fit")
        run.log(i, hist[-1], W.dig(W.C(np.asarray(inner.covariance_matrix))) if inner.covariance_matrix is not None else None)
    run.sig('spec' in sc['src'], sc['kind'], len(v), '+'.join(hist), ','.join(f"{o[1].get('cond_max')}{o[1].get('model')}" for o in sc['ops'] if o[0] == 'step'))


def shrink(sc):
    for i in range(len(sc['ops'])):
        if len(sc['ops']) > 1:
            c = copy.deepcopy(sc)
            del c['ops'][i]
            yield c
    if 'direct' in sc['src']:
        for k, v in (('boot', False), ('tail', None), ('growth', 1.0), ('atoms', 1), ('counts', 'time')):
            if sc['src']['direct'][k] != v:
                c = copy.deepcopy(sc)
                c['src']['direct'][k] = v
                yield c
        if sc['src']['direct']['n'] > 6:
            c = copy.deepcopy(sc)
            c['src']['direct']['n'] //= 2
            yield c
    for i, o in enumerate(sc['ops']):
        if o[0] == 'step' and o[1].get('model'):
            c = copy.deepcopy(sc)
            c['ops'][i][1].pop('model')
            yield c
