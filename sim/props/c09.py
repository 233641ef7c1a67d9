"""C09: posterior samples are valid for every random stream."""
import copy

import numpy as np
from scipy.stats import truncnorm

from .. import world as W

ID = 'C09'
LEVEL = 'exploration'
TIERS = {'quick': dict(runs=900, budget=240, redo=20), 'thorough': dict(runs=25000, budget=1500, redo=100)}
RULE = ('a run performs analysis steps on a simulated system under simulated random streams (a given random_state, or the '
        'process-wide generator in an arbitrary state) and compares the samples with an independent evaluation of the '
        'truncated-normal posterior; distinct = (kind, motion, sampler settings, seeding, regime) combinations')
ASSUMPTIONS = ['agreement of mean and spread is judged only where the chain is long enough (burn-in of at least the default 500 steps, '
               'at least 12000 draws) and the reported covariance is numerically invertible (condition number below 1e10)',
               'tolerances: several times the sampling error of such chains, see DESIGN.md']
REAL = ['kinisi', 'emcee, scipy, uravu, statsmodels']
STUBS = ['entropy and random streams', 'progress display']

N_A, E_C, R_GAS = 6.02214076e23, 1.602176634e-19, 8.31446261815324


def gen(rng, tier, idx):
    raw = rng.random() < 0.7
    stat = rng.random() < 0.55
    sc = dict(raw=raw, stat=stat)
    if raw:
        sc.update(seed=rng.randrange(10**9), atoms=rng.choice((1, 2, 5, 12)), T=rng.choice((16, 24, 40)),
                  motion=rng.choice(('walk', 'walk', 'walk', 'slow', 'vib', 'back')), dims=rng.choice(('xyz', 'x', 'y', 'z', 'xy', 'xz', 'yz')),
                  sub_dt=rng.choice((1, 1, 1, 2)), kind=rng.choice(('diff', 'jump', 'cond')), scale=rng.choice((0.05, 0.3, 2.0)),
                  dt=rng.choice((0.1, 1.0, 20.0)), boot_kind=rng.choice(('diff', 'jump', 'cond')))
        if sc['boot_kind'] != 'diff' and sc['sub_dt'] > 1:
            sc['T'] = 40
    else:
        sc['spec'] = W.gen_simple(rng, tmin=14, tmax=30)
        sc['kind'] = sc['spec']['opts']['kind']
    steps = []
    for _ in range(rng.choice((1, 1, 2))):
        s = W.gen_step(rng, light=False)
        if stat:
            s.update(n_walkers=rng.choice((24, 32)), n_samples=rng.choice((600, 800)), n_burn=rng.choice((500, 600)),
                     thin=rng.choice((1, 1, 2, 5)))
        s['temperature'] = rng.choice((300, 500, 912.5))
        s['volume'] = rng.choice((100.0, 1000.0, 54321.0))
        s['exact'] = rng.choice(('on', 'on', 'between', 'zero'))
        s['seeding'] = rng.choice(('state', 'state', 'global', 'entropy'))
        steps.append(s)
    sc['steps'] = steps
    sc['ppd'] = rng.choice(('small', 'stat', 'default', None))
    sc['progress'] = rng.random() < 0.15
    return sc


def build(sc):
    if not sc['raw']:
        an = W.simple(sc['spec'])
        return an, an._diff
    import kinisi.diffusion as kd
    r = np.random.RandomState([sc['seed'], 91])
    T, n = sc['T'], sc['atoms']
    steps = sc['scale'] * r.randn(n, T, 3)
    if sc['motion'] == 'walk':
        p = np.cumsum(steps, axis=1)
    elif sc['motion'] == 'slow':
        p = steps + 0.01 * np.cumsum(r.randn(n, T, 3) * sc['scale'], axis=1)
    elif sc['motion'] == 'vib':
        p = steps
    else:  # drawn back: displacements shrink with time
        t = np.arange(T)[None, :, None]
        p = steps * 0.1 + sc['scale'] * np.sin(np.pi * t / (T - 1)) * np.sign(r.randn(n, 1, 3))
    p = np.concatenate([np.zeros((n, 1, 3)), p], axis=1)
    ks = np.arange(1, T - 2)
    disp = [p[:, k:] - p[:, :-k] for k in ks]
    n_o = n * T / ks
    K = {'diff': kd.MSDBootstrap, 'jump': kd.MSTDBootstrap, 'cond': kd.MSCDBootstrap}[sc['boot_kind']]
    args = (ks * sc['dt'], disp) + ((np.array([(-1.0)**i * (1 + i % 2) for i in range(n)]), ) if sc['boot_kind'] == 'cond' else ())
    b = K(*args, n_o, sub_sample_dt=sc['sub_dt'], dimension=sc['dims'], progress=False)
    return b, b


def step(run, sc, an, s):
    dt = np.asarray(an.dt)
    i = min(int(s['start'] * len(dt)), max(len(dt) - 4, 0))
    st = float(dt[i])
    if s['exact'] == 'between' and i > 0:
        near = 0.4 if s['seed'] % 2 else 0.75
        st = float(dt[i] * (1 - near) + dt[i - 1] * near)
    elif s['exact'] == 'zero':
        st, i = 0.0, 0
    want = dt[dt >= st]
    p = W.step_params(s, s['seeding'] == 'state', sc['progress'])
    if s['seeding'] == 'global':
        np.random.seed(s['seed'] % 2**32)
    kind = sc['kind']
    if sc['raw']:
        if kind == 'diff':
            an.diffusion(st, **p)
        elif kind == 'jump':
            an.jump_diffusion(st, **p)
        else:
            an.conductivity(st, s['temperature'], s['volume'], **p)
        vol = s['volume']
    else:
        W.do_step(an, kind, s, start=st, params=p)
        vol = an.volume
    return st, want, vol


DEFAULTS = dict(n_walkers=32, n_samples=1000, n_burn=500, thin=10)


def close(a, b, rel=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=rel, atol=1e-12 * max(np.max(np.abs(b), initial=0), 1e-300))


def run(sc, run):
    an, b = run.call('building the analysis', build, sc)
    names = {'diff': 'D', 'jump': 'D_J', 'cond': 'sigma'}
    for k, s in enumerate(sc['steps']):
        label = f"{sc['kind']} step {k} ({'raw ' + sc['boot_kind'] + ' ' + sc['motion'] if sc['raw'] else 'analyzer'})"
        st, regime, vol = run.call(label, step, run, sc, an, s)
        nd = 1 if s.get('fit_intercept') is False else 2
        s = dict(DEFAULTS, **s)
        size = s['n_walkers'] * (s['n_samples'] // s['thin'])
        g = np.array(b.gradient.samples)
        chain = np.array(b.flatchain)
        coef = np.array(getattr(an, names[sc['kind']]).samples)
        run.log('step', k, W.dig(W.C(chain)))
        run.expect(g.size == size, 'wrong-size', f"{label}: {g.size} gradients retained, expected {s['n_walkers']} walkers x "
                   f"{s['n_samples']}//{s['thin']} = {size}")
        run.expect(chain.shape == (size, nd), 'wrong-size', f'{label}: chain has shape {chain.shape}, expected {(size, nd)}')
        run.expect(coef.size == size, 'wrong-size', f'{label}: {coef.size} coefficients for {size} retained samples')
        run.expect(bool(np.all(np.isfinite(chain))), 'not-finite', f'{label}: samples not finite')
        run.expect(bool(np.all(g >= 0)), 'negative-gradient', lambda: f'{label}: negative gradient {g.min()} among the samples')
        run.expect(np.array_equal(chain[:, 0], g), 'pairing', f'{label}: gradients and chain disagree')
        if nd == 2:
            run.expect(b.intercept is not None and np.array_equal(chain[:, 1], b.intercept.samples), 'pairing',
                       f'{label}: intercepts and chain disagree')
        else:
            run.expect(b.intercept is None, 'intercept', f'{label}: an intercept is reported though none was fitted')
        dims = len(sc['dims']) if sc['raw'] else len(sc['spec']['opts']['dims'])
        n_at = sc['atoms'] if sc['raw'] else sc['spec']['world']['nm'] * (2 if sc['spec'].get('dtype') == 'identical' else 1)
        want = g / (2e4 * dims)
        if sc['kind'] == 'jump':
            want = want / n_at
        elif sc['kind'] == 'cond':
            want = want * 1000 / (vol * 1e-24 * N_A) * (N_A * E_C)**2 / (R_GAS * s['temperature'])
        run.expect(close(coef, want), 'units', lambda: f'{label}: coefficient {coef[:2]} is not the gradient in its units {want[:2]}')
        if not sc['raw']:
            fc = np.array(an.flatchain)
            w = coef[:, None] if nd == 1 else np.stack([coef, chain[:, 1]], axis=1)
            run.expect(np.array_equal(fc, w), 'pairing', f'{label}: the flatchain of the analyzer does not pair the samples')
            line = np.asarray(an.dt)[:, None] * g + (chain[:, 1] if nd == 2 else 0)
            run.expect(close(an.distribution, line), 'pairing', f'{label}: distribution is not the line of each sample')
        cov = np.array(b.covariance_matrix)
        run.expect(cov.shape == (regime.size, regime.size), 'regime',
                   f'{label}: covariance {cov.shape} for {regime.size} intervals at or after {st}')
        y = np.asarray(b.n)[np.asarray(b.dt) >= st]
        ev, U = np.linalg.eigh(0.5 * (cov + cov.T))
        good = ev[0] > 0 and ev[-1] / ev[0] < 1e10
        covariance(run, label, s, b, st, cov)
        moved = None
        if good and sc['stat'] and regime.size >= nd:
            moved = posterior(run, label, s, nd, regime, y, ev, U, chain)
        run.sig(sc['kind'], sc.get('motion', 'analyzer'), nd, s['seeding'], s['exact'], bool(s.get('model')), 'stat' if moved else 'shape',
                moved or '', s['thin'], sc['ppd'])
    if sc['ppd']:
        predict(run, sc, an, b, s, nd, regime, chain, cov, ev, U, good)


def covariance(run, label, s, b, st, cov):
    """Where the estimate is already positive definite and well-conditioned it is used as it is."""
    keep = np.asarray(b.dt) >= st
    v, n = np.asarray(b.v)[keep], np.asarray(b.to_dict()['n_o'], float)[keep]
    tol = 1e-6
    if s.get('model'):  # modelled variance: a dt^2 / n; how exactly a is fitted is not judged
        x = np.asarray(b.dt)[keep]**2 / n
        v, tol = cov[0, 0] / x[0] * x, 1e-5
    i, j = np.meshgrid(np.arange(v.size), np.arange(v.size), indexing='ij')
    lo, hi = np.minimum(i, j), np.maximum(i, j)
    raw = v[lo] * n[lo] / n[hi]
    ev = np.linalg.eigvalsh(raw)
    d = np.sqrt(np.diag(raw))
    if not (d.min() > 0 and ev[0] * min(s.get('cond_max', 1e16), 1e8) > 2 * ev[-1]
            and np.linalg.eigvalsh(raw / np.outer(d, d))[0] > 1e-8):
        return
    run.count('covariances compared')
    run.expect(bool(np.all(np.abs(cov - raw) < tol * np.outer(d, d))), 'covariance', lambda: f'{label}: the covariance matrix is not that of the '
               f'intervals at or after {st}: diagonal {np.diag(cov)[:3]} for variances {v[:3]}')


def posterior(run, label, s, nd, t, y, ev, U, chain):
    """Mean and spread of the samples against the truncated normal distribution."""
    X = np.stack([t, np.ones_like(t)], axis=1)[:, :nd]
    A = (U.T @ X) / np.sqrt(ev)[:, None]
    r = (U.T @ y) / np.sqrt(ev)
    sc_ = np.linalg.norm(A, axis=0)
    A = A / sc_
    if np.linalg.cond(A) > 1e6:
        return None
    S = np.linalg.inv(A.T @ A)
    th = (S @ (A.T @ r)) / sc_
    S = S / np.outer(sc_, sc_)
    sg = np.sqrt(S[0, 0])
    a = -th[0] / sg
    if a > 4:
        return None  # far in the excluded half: a boundary layer too thin for the tolerances
    mg, vg = truncnorm.stats(a, np.inf, loc=th[0], scale=sg, moments='mv')
    want = [(float(mg), float(np.sqrt(vg)))]
    if nd == 2:
        c = S[0, 1] / S[0, 0]
        want.append((th[1] + c * (mg - th[0]), float(np.sqrt(max(S[1, 1] - c * S[0, 1], 0) + c * c * vg))))
    for i, (m, sd) in enumerate(want):
        got = chain[:, i]
        z, f = (got.mean() - m) / sd, got.std() / sd
        run.count('posterior moments compared')
        what = ('gradient', 'intercept')[i]
        run.expect(abs(z) < ZTOL, 'posterior-mean', f'{label}: mean {what} {got.mean()} is {z:.2f} posterior standard deviations from {m}')
        run.expect(FTOL[0] < f < FTOL[1], 'posterior-spread', f'{label}: spread of the {what} {got.std()} is {f:.2f} times the expected {sd}')
    return 'interior' if a < -3 else 'truncated'


ZTOL = 0.35
FTOL = (0.75, 1.3)


def predict(run, sc, an, b, s, nd, t, chain, cov, ev, U, good):
    kw = dict(progress=sc['progress'])
    if sc['ppd'] == 'stat':
        kw.update(n_posterior_samples=250, n_predictive_samples=24)
    elif sc['ppd'] == 'small':
        kw.update(n_posterior_samples=3, n_predictive_samples=2)
    else:
        kw.update(n_predictive_samples=2)
        if chain.shape[0] > 2000:
            kw.update(n_posterior_samples=7)
    P = run.call('posterior_predictive', an.posterior_predictive, **kw) if sc['raw'] else \
        run.call('posterior_predictive', an.posterior_predictive, kw)
    P = np.asarray(P)
    m, q = kw.get('n_posterior_samples', chain.shape[0]), kw['n_predictive_samples']
    run.expect(P.shape == (m * q, t.size), 'ppd-shape', f'prediction of shape {P.shape}, expected {(m * q, t.size)}')
    run.log('ppd', W.dig(W.C(P)))
    if sc['ppd'] != 'stat' or not good or t.size > 40 or chain.shape[0] < 20:
        return
    B = P.reshape(m, q, t.size)
    means = B.mean(axis=1)
    Wt = ((B - means[:, None]) @ U / np.sqrt(ev)).reshape(-1, t.size)
    C = Wt.T @ Wt / (m * (q - 1))
    e = np.linalg.eigvalsh(C)
    run.count('predictions compared')
    run.expect(0.6 < e[0] and e[-1] < 1.6, 'ppd-noise', lambda: f'predictions scatter about their line with {e[0]:.2f} to {e[-1]:.2f} '
               'times the reported covariance')
    # line of each block, by generalised least squares
    X = np.stack([t, np.ones_like(t)], axis=1)[:, :nd]
    A = (U.T @ X) / np.sqrt(ev)[:, None]
    sc_ = np.linalg.norm(A, axis=0)
    if np.linalg.cond(A / sc_) > 1e6:
        return
    S = np.linalg.inv((A / sc_).T @ (A / sc_)) / np.outer(sc_, sc_)
    th = (S @ A.T @ (means @ U / np.sqrt(ev)).T).T
    resid = (means - th @ X.T) @ U / np.sqrt(ev) * np.sqrt(q)
    if t.size > nd:
        chi = (resid**2).sum() / (m * (t.size - nd))
        run.expect(0.6 < chi < 1.6, 'ppd-line', f'blocks of predictions are off any straight line ({chi:.2f} times the expected scatter)')
    # each block is about the line of one retained sample
    Ls = np.linalg.cholesky(S / q)
    zb, zc = np.linalg.solve(Ls, th.T).T, np.linalg.solve(Ls, chain.T).T
    worst = max(float(((zc - x)**2).sum(axis=1).min()) for x in zb)
    run.expect(worst < 50, 'ppd-samples', f'a block of predictions belongs to none of the retained samples (nearest at {worst**0.5:.1f} standard errors)')
    if not sc['stat']:
        return
    mu, Cc = chain.mean(axis=0), np.atleast_2d(np.cov(chain.T))
    want = Cc + S / q
    L = np.linalg.cholesky(want)
    z = np.linalg.solve(L, (th - mu).T)
    run.expect(np.linalg.norm(z.mean(axis=1)) * np.sqrt(m) < 6.5, 'ppd-samples', lambda: 'predicted lines are centred off the retained samples by '
               f'{np.linalg.norm(z.mean(axis=1)) * np.sqrt(m):.1f} standard errors')
    e = np.linalg.eigvalsh(np.atleast_2d(np.cov(z)))
    run.expect(0.45 < e[0] and e[-1] < 1.9, 'ppd-samples', lambda: f'predicted lines spread {e[0]:.2f} to {e[-1]:.2f} times as the retained samples')


def shrink(sc):
    if len(sc['steps']) > 1:
        for i in range(len(sc['steps'])):
            c = copy.deepcopy(sc)
            del c['steps'][i]
            yield c
    if sc['ppd']:
        yield dict(copy.deepcopy(sc), ppd=None)
    for k in ('model', 'cond_max'):
        for i, s in enumerate(sc['steps']):
            if k in s:
                c = copy.deepcopy(sc)
                c['steps'][i].pop(k)
                yield c
    for i, s in enumerate(sc['steps']):
        if s.get('thin', 1) != 1:
            c = copy.deepcopy(sc)
            c['steps'][i]['thin'] = 1
            yield c
    if sc['raw'] and sc['sub_dt'] > 1:
        yield dict(copy.deepcopy(sc), sub_dt=1)
