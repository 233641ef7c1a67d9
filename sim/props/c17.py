"""C17: temperature-dependence fits hold valid, consistent samples for every random stream and history of fits."""
import copy
import math

import numpy as np

from .. import world as W

ID = 'C17'
LEVEL = 'exploration'
TIERS = {'quick': dict(runs=900, budget=240, redo=20), 'thorough': dict(runs=25000, budget=1500, redo=100)}
RULE = ('a run builds an Arrhenius or super-Arrhenius fit under a simulated random stream and takes it through a sequence of fits '
        '(maximum likelihood, Markov chain, nested sampling, samples set by the caller), reads and refused calls, and after each '
        'compares every view with the equations evaluated for the samples, the samples with the bounds and, for long chains, '
        'their moments with a quadrature of the posterior; distinct = (class, data, bounds, order of temperatures, fits so far)')
ASSUMPTIONS = ['agreement of mean and spread is judged for two-parameter fits only, with a burn-in of at least 400 steps',
               'bounds are judged where the chain starts within them']
REAL = ['kinisi.arrhenius', 'uravu, emcee, dynesty, scipy']
STUBS = ['random streams and entropy', 'progress display']
K_B = 8.31446261815324 / 6.02214076e23 / 1.602176634e-19  # eV/K


def gen(rng, tier, idx):
    cls = rng.choice(('std', 'super'))
    stat = cls == 'std' and rng.random() < 0.12
    sc = dict(cls=cls, n=rng.choice((3, 4, 5, 7)), t0=rng.choice((250.0, 300.0, 451.5)), dt=rng.choice((20.0, 50.0, 130.0)),
              order=rng.choice(('up', 'up', 'up', 'down', 'mixed')), ea=rng.choice((0.05, 0.12, 0.3)), pre=rng.choice((1.0, 3e-3, 50.0)),
              data=rng.choice(('dist', 'dist', 'array', 'norm')), size=rng.choice((40, 150)), err=rng.choice((0.03, 0.1)), seed=rng.randrange(2**31),
              bounds=rng.choice(('default', 'list', 'list', 'tuple', 'open', 'arrays')), type='float' if rng.random() < 0.8 else 'int')
    if stat:
        sc.update(bounds='list', data='dist', size=60, n=4, order='up')
        sc['ops'] = ['ml', 'stat'] + (['mcmc'] if rng.random() < 0.3 else [])
    else:
        ops = []
        for _ in range(rng.choice((1, 2, 3, 4, 5))):
            ops.append(rng.choice(('ml', 'mcmc', 'mcmc', 'set', 'de', 'refused', 'read', 'reseed') + (('nested', ) if rng.random() < 0.15 else ())))
        sc['ops'] = ops
    sc['opseeds'] = [rng.randrange(2**31) for _ in sc['ops']]
    sc['progress'] = rng.random() < 0.15
    sc['walkers'] = rng.choice((8, 10, 14))
    sc['samples'] = rng.choice((3, 7, 12))
    sc['burn'] = rng.choice((0, 2, 6))
    sc['at'] = rng.choice((273.15, 333, 700.0, 1200.0))
    return sc


def equation(cls, T, ea, pre, t0=None):
    if cls == 'std':
        return pre * np.exp(-ea / (K_B * T))
    return pre * np.exp(-ea / (K_B * (T - t0)))


def make(sc):
    import kinisi.arrhenius as ka
    from scipy.stats import norm
    from uravu.distribution import Distribution
    T = sc['t0'] + sc['dt'] * np.arange(sc['n'])
    if sc['order'] == 'down':
        T = T[::-1].copy()
    elif sc['order'] == 'mixed':
        T = np.roll(T, 1)
    if sc['type'] == 'int':
        T = T.astype(int)
    r = np.random.RandomState([sc['seed'] % 2**31, 17])
    # the temperature a super-Arrhenius fit may approach: with other orders than rising the caller limits it
    low = float(T.min())
    D = equation(sc['cls'], T.astype(float), sc['ea'], sc['pre'], 0.2 * low)
    err = sc['err'] * D
    kw = {}
    np.random.seed(sc['seed'] % 2**32)
    if sc['data'] == 'dist':
        y = [Distribution(d + e * r.randn(sc['size'])) for d, e in zip(D, err)]
    elif sc['data'] == 'norm':
        y = [norm(d, e) for d, e in zip(D, err)]
    else:
        y, kw = D, dict(diffusion_error=err)
    own = [(0, 2.0), (0, 40 * sc['pre']), (0, 0.9 * low)]
    b = sc['bounds']
    if b == 'default' and (sc['cls'] == 'std' or sc['order'] == 'up'):
        want = [(0, 1), (0, 1e20), (0, T[0])]
    elif b == 'open' and sc['cls'] == 'super' and sc['order'] == 'up':
        want = own[:2] + [(0, T[0])]
        kw['bounds'] = tuple(own[:2] + [(0, None)])
    else:
        want = own
        kw['bounds'] = own if sc['cls'] == 'super' else own[:2]
        if b == 'tuple':
            kw['bounds'] = tuple(kw['bounds'])
    np_ = 3 if sc['cls'] == 'super' else 2
    K = ka.SuperArrhenius if sc['cls'] == 'super' else ka.StandardArrhenius
    return K(T, y, **kw), T, D, want[:np_]


def views(run, sc, rel, T, label):
    with np.errstate(all='ignore'):
        return _views(run, sc, rel, T, label)


def same_numbers(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-7, atol=0, equal_nan=True)


def _views(run, sc, rel, T, label):
    v = [np.array(x.samples) for x in rel.variables]
    names = ['activation_energy', 'preexponential_factor'] + (['T0'] if sc['cls'] == 'super' else [])
    run.expect(len(v) == len(names), 'parameters', f'{label}: {len(v)} parameters for {names}')
    fc = np.array(rel.flatchain)
    run.expect(fc.shape == (v[0].size, len(v)), 'pairing', f'{label}: flatchain of shape {fc.shape} for {v[0].size} samples')
    for i, n in enumerate(names):
        g = np.array(getattr(rel, n).samples)
        run.expect(np.array_equal(g, v[i]), 'pairing', f'{label}: {n} is not parameter {i} of the fit')
        run.expect(np.array_equal(fc[:, i], v[i]), 'pairing', f'{label}: column {i} of the flatchain is not {n}')
    d = np.array(rel.distribution)
    want = equation(sc['cls'], T[:, None].astype(float), *[x[None, :] for x in v])
    run.expect(same_numbers(d, want), 'distribution', f'{label}: the distribution is not the equation at the samples')
    e = np.array(rel.extrapolate(sc['at']))
    want = equation(sc['cls'], float(sc['at']), *v)
    run.expect(same_numbers(e, want), 'extrapolate', f'{label}: extrapolation to {sc["at"]} K is not the equation at the samples')
    e2 = np.array(rel.extrapolate(float(T[-1])))
    run.expect(same_numbers(e2, d[-1]), 'extrapolate', f'{label}: extrapolation to a temperature of the data is not the distribution there')
    return v


def inside(v, bounds, slack=0.0):
    return all(np.all(x >= lo) and np.all(x <= hi) for x, (lo, hi) in zip(v, bounds))


def run(sc, run):
    rel, T, D, bounds = run.call('building the fit', make, sc)
    label0 = f"{sc['cls']} fit ({sc['data']} data, {sc['bounds']} bounds, temperatures {sc['order']})"
    run.expect([tuple(map(float, x)) for x in rel.bounds] == [tuple(map(float, x)) for x in bounds], 'bounds',
               lambda: f'{label0}: bounds are {rel.bounds}, expected {bounds}')
    run.expect(np.array_equal(rel.x, T), 'data', f'{label0}: temperatures changed')
    y0 = [W.C(y) for y in rel.y.values]
    v = views(run, sc, rel, T, label0)
    run.expect(inside(v, bounds), 'outside-bounds', f'{label0}: initial samples outside the bounds')
    run.log('built', W.dig([W.C(x) for x in v]))
    done = []
    from uravu.distribution import Distribution
    for i, (op, seed) in enumerate(zip(sc['ops'], sc['opseeds'])):
        label = f"{label0} after {'+'.join(done + [op])}"
        np.random.seed(seed % 2**32)
        run.count('fault:new random stream')
        before = [np.array(x.samples) for x in rel.variables]
        med = [float(np.median(x)) for x in before]
        try:
            with np.errstate(all='ignore'):
                if op == 'ml':
                    rel.max_likelihood('mini', [sc['ea'] * 1.1, sc['pre'] * 0.9, 0.15 * float(T.min())][:len(bounds)])
                elif op == 'de':
                    if not all(hi < 1e19 for _, hi in bounds):
                        continue
                    rel.max_likelihood('diff_evo', seed=seed % 2**32, maxiter=12, popsize=6)
                elif op in ('mcmc', 'stat'):
                    if op == 'stat':
                        w, n, b = 20, 450, 400
                    else:
                        w, n, b = sc['walkers'], sc['samples'], sc['burn']
                    rel.mcmc(walkers=w, n_samples=n, n_burn=b, progress=sc['progress'])
                elif op == 'nested':
                    if not all(hi < 1e19 for _, hi in bounds):
                        continue
                    rel.nested_sampling(progress=False, maxiter=150)
                elif op == 'set':
                    q = np.random.RandomState(seed % 2**32)
                    sign = -1 if seed % 4 == 0 else 1
                    size = (20, 1, 7)[seed % 3]
                    rel.variables = [Distribution(x * (1 + 0.1 * q.rand(size))) for x in [sign * sc['ea'], sc['pre'], sign * 0.2 * float(T.min())][:len(bounds)]]
                elif op == 'refused':
                    try:
                        rel.mcmc(walkers=1, n_samples=2, n_burn=0, progress=False)
                        run.fail('accepted', f'{label}: a chain with one walker was accepted')
                    except (ValueError, RuntimeWarning):
                        run.count('fault:refused call')
                elif op == 'read':
                    views(run, sc, rel, T, label + ' (read)')
        except (ValueError, np.linalg.LinAlgError, ZeroDivisionError, RuntimeError) as e:
            # the sampler or the optimiser could not work from there
            run.count('fits refused by the library')
            now = [np.array(x.samples) for x in rel.variables]
            run.expect(op == 'ml' or op == 'de' or all(np.array_equal(a, b) for a, b in zip(now, before)), 'refused-changed',
                       f'{label}: a fit that was refused ({type(e).__name__}) changed the samples')
            continue
        v = views(run, sc, rel, T, label)
        again = views(run, sc, rel, T, label + ' (again)')
        run.expect(all(np.array_equal(a, b) for a, b in zip(v, again)), 'read-changed', f'{label}: reading changed the samples')
        if op in ('refused', 'read', 'reseed'):
            run.expect(all(np.array_equal(a, b) for a, b in zip(v, before)), 'read-changed', f'{label}: the samples changed without a fit')
        if op in ('mcmc', 'stat'):
            run.expect(v[0].size == w * n, 'wrong-size', f'{label}: {v[0].size} samples for {w} walkers and {n} steps')
            if all(m != 0 and lo + 0.06 * abs(m) < m < hi - 0.06 * abs(m) for m, (lo, hi) in zip(med, bounds)):
                run.count('bounds compared')
                run.expect(inside(v, bounds), 'outside-bounds', lambda: f'{label}: samples outside the bounds {bounds}')
        if op in ('ml', 'de', 'nested') and all(np.all(np.isfinite(x)) for x in v):
            run.expect(inside(v, bounds), 'outside-bounds', lambda: f'{label}: samples outside the bounds {bounds}: {[x.min() for x in v]}')
        if op == 'stat':
            posterior(run, label, sc, rel, T, bounds, v)
        run.log(op, W.dig([W.C(x) for x in v]))
        done.append(op)
    run.expect([W.C(y) for y in rel.y.values] == y0 and np.array_equal(rel.x, T), 'data', f'{label0}: the data of the fit changed')
    run.sig(sc['cls'], sc['data'], sc['bounds'], sc['order'], '+'.join(done))


def posterior(run, label, sc, rel, T, bounds, v):
    """Moments of the chain against a quadrature of the posterior on a grid."""
    Tf = T.astype(float)
    lo = [max(b[0], x.min() - 0.6 * (x.max() - x.min())) for b, x in zip(bounds, v)]
    hi = [min(b[1], x.max() + 0.6 * (x.max() - x.min())) for b, x in zip(bounds, v)]
    if not all(h > l for l, h in zip(lo, hi)):
        return
    # the ridge is narrow in the prefactor: integrate over the value at the mean inverse temperature instead
    c = float(np.mean(1 / (K_B * Tf)))
    E = np.linspace(lo[0], hi[0], 60)
    s = np.log(v[1]) - v[0] * c
    S = np.linspace(s.min() - 0.3 * np.ptp(s), s.max() + 0.3 * np.ptp(s), 60)
    e, q = np.meshgrid(E, S, indexing='ij')
    pre = np.exp(q + e * c)
    M = pre.ravel()[None] * np.exp(-e.ravel()[None] / (K_B * Tf[:, None]))
    with np.errstate(all='ignore'):
        ll = rel.y.logpdf(M)
    ll = np.where(np.isfinite(ll), ll, -np.inf) + np.log(pre.ravel())  # the prior is uniform in the prefactor
    ll[(pre.ravel() > bounds[1][1]) | (e.ravel() < bounds[0][0]) | (e.ravel() > bounds[0][1])] = -np.inf
    if not np.isfinite(ll.max()):
        return
    p = np.exp(ll - ll.max())
    p /= p.sum()
    edge = np.concatenate([p.reshape(60, 60)[[0, -1]].ravel(), p.reshape(60, 60)[:, [0, -1]].ravel()]).max()
    if edge > 0.02 * p.max():
        return  # the grid does not hold the posterior
    for name, g, x in (('activation energy', e.ravel(), v[0]), ('logarithm of the prefactor', np.log(pre.ravel()), np.log(v[1]))):
        m = float((p * g).sum())
        sd = math.sqrt(float((p * (g - m)**2).sum()))
        z, f = (x.mean() - m) / sd, x.std() / sd
        run.count('posterior moments compared')
        run.log('moments', round(z, 6), round(f, 6))
        run.expect(abs(z) < 0.6, 'posterior-mean', f'{label}: mean {name} {x.mean()} is {z:.2f} posterior standard deviations from {m}')
        run.expect(0.6 < f < 1.5, 'posterior-spread', f'{label}: spread of the {name} is {f:.2f} times the expected {sd}')


def shrink(sc):
    for i in range(len(sc['ops'])):
        if len(sc['ops']) > 1:
            c = copy.deepcopy(sc)
            del c['ops'][i], c['opseeds'][i]
            yield c
    if sc['data'] != 'dist' and 'stat' not in sc['ops']:
        yield dict(copy.deepcopy(sc), data='dist')
    if sc['progress']:
        yield dict(copy.deepcopy(sc), progress=False)
    if sc['order'] != 'up':
        yield dict(copy.deepcopy(sc), order='up')
    if sc['bounds'] != 'list':
        yield dict(copy.deepcopy(sc), bounds='list')
