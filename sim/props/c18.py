"""C18: resampled distributions describe the observed displacements, for every random stream."""
import copy
import warnings

import numpy as np
from scipy import stats
from scipy.special import gammaln

from .. import boot
from .. import world as W
from ..sched import Deadlock, Scheduler, sub_rng

ID = 'C18'
LEVEL = 'exploration'
TIERS = {'quick': dict(runs=420, budget=240, redo=12), 'thorough': dict(runs=12000, budget=1500, redo=60)}
RULE = ('a run resamples one to three data sets (directly, through the bootstrap classes, through the analyzers) under simulated random '
        'streams, one after another or in threads, after refused and interrupted attempts, with one generator for all, one each, '
        'or the process-wide one; distinct = (entry points, generators, order, faults, options) combinations')
ASSUMPTIONS = ['streams are Mersenne Twister streams of simulated seeds (adversarial ones are in C10)',
               'statistical bounds are 7-8 standard errors, so a stream that breaks one by chance is not expected in 1e9 runs']
REAL = ['kinisi', 'scikit-learn, scipy, uravu, ASE, pymatgen, MDAnalysis']
STUBS = ['random seeds and entropy', 'progress display', 'thread scheduling at source lines']


def gen_task(rng):
    t = dict(entry=rng.choice(('direct', 'raw', 'raw', 'raw', 'analyzer')), n=rng.choice((300, 400, 600, 1000)), seed=rng.randrange(2**31))
    t['max'] = t['n'] * rng.choice((1, 1, 2))
    t['alpha'] = rng.choice((None, None, 0.0, 1e-12, 0.05))
    if t['entry'] == 'direct':
        if rng.random() < 0.5:
            t['n'] = t['max'] = rng.choice((2000, 4000))
        t.update(size=rng.choice((5, 12, 60, 300)), ns=rng.choice((1, 2, 3, 7.9, 30, 200)), data=rng.choice(('exp', 'norm', 'two')), shape=rng.choice((1, 2)))
        if rng.random() < 0.5:
            t['ns'] = max(int(t['size'] * rng.choice((0.24, 0.5, 0.9))), 1)
        if t['ns'] > t['size']:
            t['ns'] = t['size']
    elif t['entry'] == 'raw':
        t.update(atoms=rng.choice((1, 2, 4)), T=rng.choice((5, 7, 9)), kind=rng.choice(('diff', 'diff', 'jump', 'cond')), dims=rng.choice(('xyz', 'x', 'yz')),
                 sub_dt=rng.choice((1, 1, 2)), block=rng.random() < 0.1, charge=rng.choice((1, -2, 'array')), n_o=rng.choice(('usual', 'usual', 'half')))
        if t['kind'] == 'diff' and t['atoms'] == 1:
            t['atoms'] = 2
    else:
        t['spec'] = W.gen_simple(rng, boot_ok=False, block_ok=False, tmin=8, tmax=10)
        t['spec']['world']['T'] = 10
        t['spec']['opts'].pop('grid', None)
        t['spec']['opts'].pop('sub_dt', None)
        t.update(n=rng.choice((300, 400)))
        t['max'] = t['n']
    return t


def gen(rng, tier, idx):
    tasks = [gen_task(rng) for _ in range(rng.choice((1, 1, 2, 3)))]
    if len(tasks) > 1 and rng.random() < 0.4:
        tasks[1] = dict(copy.deepcopy(tasks[0]), n=tasks[0]['n'])  # the same data again
    sc = dict(tasks=tasks, gen=rng.choice(('shared', 'own', 'process')), threads=len(tasks) > 1 and rng.random() < 0.4, seed=rng.randrange(2**31),
              sched=rng.randrange(10**9), switch=rng.choice((0.02, 0.2)), progress=rng.random() < 0.15, before=[])
    for _ in range(rng.choice((0, 0, 1, 2))):
        sc['before'].append(rng.choice(('refused', 'interrupted', 'memory', 'prior')) + ':' + str(rng.choice((1, 7, 120, 350))))
    return sc


class Stopped(np.random.RandomState):
    """A random stream at whose n-th draw an interrupt (or a failing allocation) arrives; None: never."""

    left = None
    error = KeyboardInterrupt

    def randint(self, *a, **k):
        if self.left is not None:
            self.left -= 1
            if self.left < 0:
                self.left = None
                raise self.error()
        return super().randint(*a, **k)


def arrays(t):
    r = np.random.RandomState([t['seed'] % 2**31, 3])
    p = np.cumsum(r.randn(t['atoms'], t['T'] + 1, 3), axis=1)
    disp = [p[:, k:] - p[:, :-k] for k in range(1, t['T'] + 1)]
    n_o = t['atoms'] * (t['T'] + 1) / np.arange(1, t['T'] + 1)
    if t['n_o'] == 'half' and t['kind'] == 'diff':
        n_o = n_o / 2 + 1
    return np.arange(1, t['T'] + 1) * 1.0, disp, n_o


def charges(t, n):
    if t['charge'] == 'array':
        return np.array([(-1.0)**i * (1 + i % 3) for i in range(n)])
    return t['charge']


AXES = {'x': [0], 'y': [1], 'z': [2], 'xy': [0, 1], 'xz': [0, 2], 'yz': [1, 2], 'xyz': [0, 1, 2]}


def observed(disp, n_o, kind, dims, charge):
    """Per interval: what the resamples are drawn from, the number of draws, the number of independent observations."""
    out = []
    for d, n in zip(disp, n_o):
        d = np.asarray(d, float)[:, :, AXES[''.join(sorted(dims.lower()))]]
        if kind == 'diff':
            out.append(((d**2).sum(-1).ravel(), int(n), n))
            continue
        q = np.ones(d.shape[0]) * (charge if kind == 'cond' else 1.0)
        out.append(((np.einsum('i,itd->td', q, d)**2).sum(-1), int(n / d.shape[0]), n / d.shape[0]))
    return out


def perform(t, rs, progress):
    """-> [(samples, observed values, draws)] and reported moments"""
    import kinisi.diffusion as kd
    kw = dict(n_resamples=t['n'], max_resamples=t['max'], random_state=rs)
    if t['alpha'] is not None:
        kw['alpha'] = t['alpha']
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if t['entry'] == 'direct':
            r = np.random.RandomState([t['seed'] % 2**31, 7])
            n = t['size']
            a = {'exp': lambda: r.exponential(size=n), 'norm': lambda: r.randn(n), 'two': lambda: np.where(np.arange(n) % 3 == 0, 0.0, 9.0)}[t['data']]()
            if t['shape'] == 2 and n % 2 == 0:
                a = a.reshape(2, -1)
            d = kd.Bootstrap.sample_until_normal(a, t['ns'], t['n'], t['max'], random_state=rs, **{k: v for k, v in kw.items() if k == 'alpha'})
            return [(np.array(d.samples), a.ravel(), int(t['ns']), None)], None
        if t['entry'] == 'raw':
            dt, disp, n_o = arrays(t)
            K = {'diff': kd.MSDBootstrap, 'jump': kd.MSTDBootstrap, 'cond': kd.MSCDBootstrap}[t['kind']]
            q = charges(t, t['atoms'])
            args = (dt, disp) + ((q, ) if t['kind'] == 'cond' else ()) + (n_o, )
            b = K(*args, bootstrap=True, block=t['block'], dimension=t['dims'], sub_sample_dt=t['sub_dt'], progress=progress, **kw)
            obs = observed(disp, n_o, t['kind'], t['dims'], q)
            return collect(b.to_dict(), b, dt, obs, t['block'])
        sp = copy.deepcopy(t['spec'])
        w = W.World(sp['world'])
        o = sp['opts']
        if o.get('charge') == 'list':
            o['charge'] = [(-1.0)**i * (1 + i % 3) for i in range(len(w.mobile))]
        src = {'ase': W.as_ase, 'pmg': W.as_structures, 'mda': W.as_universe}[sp['route']](w)
        up = dict(W.uncertainty_params(o), bootstrap=True, progress=progress, **kw)
        an = W.construct(o['kind'], sp['route'], src, W.parser_params(w, o, sp['route']), up, charge=W.charge_of(o))
        dd = an.to_dict()['diff']
        q = W.charge_of(o)
        obs = observed(dd['displacements'], dd['n_o'], o['kind'], o.get('dims', 'xyz'), 1.0 if q is None else q)
        return collect(dd, an._diff, dd['delta_t'], obs, False)


def collect(dd, b, dt, obs, block):
    out = []
    have = [np.array(x['samples']) for x in dd['distributions'] or []]
    for x, at in zip(have, np.asarray(b.dt)):
        i = int(np.argmin(abs(np.asarray(dt) - at)))
        out.append((x, ) + obs[i])
    rep = dict(nb=np.array(dd['n_bootstrap']), vb=np.array(dd['v_bootstrap']), sb=np.array(dd['s_bootstrap']), count=(len(have), len(b.dt)),
               n=np.array(b.n), v=np.array(b.v), s=np.array(b.s), block=block)
    return out, rep


def corr(a, b):
    if len(a) < 50 or np.ptp(a) == 0 or np.ptp(b) == 0:
        return 0.0
    return float(stats.spearmanr(a, b)[0]) * np.sqrt(len(a) - 1)


def judge(run, label, out, rep, t):
    zs, fs = [], []
    eps = 1e-4 if t['entry'] == 'analyzer' and t['spec']['route'] == 'mda' else 1e-9  # MDAnalysis holds single precision
    for k, (v, data, draws, n_o) in enumerate(out):
        where = f'{label}, interval {k}'
        lo, hi = data.min(), data.max()
        tol = eps * max(abs(lo), abs(hi), 1e-3)
        run.expect(v.size >= t['n'], 'values', f'{where}: {v.size} resamples, {t["n"]} were asked for')
        run.expect(v.size >= 8 and bool(np.all(np.isfinite(v))), 'values', f'{where}: resamples are missing or not finite')
        run.expect(bool(np.all((v >= lo - tol) & (v <= hi + tol))), 'values', f'{where}: a resampled mean lies outside the observed values')
        if draws <= 2 and data.size <= 400:
            allowed = data if draws == 1 else (data[:, None] + data[None, :]).ravel() / 2
            allowed = np.sort(allowed)
            j = np.clip(np.searchsorted(allowed, v), 1, allowed.size - 1)
            gap = np.minimum(abs(allowed[j] - v), abs(allowed[j - 1] - v))
            run.expect(bool(np.all(gap <= tol)), 'values', f'{where}: a resample is not the mean of {draws} observed value(s)')
        sd = data.std()
        if sd > 0:
            m4 = ((data - data.mean())**4).mean() / sd**4 - 3
            z = (v.mean() - data.mean()) / sd * np.sqrt(draws * v.size)
            f = v.var(ddof=1) / (sd**2 / draws)
            w = np.sqrt(max(m4 / draws + 2, 0.05) / v.size)
            zs.append(z)
            fs.append((f - 1) / w)
            run.expect(abs(z) < 7.5, 'centre', f'{where}: resamples are centred {z:.1f} standard errors off the observed mean')
            run.expect(-8 < (f - 1) / w < 8 + 20 * w, 'spread', f'{where}: the variance of the resamples is {f:.2f} times that of means of {draws} observed values')
            # against resamples of our own
            q = np.random.RandomState([t['seed'] % 2**31, 5, k])
            own = data[q.randint(0, data.size, (3000, draws))].mean(1)
            scale = tol
            p = stats.ks_2samp(np.round(v / scale) * scale, np.round(own / scale) * scale, method='asymp').pvalue
            run.expect(p > 1e-13, 'shape', f'{where}: the resamples are not distributed as means of {draws} observed values drawn with replacement (p={p:.1g})')
            pairs = np.log(v.size / 2) + gammaln(draws + 1) - draws * np.log(data.size)
            if (pairs < np.log(1e-3) or draws > 30 < data.size) and draws >= 4 and np.unique(data).size == data.size:
                run.expect(np.unique(v).size > 0.97 * v.size, 'repeated', f'{where}: {v.size - np.unique(v).size} of {v.size} resamples repeat others')
            for lag in (1, 2, 99, 100, 101, len(v) // 2):
                if len(v) - lag > 80:
                    c = corr(v[lag:], v[:-lag])
                    run.expect(abs(c) < 7, 'dependent', f'{where}: resamples {lag} apart are correlated ({c:.1f} standard errors)')
    if len(zs) > 1:
        z = sum(zs) / np.sqrt(len(zs))
        run.expect(abs(z) < 7.5, 'centre', f'{label}: resamples are centred {z:.1f} standard errors off the observed means')
        f = sum(fs) / np.sqrt(len(fs))
        run.expect(abs(f) < 8, 'spread', f'{label}: the variances of the resamples are {f:.1f} standard errors off')
    across(run, label, [o[0] for o in out], 'intervals')
    if rep:
        run.expect(rep['count'][0] == rep['count'][1], 'lengths', f"{label}: {rep['count'][0]} resampled distributions for {rep['count'][1]} intervals")
        run.expect(rep['nb'].size == len(out) == rep['vb'].size == rep['sb'].size, 'lengths', f'{label}: numbers of reported moments differ')
        for k, o in enumerate(out):
            v = o[0]
            ok = np.allclose([rep['nb'][k], rep['vb'][k], rep['sb'][k]], [v.mean(), v.var(ddof=1), v.std(ddof=1)], rtol=max(1e-7, eps), atol=1e-13)
            run.expect(ok, 'moments', f'{label}: the reported moments of interval {k} are not those of its resamples')
            if not rep['block']:
                ok = np.allclose([rep['n'][k], rep['v'][k], rep['s'][k]**2], [o[1].mean()] + [o[1].var(ddof=1) / o[3]] * 2, rtol=max(1e-6, 10 * eps))
                run.expect(ok, 'observed', f'{label}: the observed mean or variance at interval {k} is not that of the displacements')


def across(run, label, vs, what):
    for i in range(len(vs)):
        for j in range(i):
            n = min(len(vs[i]), len(vs[j]))
            c = corr(vs[i][:n], vs[j][:n])
            run.expect(abs(c) < 7, 'dependent', f'{label}: the resamples of two {what} are correlated ({c:.1f} standard errors)')


def run(sc, run):
    import kinisi.diffusion as kd
    np.random.seed(sc['seed'] % 2**32)
    shared = Stopped([sc['seed'] % 2**31, 1])

    def source(i):
        return {'shared': shared, 'process': None, 'own': Stopped([sc['seed'] % 2**31, 2, i])}[sc['gen']]

    for b in sc['before']:
        how, n = b.split(':')
        rs = source(90)
        if how == 'prior':
            np.random.seed(int(n))
            np.random.randn(int(n))
            if rs is not None:
                rs.randn(int(n))
            continue
        same = sc['tasks'][0]
        if how in ('interrupted', 'memory') and int(n) > 5 and same['entry'] != 'analyzer' and same['seed'] % 3:
            # an attempt at the very resampling that follows
            try:
                if rs is not None:
                    rs.left = int(n) % (2 * same['n'])
                    rs.error = KeyboardInterrupt if how == 'interrupted' else MemoryError
                perform(same, rs, False)
            except (KeyboardInterrupt, MemoryError):
                run.count('fault:' + how)
            if rs is not None:
                rs.left = None
            continue
        t = dict(entry='raw', atoms=2, T=5, kind='diff', dims='xyz', sub_dt=1, block=False, charge=1, n_o='usual', n=30, max=40, alpha=None, seed=int(n))
        try:
            if how == 'refused':
                dt, disp, n_o = arrays(t)
                kd.MSDBootstrap(dt, disp[:3] + [None], n_o, bootstrap=True, n_resamples=20, max_resamples=20, random_state=rs, progress=False)
            else:
                if rs is not None:
                    rs.left = int(n)
                    rs.error = KeyboardInterrupt if how == 'interrupted' else MemoryError
                perform(t, rs, False)
        except (KeyboardInterrupt, MemoryError, Exception):
            run.count('fault:' + how)
        if rs is not None:
            rs.left = None
    label = f"{'+'.join(t['entry'] + ':' + t.get('kind', '') for t in sc['tasks'])} generator {sc['gen']}{' in threads' if sc['threads'] else ''}"
    own = [source(i) for i in range(len(sc['tasks']))]
    if sc['threads']:
        sch = Scheduler(sub_rng('c18', sc['sched']), [boot.REPO + '/kinisi/'], sc['switch'])
        res = sch.run([lambda i=i: perform(sc['tasks'][i], own[i], False) for i in range(len(own))])
        for i, (st, e) in enumerate(res):
            if st == 'exc':
                run.fail('deadlock' if isinstance(e, Deadlock) else 'unexpected-error', f'{label}: task {i} raised {type(e).__name__}: {str(e)[:200]}')
        got = [v for _, v in res]
        run.count('fault:thread switch', sch.switches)
        run.log('switches', W.dig(sch.trace), sch.switches)
    else:
        got = [run.call(f'{label}: task {i}', perform, t, own[i], sc['progress']) for i, t in enumerate(sc['tasks'])]
    run.count('resampled distributions', sum(len(o) for o, _ in got))
    for i, (out, rep) in enumerate(got):
        run.log(i, [W.dig(W.C(o[0])) for o in out])
        judge(run, f'{label}, task {i}', out, rep, sc['tasks'][i])
    across(run, label, [o[0][0] for o, _ in got if o], 'analyses')
    run.sig([(t['entry'], t.get('kind'), t['max'] > t['n'], t['alpha']) for t in sc['tasks']], sc['gen'], sc['threads'], sorted(b.split(':')[0] for b in sc['before']))


def shrink(sc):
    for i in range(len(sc['tasks'])):
        if len(sc['tasks']) > 1:
            c = copy.deepcopy(sc)
            del c['tasks'][i]
            c['threads'] = c['threads'] and len(c['tasks']) > 1
            yield c
    for i in range(len(sc['before'])):
        c = copy.deepcopy(sc)
        del c['before'][i]
        yield c
    if sc['threads']:
        yield dict(copy.deepcopy(sc), threads=False)
    if sc['progress']:
        yield dict(copy.deepcopy(sc), progress=False)
    for i, t in enumerate(sc['tasks']):
        if t['alpha'] is not None:
            c = copy.deepcopy(sc)
            c['tasks'][i]['alpha'] = None
            yield c
