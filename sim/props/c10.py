"""C10: resampling always stops within its declared budget and says so."""
import copy
import warnings

import numpy as np
from scipy.stats import normaltest

from .. import world as W

ID = 'C10'
LEVEL = 'exploration'
TIERS = {'quick': dict(runs=4000, budget=240, redo=25), 'thorough': dict(runs=60000, budget=1500, redo=150)}
RULE = ('a run builds analyses with resampling (or resamples data directly) while the simulator supplies the random stream: '
        'ordinary, constant, two-valued, alternating, rare extremes, drifting, or turning bad later; distinct = (entry point, '
        'stream, budget relation, how sampling ended) combinations')
ASSUMPTIONS = ['adversarial streams enter through the random_state argument (numpy.random.RandomState.randint, through which '
               'scikit-learn resamples); the process-wide generator is only seeded',
               'a run that draws ten times its budget, or computes for 100 s, counts as not stopping']
REAL = ['kinisi', 'scikit-learn, scipy, uravu, ASE, pymatgen, MDAnalysis']
STUBS = ['random stream', 'progress display', 'entropy']

STREAMS = ('plain', 'plain', 'const', 'two', 'two', 'alternate', 'rare', 'drift', 'turn', 'turnback', 'extremes')


class Endless(BaseException):
    pass


class Stream(np.random.RandomState):
    """A random stream under the simulator's control."""

    def setup(self, kind, seed, budget, param):
        self.kind, self.budget, self.param = kind, budget, param
        self.own = np.random.RandomState(seed)
        self.calls = self.drawn = 0

    def randint(self, low, high=None, size=None, dtype=int):
        self.calls += 1
        n = 1 if size is None else int(np.prod(size))
        self.drawn += max(n, 1)
        if self.drawn > self.budget:
            raise Endless()
        plain = self.own.randint(low, high, size, dtype)
        lo, hi = (0, low) if high is None else (low, high)
        k, c, o = self.kind, self.calls, self.own
        if size is None or hi - lo < 2 or k == 'plain':
            return plain
        if k == 'const':
            v = lo + self.param % (hi - lo)
        elif k == 'two':
            v = lo if o.rand() < (0.5, 0.1, 0.02)[self.param % 3] else hi - 1
        elif k == 'alternate':
            v = lo if c % 2 else hi - 1
        elif k == 'rare':
            if o.rand() > 0.01:
                return plain
            v = hi - 1
        elif k == 'drift':
            v = lo + min(c // 20, hi - lo - 1)
        elif k == 'turn':
            if c < 15 + self.param % 60:
                return plain
            v = lo if o.rand() < 0.5 else hi - 1
        elif k == 'turnback':
            if c > 150 + self.param % 300:
                return plain
            v = lo if o.rand() < 0.5 else hi - 1
        else:
            v = None
            a = np.where(o.rand(n) < 0.5, lo, hi - 1).astype(dtype)
            return a.reshape(size)
        return np.full(size, v, dtype)


def gen(rng, tier, idx):
    sc = dict(mode=rng.choice(('direct', 'direct', 'raw', 'analyzer')), stream=rng.choice(STREAMS), seed=rng.randrange(2**31),
              param=rng.randrange(1000), n=rng.choice((1, 5, 8, 9, 20, 50, 99, 100, 101, 200, 1000)),
              max=rng.choice((1, 10, 20, 99, 100, 101, 119, 120, 121, 150, 199, 200, 250, 500, 1100, 2000)),
              alpha=rng.choice((None, None, 1e-3, 0.05, 0.5, 1e-12, 1.0, 0.0)), given=rng.random() < 0.85)
    if rng.random() < 0.15:
        sc['max'] = sc['n'] + rng.choice((-1, 0, 1, 99, 100, 101))
    if sc['mode'] == 'direct' and rng.random() < 0.06:
        sc['n'], sc['max'] = rng.choice((1000, 4900, 5200)), rng.choice((5300, 6000, 8000))
    if sc['max'] < 1:
        sc['max'] = 1
    if not sc['given']:
        sc['stream'] = 'plain'
    if sc['mode'] == 'direct':
        sc.update(size=rng.choice((2, 3, 10, 60, 300)), ns=rng.choice((1, 2, 7.9, 30, 200)), data=rng.choice(
            ('exp', 'norm', 'const', 'cauchy', 'two')), shape=rng.choice((1, 2)))
    elif sc['mode'] == 'raw':
        sc.update(atoms=rng.choice((1, 2, 4)), T=rng.choice((8, 12)), kind=rng.choice(('diff', 'jump', 'cond')),
                  dims=rng.choice(('xyz', 'x', 'yz')), sub_dt=rng.choice((1, 1, 2)), block=rng.random() < 0.1)
    else:
        sc['spec'] = W.gen_simple(rng, boot_ok=False, block_ok=False, tmin=8, tmax=14)
        if sc['spec']['world']['T'] > 24:
            sc['spec']['world']['T'] = 24
            sc['spec']['opts'].pop('grid', None)
        if sc['spec']['opts'].get('sub_dt', 1) > 1:
            sc['spec']['world']['T'] = 12 * sc['spec']['opts']['sub_dt']
    if sc['mode'] != 'direct':
        sc['max'] = min(sc['max'], 600)
        sc['n'] = min(sc['n'], 200)
    sc['progress'] = rng.random() < 0.1
    return sc


def data_of(sc):
    r = np.random.RandomState([sc['seed'] % 2**31, 7])
    n = sc['size']
    a = {'exp': lambda: r.exponential(size=n), 'norm': lambda: r.randn(n), 'const': lambda: np.full(n, 2.5),
         'cauchy': lambda: r.standard_cauchy(n), 'two': lambda: np.where(r.rand(n) < 0.3, 0.0, 9.0)}[sc['data']]()
    if sc['shape'] == 2 and n % 2 == 0:
        a = a.reshape(2, -1)
    return a


def source(sc, budget):
    if not sc['given']:
        np.random.seed(sc['seed'])
        return None
    s = Stream(sc['seed'])
    s.setup(sc['stream'], sc['seed'], budget, sc['param'])
    return s


def perform(sc):
    """-> list of (values, data range), number of warnings"""
    import kinisi.diffusion as kd
    kw = dict(n_resamples=sc['n'], max_resamples=sc['max'])
    if sc['alpha'] is not None:
        kw['alpha'] = sc['alpha']
    most = max(sc['n'], sc['max']) + 100
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter('always')
        if sc['mode'] == 'direct':
            a = data_of(sc)
            rs = source(sc, 10 * most * max(int(sc['ns']), 1) + 1000)
            d = kd.Bootstrap.sample_until_normal(a, sc['ns'], random_state=rs, **kw)
            out = [(np.array(d.samples), a.ravel(), int(sc['ns']))]
            reported = None
        else:
            rs = source(sc, 10 * most * 40000)
            if sc['mode'] == 'raw':
                r = np.random.RandomState([sc['seed'] % 2**31, 3])
                T = sc['T']
                p = np.cumsum(r.randn(sc['atoms'], T + 1, 3), axis=1)
                disp = [p[:, k:] - p[:, :-k] for k in range(1, T)]
                K = {'diff': kd.MSDBootstrap, 'jump': kd.MSTDBootstrap, 'cond': kd.MSCDBootstrap}[sc['kind']]
                args = (np.arange(1, T) * 1.0, disp) + ((2.0, ) if sc['kind'] == 'cond' else ()) + (sc['atoms'] * T / np.arange(1, T), )
                b = K(*args, bootstrap=True, block=sc['block'], dimension=sc['dims'], sub_sample_dt=sc['sub_dt'], random_state=rs,
                      progress=sc['progress'], **kw)
                dd = b.to_dict()
                kind = sc['kind']
            else:
                sp = copy.deepcopy(sc['spec'])
                w = W.World(sp['world'])
                o = sp['opts']
                if o.get('charge') == 'list':
                    o['charge'] = [(-1.0)**i * (1 + i % 3) for i in range(len(w.mobile))]
                src = {'ase': W.as_ase, 'pmg': W.as_structures, 'mda': W.as_universe}[sp['route']](w)
                up = dict(W.uncertainty_params(o), bootstrap=True, random_state=rs, progress=sc['progress'], **kw)
                an = W.construct(o['kind'], sp['route'], src, W.parser_params(w, o, sp['route']), up, charge=W.charge_of(o))
                dd = an.to_dict()['diff']
                kind = o['kind']
                b = an._diff
            out = [(np.array(x['samples']), None, None) for x in dd['distributions'] or []]
            reported = (np.array(dd['n_bootstrap']), np.array(dd['v_bootstrap']), np.array(dd['s_bootstrap']), len(b.dt),
                        np.array(b.n), np.array(b.v), sc['mode'] == 'raw' and sc['block'], kind)
    warned = [str(r.message) for r in rec if issubclass(r.category, UserWarning) and 'resample' in str(r.message).lower()]
    return out, warned, reported, rs


def pvalue(v):
    with np.errstate(all='ignore'), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            return float(normaltest(list(v))[1])
        except ValueError:
            return float('nan')


def run(sc, run):
    label = f"{sc['mode']} stream {sc['stream'] if sc['given'] else 'process-wide'} n={sc['n']} max={sc['max']} alpha={sc['alpha']}"
    try:
        out, warned, rep, rs = perform(sc)
    except Endless:
        run.fail('budget', f'{label}: still resampling after ten times the budget')
    except np.linalg.LinAlgError:
        # (nearly) equal values: uravu cannot represent their distribution, with or without resampling
        run.count('degenerate values refused by uravu')
        run.sig('degenerate', sc['mode'], sc['stream'])
        if sc['stream'] == 'plain' and sc['n'] >= 50 and (sc['mode'] != 'direct' or sc['data'] in ('exp', 'norm')):
            run.fail('unexpected-error', f'{label}: ordinary data and an ordinary stream refused')
        return
    except Exception as e:
        run.fail('unexpected-error', f'{label}: {type(e).__name__}: {str(e)[:200]}')
    if rs is not None:
        run.count('fault:stream ' + sc['stream'], max(rs.calls, 1))
    alpha = 1e-3 if sc['alpha'] is None else sc['alpha']
    reached = 0
    ends = set()
    for k, (v, data, ns) in enumerate(out):
        run.log(k, v.size, W.dig(W.C(v)))
        run.expect(v.size >= sc['n'], 'too-few', f'{label}: {v.size} resamples, fewer than the initial number')
        run.expect(v.size <= max(sc['n'], sc['max']) + 100, 'budget', f'{label}: {v.size} resamples exceed the budget')
        p = pvalue(v)
        full = v.size >= sc['max']
        reached += full
        if not full:
            # (the test may have been made in single or double precision)
            run.expect(not (p < alpha * 0.99 and pvalue(v.astype(np.float32)) < alpha * 0.99), 'stopped-early',
                       f'{label}: stopped after {v.size} resamples that are rejected by the normality test (p={p:.3g})')
        ends.add('full' if full else 'normal' if v.size > sc['n'] else 'at once')
        if data is not None:
            lo, hi = data.min(), data.max()
            tol = 1e-9 * max(abs(lo), abs(hi), 1)
            run.expect(bool(np.all((v >= lo - tol) & (v <= hi + tol))), 'values', f'{label}: a resampled mean lies outside the data')
            if sc['stream'] == 'plain' and v.size >= 100 and sc['data'] in ('exp', 'norm', 'two') and data.size > 2:
                se = data.std() / np.sqrt(ns)
                z = (v.mean() - data.mean()) / se * np.sqrt(v.size) if se > 0 else 0.0
                f = v.std() / se if se > 0 else 1.0
                run.expect(abs(z) < 7 and 0.55 < f < 1.7, 'values', f'{label}: resampled means of {ns} values are centred {z:.1f} standard errors off the data '
                           f'and spread {f:.2f} times as means of that many values')
    if reached:
        run.expect(len(warned) > 0, 'silent', f'{label}: the maximum number of resamples was reached without a warning')
    else:
        run.expect(not warned, 'false-warning', f'{label}: a warning was given though the maximum was not reached: {warned[:1]}')
    if rep is not None:
        nb, vb, sb, nd, m, var, block, kind = rep
        run.expect(len(out) == nd, 'lengths', f'{label}: {len(out)} resampled distributions for {nd} intervals')
        run.expect(np.allclose(nb, [v.mean() for v, _, _ in out], rtol=1e-9, equal_nan=True), 'moments', f'{label}: reported bootstrap means are not those of the resamples')
        if sc['n'] > 1:
            run.expect(np.allclose(vb, [v.var(ddof=1) for v, _, _ in out], rtol=1e-7, atol=1e-25, equal_nan=True), 'moments',
                       f'{label}: reported bootstrap variances are not those of the resamples')
            run.expect(np.allclose(sb, [v.std(ddof=1) for v, _, _ in out], rtol=1e-7, atol=1e-13, equal_nan=True), 'moments',
                       f'{label}: reported bootstrap standard deviations are not those of the resamples')
        if sc['stream'] == 'plain' and not block:
            for (v, _, _), mm, vv in zip(out, m, var):
                if v.size >= 100 and vv > 0:
                    z = (v.mean() - mm) / np.sqrt(vv) * np.sqrt(v.size)
                    f = v.std() / np.sqrt(vv)
                    # int() of the number of observations, and the 1/n variance of the data, move both a little
                    run.expect(abs(z) < 9 and 0.3 < f < 2.5, 'values', f'{label}: resamples are centred {z:.1f} standard errors from the mean-squared '
                               f'displacement and spread {f:.2f} times its uncertainty')
    run.sig(sc['mode'], sc['stream'], sc['given'], '<=>'[(sc['n'] > sc['max']) - (sc['n'] < sc['max']) + 1], sorted(ends), sc['alpha'])


def shrink(sc):
    if sc['alpha'] is not None:
        yield dict(copy.deepcopy(sc), alpha=None)
    if sc['mode'] == 'analyzer':
        for k in ('sub_dt', 'charge'):
            if k in sc['spec']['opts']:
                c = copy.deepcopy(sc)
                c['spec']['opts'].pop(k)
                yield c
    if sc['progress']:
        yield dict(copy.deepcopy(sc), progress=False)
    for k, vals in (('n', (20, 9)), ('max', (150, 100, 20))):
        for v in vals:
            if sc[k] > v:
                yield dict(copy.deepcopy(sc), **{k: v})
