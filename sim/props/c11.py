"""C11: analysing again replaces earlier results completely."""
import copy

import numpy as np

from .. import world as W
from ..core import in_fork
from . import c05

ID = 'C11'
LEVEL = 'exploration'
TIERS = {'quick': dict(runs=1800, budget=240, redo=25), 'thorough': dict(runs=45000, budget=1500, redo=150)}
RULE = ('a run applies a random history of analysis steps, reads, predictions, saves, conversions, refused and interrupted calls to one analysis and, '
        'after each, compares everything it reports with a freshly built analysis (in a process of its own) given only the last '
        'successful step of each kind; distinct = histories up to the values of seeds')
ASSUMPTIONS = ['steps without a random_state are preceded by seeding the process-wide generator (the random stream is part of the input)',
               'interrupts hit source lines of kinisi']
REAL = ['kinisi', 'emcee, scipy, uravu, statsmodels, h5py']
STUBS = ['entropy and random streams', 'interrupts', 'progress display']


def gen(rng, tier, idx):
    spec = W.gen_simple(rng)
    bare = rng.random() < 0.45
    kind = spec['opts']['kind']
    which = lambda: rng.choice(('diff', 'jump', 'cond')) if bare else kind  # noqa
    ops = []
    for _ in range(rng.choice((2, 3, 4, 6, 8))):
        r = rng.random()
        if r < 0.5:
            s, k = W.gen_step(rng, light=False), which()
            s['seeded'] = rng.random() < 0.6
            s['temperature'] = rng.choice((300, 500))
            done = [o for o in ops if o[0] == 'step']
            if done and rng.random() < 0.45:
                k, s = done[-1][1], W.vary(rng, done[-1][2])
            ops.append(['step', k, s])
            if rng.random() < 0.15:
                ops.append(['read', 3])
        elif r < 0.62:
            s = W.gen_step(rng, light=True)
            s['seeded'] = True
            ops.append(['bad', which(), s, rng.choice(c05.BAD)])
        elif r < 0.7:
            s = W.gen_step(rng, light=True)
            s['seeded'] = True
            ops.append(['interrupt', which(), s, rng.random(), rng.random(), rng.choice(('kbd', 'mem', 'rt'))])
        elif r < 0.78:
            ops.append(['ppd', rng.choice((2, 5, None)), rng.choice((1, 3)), rng.randrange(10**6)])
        elif r < 0.86:
            ops.append(['read', rng.randrange(1, 4)])
        elif r < 0.93:
            ops.append(['save'])
        else:
            ops.append(['dict'])
    if not any(o[0] == 'step' for o in ops):
        s = W.gen_step(rng, light=False)
        s['seeded'] = True
        ops.append(['step', which(), s])
    return dict(spec=spec, bare=bare, ops=ops, pre=rng.random() < 0.1, progress=rng.random() < 0.1)


def make(sc):
    an = W.simple(sc['spec'])
    return an._diff if sc['bare'] else an


def step(b, sc, which, s, bad=None):
    np.random.seed(s['seed'] % 2**32)
    c05.go(b, dict(sc, seeded=s['seeded']), which, s, bad, sc['progress'])


def fresh(sc, last):
    b = make(sc)
    for which, s in last:
        step(b, sc, which, s)
    return W.observe(b)


def expected(run, sc, last, cache):
    key = repr(last)
    if key not in cache:
        st, v = in_fork(fresh, sc, last)
        if st != 'ok':
            run.fail('unexpected-error', f'a fresh analysis with the same steps ended with {st} {v!r}'[:300])
        cache[key] = v
    return cache[key]


def run(sc, run):
    b = run.call('building the analysis', make, sc)
    last, cache, hist = [], {}, []
    if sc['pre']:
        W.observe(b)
    for i, op in enumerate(sc['ops']):
        name = op[0]
        exact = None
        if name == 'step':
            try:
                step(b, sc, op[1], op[2])
            except Exception as e:  # noqa
                run.fail('unexpected-error', f"step {op[1]} after {'+'.join(hist) or 'nothing'} raised {type(e).__name__}: {str(e)[:200]}")
            last = [x for x in last if x[0] != op[1]] + [[op[1], op[2]]]
        elif name == 'bad':
            try:
                step(b, sc, op[1], op[2], op[3])
                run.count('probe:argument accepted')
                run.sig('accepted', op[3])
                return
            except Exception:
                run.count('fault:rejected ' + op[3])
        elif name == 'interrupt':
            st, r = in_fork(c05.dry, dict(sc, step=[op[1], op[2]], what='step', seeded=True, f=dict(kind='line', u1=op[3], u2=op[4])), b)
            if st != 'ok':
                run.fail('unexpected-error', f'step {op[1]} ended with {st} {r!r}'[:300])
            rec = c05.LineRecorder([c05.KIN], r[2], c05.EXC[op[5]]())
            try:
                with rec:
                    step(b, sc, op[1], op[2])
                run.count('probe:interrupt absorbed')
                last = [x for x in last if x[0] != op[1]] + [[op[1], op[2]]]
            except BaseException as e:  # noqa
                if not rec.fired:
                    run.fail('unexpected-error', f"step {op[1]} raised {type(e).__name__} without a fault")
                run.count('fault:interrupted step')
                if W.observe(b) == r[0]:  # it arrived once the step had taken full effect
                    last = [x for x in last if x[0] != op[1]] + [[op[1], op[2]]]
        elif name == 'ppd':
            kw = dict(n_predictive_samples=op[2], progress=sc['progress'])
            if op[1] is not None:
                kw['n_posterior_samples'] = op[1]
            np.random.seed(op[3])
            try:
                b.posterior_predictive(**kw) if sc['bare'] else b.posterior_predictive(kw)
            except Exception as e:  # noqa
                if last:
                    run.fail('unexpected-error', f"posterior_predictive after {'+'.join(hist)} raised {type(e).__name__}: {str(e)[:200]}")
        elif name == 'read':
            for _ in range(op[1]):
                W.observe(b)
        elif name == 'save':
            if not sc['bare']:
                run.call('save', b.save, f'f{i}')
        else:
            run.call('to_dict', b.to_dict)
        hist.append(name + (':' + op[1] if name in ('step', 'bad', 'interrupt') else ''))
        got = W.observe(b)
        run.log(i, hist[-1], W.dig(got))
        run.same(got, expected(run, sc, last, cache), 'leftover', f"after {'+'.join(hist)} the analysis differs from a fresh one with only the last steps")
        run.count('operations')
    if sc['bare'] and len(last) > 1:
        for x in last:  # a coefficient is that of the last step of its kind, whatever steps of other kinds came in between
            alone = expected(run, sc, [x], cache)
            key = {'diff': 'D', 'jump': 'D_J', 'cond': 'sigma'}[x[0]]
            run.same(got[key], alone[key], 'leftover', f"after {'+'.join(hist)} the {key} reported is not that of the last {x[0]} step")
    run.sig(sc['bare'], '+'.join(hist), ','.join(f"{s.get('fit_intercept', True)}{s.get('model', False)}{s['seeded']}" for _, s in last))


def shrink(sc):
    for i in range(len(sc['ops'])):
        c = copy.deepcopy(sc)
        del c['ops'][i]
        if c['ops']:
            yield c
    for k in ('bootstrap', 'sub_dt', 'block'):
        if sc['spec']['opts'].get(k):
            c = copy.deepcopy(sc)
            c['spec']['opts'].pop(k)
            yield c
    for i, o in enumerate(sc['ops']):
        if o[0] in ('step', 'bad', 'interrupt'):
            for k in ('model', 'fit_intercept', 'cond_max'):
                if k in o[2]:
                    c = copy.deepcopy(sc)
                    c['ops'][i][2].pop(k)
                    yield c
