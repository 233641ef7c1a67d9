"""C04: a given random_state determines a seeded result completely."""
import copy
import os
import random
import re
import subprocess
import sys

import emcee
import numpy as np

from .. import boot
from .. import world as W
from ..core import in_fork, scenario
from ..sched import Scheduler, Deadlock, sub_rng

ID = 'C04'
LEVEL = 'exploration'
TIERS = {'quick': dict(runs=1200, budget=240, redo=25), 'thorough': dict(runs=30000, budget=1500, redo=100)}
RULE = ('a run performs the same resampling and analysis in a fresh process and again in processes whose ambient random '
        'state, entropy, history, display, clock or concurrent threads differ, the scheduler choosing who runs at every '
        'source line of kinisi and the sampler; distinct = (settings, perturbations, places of the switches)')
ASSUMPTIONS = ['same machine and library versions', 'one thread uses a given random_state at a time',
               'switches at source lines of kinisi and of the sampler']
REAL = ['kinisi', 'numpy random generators', 'emcee', 'scikit-learn resampling', 'scipy']
STUBS = ['thread scheduling', 'entropy', 'progress display and its clock', 'interpreter hash seed (other interpreters)']

PERT = ('global', 'entropy', 'progress', 'history', 'threads', 'threads', 'twice', 'pyrandom', 'dirty', 'again')


def gen(rng, tier, idx):
    spec = W.gen_simple(rng)
    if rng.random() < 0.5 and not spec['opts'].get('bootstrap') and not spec['opts'].get('block'):
        spec['opts']['bootstrap'] = [rng.choice((10, 30)), rng.choice((40, 250)), rng.randrange(10**6)]
    spec['opts'].pop('progress', None)
    s = W.gen_step(rng)
    s.pop('seed')
    p = rng.sample(PERT, rng.choice((1, 1, 2, 3)))
    others = [rng.choice(('draw', 'reseed', 'seeded', 'unseeded', 'pyrandom')) for _ in range(rng.choice((1, 1, 2)))]
    return dict(spec=spec, step=s, seed=rng.randrange(2**31), advance=rng.choice((0, 0, 1, 5, 700)),
                seeded=rng.random() < 0.8, pert=p, others=others, sched=rng.randrange(10**9), x=rng.randrange(2**31),
                switch=rng.choice((0.01, 0.05, 0.2)), rs=rng.choice(('state', 'state', 'shared')),
                ospec=W.gen_simple(rng, boot_ok=False, block_ok=False, tmin=8, tmax=14), ostep=W.gen_step(rng))


def work(sc, progress=False, again=False):
    """The seeded (or, with the process-wide generator, unseeded) computation under test."""
    spec, s = sc['spec'], sc['step']
    o = dict(spec['opts'])
    kind = o['kind']
    rs = None
    if sc['seeded']:
        rs = np.random.RandomState(sc['seed'])
        if sc['advance']:
            rs.random_sample(sc['advance'])
    else:
        np.random.seed(sc['seed'])
    w = W.World(spec['world'])
    src = {'ase': W.as_ase, 'pmg': W.as_structures, 'mda': W.as_universe}[spec['route']](w)
    if o.get('charge') == 'list':
        o['charge'] = [(-1.0)**i * (1 + i % 3) for i in range(len(w.mobile))]
    o['progress'] = progress
    up = W.uncertainty_params(o)
    if o.get('bootstrap'):
        up['random_state'] = rs if sc['rs'] == 'shared' or rs is None else np.random.RandomState(o['bootstrap'][2])
    an = W.construct(kind, spec['route'], src, W.parser_params(w, o, spec['route']), up, charge=W.charge_of(o))
    p = W.step_params(dict(s, seed=0), seeded=False, progress=progress)
    if rs is not None:
        p['random_state'] = rs
    if again:  # this analysis has been analysed, and used, before
        st = np.random.get_state()
        W.do_step(an, kind, dict(sc['ostep'], seed=sc['x']), seeded=True)
        W.observe(an)
        np.random.set_state(st)
    W.do_step(an, kind, s, params=p)
    out = W.observe(an, ppd=False)
    if rs is not None:
        out['random_state'] = state(rs)
    elif not sc.get('noppd'):
        kw = dict(n_posterior_samples=4, n_predictive_samples=2, progress=progress)
        out['ppd'] = W.C(an.posterior_predictive(kw))
    return out, an


def state(rs):
    st = rs.get_state()
    return [st[0], st[1].tobytes(), int(st[2]), int(st[3]), float(st[4])]


def other(sc, what, stop):
    """What another thread does meanwhile."""
    r = sub_rng('other', what, sc['x'])
    if what == 'draw':
        out = []
        for _ in range(40):
            out.append(np.random.random_sample(r.randrange(1, 50)).tobytes())
            out.append(np.random.standard_normal(3).tobytes())
        return out
    elif what == 'reseed':
        for _ in range(30):
            np.random.seed(r.randrange(2**31))
            np.random.random_sample(2)
    elif what == 'pyrandom':
        for _ in range(40):
            random.random()
            random.seed(r.randrange(1000))
    else:
        an = W.simple(sc['ospec'])
        W.do_step(an, sc['ospec']['opts']['kind'], sc['ostep'], seeded=what == 'seeded')
    return None


def baseline(sc):
    return work(sc)[0]


def perturbed(sc, ent):
    """Same computation in a process in another condition.  Returns (observation, problems, trace)."""
    r = sub_rng('pert', sc['x'])
    probs = []
    pert = sc['pert']
    trace = ''
    places = []
    sw = 0
    pts = 0
    if 'entropy' in pert:
        ent.seed(r.randrange(10**9))
    if 'history' in pert:
        for what in ('unseeded', 'seeded', 'draw'):
            if r.random() < 0.6:
                other(sc, what, None)
    if 'global' in pert:
        np.random.seed(r.randrange(2**32))
        np.random.random_sample(r.randrange(2000))
        np.random.standard_normal(r.randrange(1, 4))  # leaves a cached normal deviate half of the time
    if 'pyrandom' in pert:
        random.seed(r.randrange(10**9))
        random.random()
    if 'dirty' in pert:
        np.seterr(all='ignore')
        np.random.set_state(np.random.RandomState(r.randrange(2**32)).get_state())
    progress = 'progress' in pert
    again = 'again' in pert
    if 'twice' in pert:
        work(sc)
    if 'threads' in pert and sc['seeded']:
        sch = Scheduler(sub_rng('c04', sc['sched']),
                        [boot.REPO + '/kinisi/', os.path.join(os.path.dirname(emcee.__file__), 'ensemble.py'),
                         os.path.join(os.path.dirname(emcee.__file__), 'moves'), __file__], sc['switch'],
                        hot=lambda f, n: n in ('bootstrap_GLS', 'sample_until_normal', '_bootstrap'))
        np.random.seed(sc['x'])
        fns = [lambda: work(sc, progress, again)[0]] + [lambda w=w: other(sc, w, None) for w in sc['others']]
        res = sch.run(fns)
        if any(isinstance(e, Deadlock) for st, e in res if st == 'exc'):
            raise AssertionError('deadlock')
        for st, e in res:
            if st == 'exc':
                raise e
        obs = res[0][1]
        if sc['others'].count('draw') == 1 and not {'reseed', 'unseeded'} & set(sc['others']):
            np.random.seed(sc['x'])
            if other(sc, 'draw', None) != res[1 + sc['others'].index('draw')][1]:
                probs.append('another thread drawing from the process-wide numpy generator gets other numbers')
        trace = str(sch.trace)
        places = sorted({p[0] for p in sch.places})
        sw, pts = sch.switches, sch.points
    else:
        before = (state(np.random.mtrand._rand), random.getstate())
        obs = work(sc, progress, again)[0]
        after = (state(np.random.mtrand._rand), random.getstate())
        if sc['seeded']:
            if before[0] != after[0]:
                probs.append('a seeded analysis changed the state of the process-wide numpy generator')
            if before[1] != after[1]:
                probs.append("a seeded analysis changed the state of Python's process-wide generator")
    return obs, probs, trace, places, sw, pts


def run(sc, run):
    st, want = in_fork(baseline, sc)
    if st != 'ok':
        run.fail('unexpected-error', f'the computation ended with {st} {want!r}'[:400])
    run.log('baseline', W.dig(want))
    st, r = in_fork(perturbed, sc, run.entropy)
    desc = ('seeded' if sc['seeded'] else 'unseeded (process-wide generator seeded beforehand)') + \
        f" analysis under {'+'.join(sc['pert'])}" + (f" with {'+'.join(sc['others'])}" if 'threads' in sc['pert'] else '')
    if st != 'ok':
        run.fail('unexpected-error', f'{desc}: ended with {st} {r!r}'[:400])
    obs, probs, trace, places, sw, pts = r
    run.log('trace', W.dig(trace), W.dig(obs))
    run.count('schedule points', pts)
    for p in sc['pert']:
        run.count('fault:' + {'threads': 'concurrent threads', 'global': 'ambient generator state'}.get(p, p))
    run.count('fault:thread switch', sw)
    run.same(obs, want, 'not-reproducible', f'{desc}: result differs from the same computation in a fresh process')
    for p in probs:
        run.fail('disturbed', f'{desc}: {p}')
    run.count('checks', 2)
    o = sc['spec']['opts']
    run.sig(sc['seeded'], o['kind'], bool(o.get('bootstrap')), '+'.join(sorted(set(sc['pert']))),
            '+'.join(sc['others']) if 'threads' in sc['pert'] else '', sc['rs'], bool(sc['advance']), ' '.join(places[:6]))


def extra(seed, tier, pool):
    """The same computations in interpreters with other string hashing."""
    n = 24 if tier == 'quick' else 150
    want = None
    stats = {}
    for hs in ('0', '1', '4242'):
        env = {k: v for k, v in os.environ.items() if k not in ('KINISI_SIM_INSIDE', 'LD_PRELOAD')}
        env['KINISI_SIM_HASHSEED'] = hs
        env['VERIF_SEED'] = str(seed)
        p = subprocess.run([sys.executable, os.path.join(boot.VERIF, 'check.py'), ID, '--tier', tier, '--digests', str(n)],
                           env=env, capture_output=True, text=True, timeout=600)
        got = dict(re.findall(r'^(\d+) (\w+ \w+)', p.stdout, re.M))
        if p.returncode or len(got) != n:
            raise RuntimeError(f'other interpreter failed: {p.stdout[-500:]} {p.stderr[-500:]}')
        if want is None:
            want = got
        stats['fault:other interpreter hash seed'] = stats.get('fault:other interpreter hash seed', 0) + n
        for k in want:
            if got[k] != want[k]:
                sc = scenario(sys.modules[__name__], seed, int(k), tier)
                return dict(stats=stats, viol=dict(
                    key=(int(k), 0), sc=sc, status='viol', events=[f'hash seed {hs}: {got[k]} instead of {want[k]}'],
                    digest='', viol=('not-reproducible', f'run {k} gives another result in an interpreter started with '
                                     f'PYTHONHASHSEED={hs}')))
    return dict(stats=stats)


def shrink(sc):
    if len(sc['pert']) > 1:
        for i in range(len(sc['pert'])):
            c = copy.deepcopy(sc)
            del c['pert'][i]
            yield c
    if len(sc['others']) > 1:
        for i in range(len(sc['others'])):
            c = copy.deepcopy(sc)
            del c['others'][i]
            yield c
    for k in ('bootstrap', 'sub_dt', 'block'):
        if sc['spec']['opts'].get(k):
            c = copy.deepcopy(sc)
            c['spec']['opts'].pop(k)
            yield c
    if sc['advance']:
        yield dict(copy.deepcopy(sc), advance=0)
