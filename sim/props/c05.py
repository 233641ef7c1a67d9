"""C05: an analysis step that does not finish changes nothing."""
import copy
import functools
import os

import emcee
import numpy as np
import scipy.optimize
import statsmodels.stats.correlation_tools as ct
import uravu.distribution as ud

from .. import boot
from .. import world as W
from ..core import in_fork
from ..sched import LineRecorder, choose_point

ID = 'C05'
LEVEL = 'exploration'
TIERS = {'quick': dict(runs=2200, budget=240, redo=25), 'thorough': dict(runs=60000, budget=1500, redo=150)}
RULE = ('a run performs a history of analysis steps and then one step in which a fault is injected at a source line or '
        'bytecode chosen from a fault-free dry run, at a progress write, or through its arguments; distinct = (step, point '
        'hit, exception, earlier history) combinations in which the step failed')
ASSUMPTIONS = ['one fault per step', 'interrupts arrive between bytecodes of kinisi or source lines of the sampler and '
               'distribution code it calls']
REAL = ['kinisi', 'emcee', 'scipy', 'uravu']
STUBS = ['asynchronous interrupts and allocation failures', 'progress display', 'entropy']

LIBS = [os.path.join(os.path.dirname(emcee.__file__), 'ensemble.py'), os.path.dirname(emcee.__file__) + '/moves/',
        os.path.dirname(emcee.__file__) + '/backends/', ud.__file__, ct.__file__,
        os.path.join(os.path.dirname(scipy.optimize.__file__), '_minpack_py.py'),
        os.path.join(os.path.dirname(scipy.optimize.__file__), '_minimize.py')]
KIN = boot.REPO + '/kinisi/'

EXC = {'kbd': KeyboardInterrupt, 'mem': MemoryError, 'exit': SystemExit, 'rt': lambda: RuntimeError('simulated'),
       'os': lambda: OSError(5, 'Input/output error'), 'pipe': lambda: BrokenPipeError(32, 'Broken pipe'),
       'val': lambda: ValueError('simulated')}

BAD = ('start_beyond', 'start_beyond', 'start_none', 'start_nan', 'walkers', 'walkers1', 'thin0', 'unknown', 'rs', 'huge_w',
       'huge_n', 'temperature', 'cond0', 'model_last', 'start_last', 'burn_str', 'cond_nan', 'samples0')


def gen(rng, tier, idx):
    spec = W.gen_simple(rng)
    kind = spec['opts']['kind']
    bare = rng.random() < 0.35
    which = lambda: rng.choice(('diff', 'jump', 'cond')) if bare else kind  # noqa
    hist = [[which(), W.gen_step(rng)] for _ in range(rng.choice((0, 1, 1, 1, 2)))]
    f = dict(kind=rng.choice(('line', 'line', 'line', 'op', 'op', 'lib', 'display', 'args', 'args')))
    what = 'step'
    if hist and rng.random() < 0.15:
        what = 'ppd'
        f['kind'] = rng.choice(('line', 'op', 'display', 'args'))
    if f['kind'] in ('line', 'op', 'lib'):
        f.update(u1=rng.random(), u2=rng.random(), exc=rng.choice(('kbd', 'kbd', 'mem', 'exit', 'rt', 'val')))
    elif f['kind'] == 'display':
        f.update(nth=rng.choice((0, 1, 2, 3, 5, 9)), exc=rng.choice(('os', 'pipe', 'kbd')))
    else:
        f['bad'] = rng.choice(BAD)
    return dict(spec=spec, bare=bare, hist=hist, step=[which(), W.gen_step(rng)], what=what, f=f,
                seeded=rng.random() < 0.6, restore=rng.choice((None, None, None, 'dict')), save=rng.random() < 0.15,
                gap=rng.choice((None, None, 'ppd')))


def build(sc):
    an = W.simple(sc['spec'])
    b = an._diff if sc['bare'] else an
    for which, s in sc['hist']:
        np.random.seed(s['seed'] % 2**32)
        go(b, sc, which, s, None)
    if sc['restore']:
        if sc['bare']:
            import kinisi.diffusion as kd
            b = kd.Bootstrap.from_dict(b.to_dict())
        else:
            b = type(b).from_dict(b.to_dict())
    return b


def go(b, sc, which, s, bad, progress=False, seeded=None):
    p = W.step_params(s, sc['seeded'] if seeded is None else seeded, progress)
    st = W.start_of(b, s)
    T = s.get('temperature', 500)
    if bad == 'start_beyond':
        st = float(b.dt[-1] * 2 + 1)
    elif bad == 'start_none':
        st = None
    elif bad == 'start_nan':
        st = float('nan')
    elif bad == 'start_last':
        st = float(b.dt[-1])
    elif bad == 'model_last':
        st, p['model'] = float(b.dt[-1]), True
    elif bad == 'walkers':
        p['n_walkers'] = 1
    elif bad == 'walkers1':
        p['n_walkers'] = 0
    elif bad == 'thin0':
        p['thin'] = 0
    elif bad == 'unknown':
        p['n_walker'] = 3
    elif bad == 'rs':
        p['random_state'] = 'seed'
    elif bad == 'huge_w':
        p['n_walkers'] = 10**16
    elif bad == 'huge_n':
        p['n_samples'] = 10**16
    elif bad == 'temperature':
        T = 'hot' if which == 'cond' else T
        p['n_burn'] = None if which != 'cond' else p['n_burn']
    elif bad == 'cond0':
        p['cond_max'] = 'x'
    elif bad == 'burn_str':
        p['n_burn'] = 'x'
    elif bad == 'cond_nan':
        p['cond_max'] = float('nan')
    elif bad == 'samples0':
        p['n_samples'] = 0
        p['n_burn'] = 0
    if sc['bare']:
        if which == 'diff':
            b.diffusion(st, **p)
        elif which == 'jump':
            b.jump_diffusion(st, **p)
        else:
            b.conductivity(st, T, s.get("volume", 1000.0), **p)
    elif which == 'diff':
        b.diffusion(st, p)
    elif which == 'jump':
        b.jump_diffusion(st, p)
    else:
        b.conductivity(st, T, p)


def act(b, sc, bad=None, progress=False):
    """The step under test."""
    which, s = sc['step']
    np.random.seed(s['seed'] % 2**32)
    if sc['what'] == 'step':
        go(b, sc, which, s, bad, progress)
        return None
    kw = dict(n_posterior_samples=5, n_predictive_samples=2, progress=progress)
    if bad:
        kw.update({'walkers': {'n_posterior_samples': -1}, 'walkers1': {'n_predictive_samples': -1},
                   'huge_w': {'n_posterior_samples': 10**16}, 'huge_n': {'n_predictive_samples': 10**16}}.get(
                       bad, {'n_posterior_samples': 'x'}))
    r = b.posterior_predictive(**kw) if sc['bare'] else b.posterior_predictive(kw)
    return W.C(r)


def prefixes(f):
    return [KIN] if f['kind'] in ('line', 'op') else [KIN] + LIBS


@functools.lru_cache(None)
def swallowed(path):
    """Lines of a library at which it drops every exception itself (a bare except without a raise)."""
    import ast
    out = set()
    for t in ast.walk(ast.parse(open(path).read())):
        if isinstance(t, ast.Try):
            for h in t.handlers:
                if (h.type is None or getattr(h.type, 'id', '') in ('BaseException', 'Exception')) and \
                        not any(isinstance(x, ast.Raise) for x in ast.walk(h)):
                    out |= set(range(t.lineno, t.end_lineno + 1))
    return out


def dry(sc, b):
    """The step without a fault, in a process of its own."""
    progress = sc['f']['kind'] == 'display'
    rec = None
    if sc['f']['kind'] in ('line', 'op', 'lib'):
        rec = LineRecorder(prefixes(sc['f']), opcodes=sc['f']['kind'] == 'op')
        with rec:
            v = act(b, sc, None, progress)
    else:
        v = act(b, sc, None, progress)
    t = None
    if rec is not None:
        ev = rec.events
        if sc['f']['kind'] == 'lib':
            keep = [(i, e) for i, e in enumerate(ev) if not e[0].startswith(KIN) and e[1] not in swallowed(e[0])]
            if keep:
                t = keep[choose_point([e for _, e in keep], sc['f']['u1'], sc['f']['u2'])][0]
        if t is None:
            t = choose_point(ev, sc['f']['u1'], sc['f']['u2'])
    return W.observe(b), v, t


def saved_view(b, sc):
    b.save('after_failure')
    return W.observe(type(b).load('after_failure'))


def run(sc, run):
    f = sc['f']
    b = run.call('the history before the fault', build, sc)
    before = W.observe(b)
    st, r = in_fork(dry, sc, b)
    if st != 'ok':
        run.fail('unexpected-error', f'the step without a fault ended with {st} {r!r}'[:300])
    after, value, target = r
    run.log('before', W.dig(before), 'after', W.dig(after), 'point', target)
    rec = None
    bad = None
    fired = None
    progress = f['kind'] == 'display'
    if progress:
        run.stderr.fail_at = run.stderr.writes + f['nth']
        run.stderr.exc = EXC[f['exc']]()
    try:
        if f['kind'] in ('line', 'op', 'lib'):
            rec = LineRecorder(prefixes(f), target, EXC[f['exc']](), opcodes=f['kind'] == 'op')
            with rec:
                v = act(b, sc)
        elif f['kind'] == 'args':
            bad = f['bad']
            v = act(b, sc, bad)
        else:
            v = act(b, sc, None, True)
        out = ('ok', v)
    except BaseException as e:  # noqa
        out = ('exc', e)
    if rec is not None:
        fired = rec.fired
    elif progress:
        fired = f"display:{f['nth']}" if run.stderr.fired else None
        run.stderr.fail_at = None
    else:
        fired = f'args:{bad}'
    got = W.observe(b)
    name = sc['step'][0] if sc['what'] == 'step' else 'posterior prediction'
    desc = f"{name} step, {f.get('exc', 'rejected argument')} at {fired}, after {len(sc['hist'])} earlier steps"
    run.log(f['kind'], fired, out[0], type(out[1]).__name__ if out[0] == 'exc' else '', W.dig(got))
    if out[0] == 'exc' and fired is None:
        run.fail('unexpected-error', f'{desc}: raised {type(out[1]).__name__}: {out[1]} without a fault')
    if fired and f['kind'] != 'args':
        run.count(f"fault:{f['kind']} {f['exc']}")
    if out[0] == 'exc':
        if f['kind'] == 'args':
            run.count(f'fault:rejected {bad}')
        ok = got == before
        if not ok and f['kind'] != 'args' and sc['what'] == 'step' and got == after:
            run.count('probe:interrupt after completion')
            ok = True
        elif ok:
            run.count('probe:rolled back')
        run.count('checks')
        if not ok:
            run.same(got, before, 'partial-results', f'{desc}: after the failure the analysis differs from before')
        run.sig(name, sc['bare'], f['kind'], fired, type(out[1]).__name__, len(sc['hist']), sc['restore'])
    elif f['kind'] != 'args':
        run.same(got, after if sc['what'] == 'step' else before, 'partial-results',
                 f'{desc}: the fault was absorbed but the results differ from a fault-free step')
        run.same(out[1], value, 'partial-results', f'{desc}: the fault was absorbed but the prediction differs')
        if fired:
            run.count('probe:absorbed')
    else:
        run.count('probe:argument accepted')
        return
    if sc['save'] and not sc['bare']:
        st, v = in_fork(saved_view, b, sc)
        if st != 'ok':
            run.fail('cannot-save', f'{desc}: saving after the failure ended with {st} {v!r}'[:300])
        run.same(v, got, 'saved-differs', f'{desc}: what is saved after the failure differs from what is shown')
    if sc['gap'] == 'ppd' and out[0] == 'exc':
        W.observe(b)
    v = run.call(f'{desc}: running the step again', act, b, sc)
    run.same(W.observe(b), after if sc['what'] == 'step' else got, 'rerun-differs',
             f'{desc}: running the step again gives another result than never having been interrupted')
    run.same(v, value, 'rerun-differs', f'{desc}: predicting again gives another result')


def shrink(sc):
    for i in range(len(sc['hist'])):
        if sc['what'] == 'step' or len(sc['hist']) > 1:
            c = copy.deepcopy(sc)
            del c['hist'][i]
            yield c
    for k, v in (('restore', None), ('save', False), ('gap', None)):
        if sc[k] != v:
            c = copy.deepcopy(sc)
            c[k] = v
            yield c
    for k in ('bootstrap', 'sub_dt', 'block'):
        if sc['spec']['opts'].get(k):
            c = copy.deepcopy(sc)
            c['spec']['opts'].pop(k)
            yield c
    for k in ('model', 'fit_intercept', 'cond_max'):
        for s in [sc['step'][1]] + [h[1] for h in sc['hist']]:
            if k in s:
                x = s.pop(k)
                yield copy.deepcopy(sc)
                s[k] = x
    if sc['f']['kind'] == 'op':
        c = copy.deepcopy(sc)
        c['f']['kind'] = 'line'
        yield c
