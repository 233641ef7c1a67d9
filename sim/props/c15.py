"""C15: the time intervals are those requested, on whatever clock the run was recorded."""
import copy
from fractions import Fraction

import numpy as np

from .. import world as W
from . import c06

ID = 'C15'
LEVEL = 'exploration'
TIERS = {'quick': dict(runs=2500, budget=240, redo=20), 'thorough': dict(runs=40000, budget=1500, redo=100)}
RULE = ('a run reads one simulated trajectory on several clocks (time step, steps between frames, sub-sampling, given as they are or folded into one '
        'another) with one requested range, count and spacing; distinct = (clock, frames, range, count, spacing, route) combinations')
ASSUMPTIONS = ['a limit between two frames counts as the earlier one', 'limits are within the length of the run, the lower at most the upper',
               'spacing is judged to within one frame']
REAL = ['kinisi', 'ASE, pymatgen, MDAnalysis']
STUBS = ['clock of the simulation run', 'MDAnalysis reader over simulated frames', 'progress display']
STEPS = ('0.001', '0.002', '0.0005', '0.01', '0.02', '0.05', '0.1', '0.2', '0.15', '0.3', '0.7', '0.025', '0.0025', '1', '2', '5', '20.455', '0.0004838',
         '0.0333', '1.5', '3', '0.007', '41.341374')


def steps_of(clock):
    return float(clock[0]), clock[1], clock[2]


def fragile(clock, n):
    """whether the rounding of floating point numbers puts n frames below n"""
    ts, skip, k = steps_of(clock)
    x = skip * k * ts
    lit = float(n * Fraction(clock[0]) * skip * k)
    return any(int(y / x) != n for y in (n * x, n * ts * skip * k, lit))


def gen(rng, tier, idx):
    w = W.gen_world(rng, npt_ok=False, tmin=6, tmax=40)
    w['reps'] = 1
    ts = rng.choice(STEPS) if rng.random() < 0.7 else f'{rng.randrange(1, 10**rng.choice((1, 2, 3, 4)))}e-{rng.randrange(0, 5)}'
    clock = [ts, rng.choice((1, 1, 2, 3, 5, 7, 10, 20, 25, 50, 100)), rng.choice((1, 1, 1, 2, 3, 4))]
    r = rng.random()
    if r < 0.05:
        T, w['nm'], w['nf'] = rng.choice((101, 115, 150, 201, 257, 1000)), 2, 0
    else:
        T = rng.randrange(6, 64)
    odd = [n for n in range(6, 64) if fragile(clock, n)]
    if odd and r > 0.4:
        T = rng.choice(odd)
    w['T'] = T * clock[2] - rng.randrange(clock[2])
    w['k'] = clock[2]
    o = W.gen_opts(rng, w)
    o.pop('charge', None)
    o['charge'] = 1
    lim = {}

    def pick(lo, hi):
        odd = [n for n in range(lo, min(hi, 400) + 1) if fragile(clock, n)]
        return rng.choice(odd) if odd and rng.random() < 0.6 else rng.randrange(lo, hi + 1)
    r = rng.random()
    if r > 0.3:
        a = pick(1, max(1, T // 2)) if r > 0.5 else None
        b = pick(a or 2, T) if r < 0.5 or r > 0.65 else None
        for name, n in (('min', a), ('max', b)):
            if n is not None:
                how = rng.choice(('left', 'right', 'literal', 'literal', 'between'))
                if how == 'between' and (n == T if name == 'max' else n == b):
                    how = 'literal'
                lim[name] = [n, how, rng.choice((0.05, 0.3, 0.5, 0.9, 0.999))]
        if r > 0.97:
            lim['min'] = [0, 'left', 0]
    n = None if rng.random() < 0.4 else rng.choice((1, 2, 3, rng.randrange(2, T + 1), rng.randrange(2, T + 1), T, 2 * T, 7))
    dels = [dict(route=rng.choice(('ase', 'pmg', 'mda')), clock=c) for c in rng.sample(('own', 'own', 'folded', 'step', 'dropped', 'skipped'), rng.choice((1, 2, 3)))]
    return dict(world=w, clock=clock, T=T, opts=o, lim=lim, n=n, spacing=rng.choice(('linear', 'linear', None, 'logarithmic')), dels=dels)


def check_intervals(run, x, lo, hi, n, log, what):
    """x: the intervals used, in frames"""
    run.expect(len(x) > 0 and np.all(np.diff(x) > 0), 'order', f'{what}: the intervals are not increasing and distinct: {list(x[:12])}')
    run.expect(x[0] == lo, 'range', f'{what}: the shortest interval is {x[0]} frames, requested {lo}')
    run.expect(x[-1] <= hi, 'range', f'{what}: the longest interval is {x[-1]} frames, requested {hi}')
    run.expect(len(x) <= n, 'count', f'{what}: {len(x)} intervals, requested {n}')
    if n == 1:
        return
    run.expect(x[-1] == hi, 'range', f'{what}: the longest interval is {x[-1]} frames, requested {hi}')
    if log:
        grid = [lo * (hi / lo)**(i / (n - 1)) for i in range(n)]
        for g in grid:
            run.expect(np.min(np.abs(x - g)) < 1 + 1e-6, 'spacing', f'{what}: no interval near {g:.3f} frames: {list(x[:12])}')
        for v in x:
            run.expect(min(abs(v - g) for g in grid) < 1 + 1e-6, 'spacing', f'{what}: an interval of {v} frames does not belong there')
    else:
        m = min(n, hi - lo + 1)
        run.expect(len(x) == m, 'count', f'{what}: {len(x)} intervals, expected {m}')
        for i, v in enumerate(x):
            run.expect(abs(v - (lo + i * (hi - lo) / max(1, m - 1))) < 1 + 1e-6, 'spacing', f'{what}: interval {i} is {v} frames: not evenly spaced')


def run(sc, run):
    import kinisi.parser as kp
    w = sc['world']
    T, lim, n, log = sc['T'], sc['lim'], sc['n'], sc['spacing'] == 'logarithmic'
    ts0, skip0, k0 = sc['clock']
    period = Fraction(ts0) * skip0 * k0
    lo = max(1, lim['min'][0]) if 'min' in lim else 1
    hi = lim['max'][0] if 'max' in lim else T
    if lo >= T or lo > hi:
        return
    # there are no more than there are frames
    count = 100 if n is None else n
    count = min(count, T - (lim['min'][0] if 'min' in lim else 1) + 1)
    seen = None
    for i, d in enumerate(sc['dels']):
        c = d['clock']
        every = 1
        if c == 'own':
            clock = [float(ts0), skip0, k0]
        elif c == 'folded':  # everything in the time step
            clock = [float(period / k0), 1, k0]
        elif c == 'step':
            clock = [float(Fraction(ts0) * skip0), 1, k0]
        elif c == 'dropped':  # only every k-th frame was stored
            clock, every = [float(period), 1, 1], k0
        else:
            clock, every = [float(ts0), skip0 * k0, 1], k0
        o = dict(sc['opts'], k=clock[2])
        world = W.World(w)
        if every > 1:
            world = world.sub(every)
        world.w = dict(w, ts=clock[0], skip=clock[1], k=clock[2], T=world.T)
        step = clock[0] * clock[1] * clock[2]
        route = d['route']
        pp = W.parser_params(world, o, route)
        for name, key in (('min', 'min_dt'), ('max', 'max_dt')):
            if name in lim:
                m, how, part = lim[name]
                pp[key] = {'left': m * clock[0] * clock[1] * clock[2], 'right': m * step, 'literal': float(m * period),
                           'between': float((m + Fraction(part)) * period)}[how]
        if n is not None:
            pp['n_steps'] = n
        if sc['spacing'] is not None:
            pp['spacing'] = sc['spacing']
        what = (f"{T} frames {float(period):g} apart ({route}, time_step {clock[0]!r}, step_skip {clock[1]}, sub_sample_traj {clock[2]}), "
                f"min_dt {pp.get('min_dt')!r}, max_dt {pp.get('max_dt')!r}, n_steps {n}, {sc['spacing']}")
        make = {'ase': W.as_ase, 'pmg': W.as_structures, 'mda': W.as_universe}[route]
        src = make(world)
        K = {'ase': kp.ASEParser, 'mda': kp.MDAnalysisParser}.get(route, kp.PymatgenParser)
        unit = 1e-3 if route == 'pmg' else 1.0
        try:
            p = K(src, **pp)
        except Exception as e:  # noqa
            run.fail('unexpected-error', f'{what}: {type(e).__name__}: {str(e)[:200]}')
        x = np.asarray(p.delta_t, float) / (float(period) * unit)
        frames = np.rint(x).astype(int)
        run.expect(np.allclose(x, frames, rtol=1e-12, atol=1e-9), 'clock', f'{what}: the intervals are not whole frames: {x[:6]}')
        check_intervals(run, frames, lo, hi, count, log, what)
        run.expect(seen is None or np.array_equal(frames, seen), 'clock', lambda: f'{what}: the intervals differ from those on another clock')
        seen = frames
        if T > 300:
            continue
        # and the displacements are those over these intervals
        o.update(grid=dict(mode='given', list=[int(v) for v in frames]), tfac=unit)
        ref = W.reference([world], o)
        run.expect(len(p.disp_3d) == ref['rows'], 'displacements', f"{what}: {len(p.disp_3d)} sets of displacements, expected {ref['rows']}")
        if len(ref['dt']) == 0:
            continue
        try:
            an = W.construct(o['kind'], route, src, pp, W.uncertainty_params(o), charge=1)
        except Exception as e:  # noqa
            run.fail('unexpected-error', f'{what}: {type(e).__name__}: {str(e)[:200]}')
        c06.compare(run, an, o, ref, route, 0, what)
        run.log(i, route, c, len(frames), W.dig(W.observe(an, ppd=False)))
        run.count('fault:clock whose ticks round down' if fragile(sc['clock'], hi) or fragile(sc['clock'], lo) else 'clock exact')
    run.sig(ts0, skip0, k0, T, ','.join(f'{k}:{v[0]}:{v[1]}' for k, v in sorted(lim.items())), n, sc['spacing'], ','.join(d['route'] + d['clock'] for d in sc['dels']))


def shrink(sc):
    for i in range(len(sc['dels'])):
        if len(sc['dels']) > 1:
            c = copy.deepcopy(sc)
            del c['dels'][i]
            yield c
    for k in list(sc['lim']):
        c = copy.deepcopy(sc)
        del c['lim'][k]
        yield c
    if sc['n'] is not None:
        c = copy.deepcopy(sc)
        c['n'] = None
        yield c
    if sc['spacing'] is not None:
        c = copy.deepcopy(sc)
        c['spacing'] = None
        yield c
    for k in ('sub_dt', 'sampling'):
        if sc['opts'].get(k) not in (None, 'multi-origin'):
            c = copy.deepcopy(sc)
            c['opts'].pop(k)
            c['opts'].setdefault('sampling', 'multi-origin')
            yield c
    for k, v in (('drift', 0.0), ('cell', 'cubic'), ('mix', 'grouped'), ('nf', 0)):
        if sc['world'][k] != v:
            c = copy.deepcopy(sc)
            c['world'][k] = v
            yield c
