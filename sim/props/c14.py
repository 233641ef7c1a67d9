"""C14: the memory ceiling holds for every route, and running into it leaves everything as it was."""
import copy
import resource
import tracemalloc

import numpy as np

from .. import world as W

ID = 'C14'
LEVEL = 'exploration'
TIERS = {'quick': dict(runs=3000, budget=240, redo=20), 'thorough': dict(runs=40000, budget=1500, redo=100)}
RULE = ('a run delivers a trajectory (one or more routes, whole, in pieces, or as replicas) to parsers and analyses under a sequence of '
        'memory budgets around what the displacements need; distinct = (route, delivery, entry point, settings, budget outcomes) combinations')
ASSUMPTIONS = ['the ceiling is per trajectory (of replicas, each has its own)', 'budgets within one part in a million of the need are not tried',
               'single-origin sampling may be refused earlier than necessary (its need is overestimated)']
REAL = ['kinisi', 'ASE, pymatgen, MDAnalysis']
STUBS = ['memory budget', 'MDAnalysis reader over simulated frames', 'progress display']
ROUTES = ('ase', 'pmg', 'mda')


def gen(rng, tier, idx):
    if idx % 250 == 7:
        return dict(huge=rng.choice((1.03, 1.2)), single=rng.random() < 0.2)
    w = W.gen_world(rng, tmin=6, tmax=30)
    w['npt'] = False
    w['reps'] = rng.choice((1, 1, 1, 2, 3))
    if rng.random() < 0.25:
        w['T'] = rng.choice((60, 90, 120))
        w['nm'] = max(w['nm'], 6)
    o = W.gen_opts(rng, w)
    if o.get('charge') == 'list':
        o['charge'] = 2
    o.setdefault('charge', 1)
    if rng.random() < 0.25:
        o['k'] = w['k'] = 2
        w['T'] = max(w['T'], 8)
    Ts = -(-w['T'] // o.get('k', 1))
    if rng.random() < 0.4:
        r = rng.random()
        if r < 0.3:
            o['grid'] = dict(mode='all', max=rng.randrange(2, Ts + 1))
        elif r < 0.7:
            k = rng.randrange(1, max(2, Ts // 2))
            o['grid'] = dict(mode='stride', k=k, m=rng.randrange(2, Ts // k + 1) if Ts // k >= 2 else 1)
        else:
            o['grid'] = dict(mode='log', max=Ts, n=rng.randrange(2, Ts + 1))
    pool = [i for i, s in enumerate(W.World(w).species)]
    if rng.random() < 0.2:
        o['sel'] = sorted(rng.sample(pool, rng.randrange(2, len(pool) + 1))) if len(pool) > 1 else [0]
    tries = []
    for _ in range(rng.choice((2, 3, 4))):
        tries.append([rng.choice(('parser', 'parser', 'analysis')), rng.choice(('zero', 'part', 'below', 'above', 'just below', 'just above', 'plenty', 'default')),
                      rng.random()])
    return dict(world=w, opts=o, route=rng.choice(ROUTES), tries=tries, cuts=rng.random() < 0.3)


def parser_class(route):
    import kinisi.parser as kp
    return {'ase': kp.ASEParser, 'mda': kp.MDAnalysisParser}.get(route, kp.PymatgenParser)


def measured(f):
    """-> result or MemoryError, and how much more memory was held at once than before"""
    tracemalloc.start()
    try:
        tracemalloc.reset_peak()
        before = tracemalloc.get_traced_memory()[0]
        try:
            r = f()
        except MemoryError as e:
            r = e
        return r, tracemalloc.get_traced_memory()[1] - before
    finally:
        tracemalloc.stop()


def run(sc, run):
    import kinisi.parser as kp
    if 'huge' in sc:
        n = 1500
        T = int(8e9 * sc['huge'] / (n * 24 * 50))
        one = np.broadcast_to(np.zeros((1, 1, 3)), (1, T, 3))
        kw = dict(memory_limit=8.0) if sc['single'] else {}
        what = f"displacements of {8 * sc['huge']:.2f} GB under the default ceiling"
        run.count('fault:budget exceeded')
        # a machine that cannot hold them
        room = int(open('/proc/self/statm').read().split()[0]) * resource.getpagesize() + 3 * 10**9
        resource.setrlimit(resource.RLIMIT_AS, (room, resource.RLIM_INFINITY))
        try:
            kp.Parser(one, [0] * n, [], 1.0, 1, progress=False, **kw)
            run.fail('not-refused', f'{what} were not refused')
        except MemoryError as e:
            run.expect('limit' in str(e), 'not-refused', f'{what}: the machine ran out of memory before they were refused ({e})')
        run.log('huge', 'refused')
        run.sig('huge')
        return
    w, o = sc['world'], sc['opts']
    worlds = [W.World(w, r) for r in range(w['reps'])]
    route = sc['route']
    pp = W.parser_params(worlds[0], o, route)
    up = W.uncertainty_params(o)
    make = {'ase': W.as_ase, 'pmg': W.as_structures, 'mda': W.as_universe}[route]
    src = [make(x) for x in worlds]
    K = parser_class(route)
    label = f"{route}, {w['reps']} trajectories of {w['T']} frames, {o['sampling']}"
    need, full, exact, big = [], [], True, []
    for s in src:
        try:
            p = K(s, **dict(pp, memory_limit=1e6))
        except MemoryError as e:
            run.fail('refused', f'{label}: refused under a ceiling of a million gigabytes: {e}')
        sizes = [np.asarray(d).nbytes for d in p.disp_3d]
        need.append(sum(sizes))
        full.append(p)
        big.append(max(sizes, default=0))
        exact = exact and o['sampling'] == 'multi-origin' and len(sizes) == len(p.delta_t)
    if not all(need):
        return
    dtype = 'identical' if w['reps'] > 1 else 'consecutive' if sc['cuts'] and route in ('ase', 'pmg') else None
    whole = src if w['reps'] > 1 else src[0]
    if dtype == 'consecutive':
        c = len(src[0]) // 3
        whole = [src[0][:c], src[0][c:]]
    before = [W.snapshot_inputs(route, s) for s in src]
    most = max(need)
    reference = None
    outcome = []
    for i, (entry, kind, u) in enumerate(sc['tries']):
        share = {'zero': 0.0, 'part': 0.05 + 0.85 * u, 'below': 0.9, 'above': 1.1, 'just below': 1 - 2e-6, 'just above': 1 + 2e-6, 'plenty': 5.0,
                 'default': None}[kind]
        q = dict(pp) if share is None else dict(pp, memory_limit=share * most * 1e-9)
        held = W.params_snapshot(q)
        budget = 8e9 if share is None else share * most
        what = f'{label}: {entry} under a ceiling of {kind} ({share} of the {most} bytes needed)'
        fits = budget > most
        if entry == 'parser':
            j = need.index(most)
            r, peak = measured(lambda: K(src[j], **q))
        else:
            def build():
                return W.construct(o['kind'], route, whole, q, dict(up), dtype=dtype, charge=o['charge'])
            try:
                r = build()
            except MemoryError as e:
                r = e
            except Exception as e:  # noqa
                if fits and exact:
                    run.fail('unexpected-error', f'{what} raised {type(e).__name__}: {str(e)[:200]}')
                return
        refused = isinstance(r, MemoryError)
        outcome.append('refused' if refused else 'built')
        run.count('fault:budget exceeded' if refused else 'budgets sufficient')
        if not fits:
            run.expect(refused, 'not-refused', f'{what} was not refused')
        elif exact:
            run.expect(not refused, 'refused', lambda: f'{what} was refused although the displacements fit: {r}')
        if refused:
            run.expect('limit' in str(r), 'refused', f'{what}: the refusal does not say why ({r})')
            if entry == 'parser' and need[j] > 8 * big[j] and need[j] > 100000:
                # what it takes without the displacements: everything for a single time interval
                step = w['ts'] * w['skip'] * o.get('k', 1)
                _, least = measured(lambda: K(src[j], **dict(pp, memory_limit=1e6, min_dt=step, max_dt=step, n_steps=1, spacing='linear')))
                run.count('allocations compared')
                run.expect(peak < least + 2 * big[j] + 0.25 * need[j] + 30000, 'late',
                           f'{what}: {peak} bytes were allocated before the refusal ({least} for a single time interval)')
        elif entry == 'parser':
            run.expect(sum(np.asarray(d).nbytes for d in r.disp_3d) <= budget, 'over', f'{what} holds more than that')
            same = len(r.disp_3d) == len(full[j].disp_3d) and all(np.array_equal(a, b) for a, b in zip(r.disp_3d, full[j].disp_3d))
            run.expect(same and np.array_equal(r.delta_t, full[j].delta_t) and np.array_equal(r._n_o, full[j]._n_o), 'differs',
                       f'{what} gives other displacements than without a ceiling')
        else:
            if reference is None:
                reference = W.observe(W.construct(o['kind'], route, whole, dict(pp, memory_limit=1e6), dict(up), dtype=dtype, charge=o['charge']), ppd=False)
            run.same(W.observe(r, ppd=False), reference, 'differs', f'{what} gives another analysis than without a ceiling')
        run.same([W.snapshot_inputs(route, s) for s in src], before, 'input-changed', f'{what} changed the trajectory')
        run.same(W.params_snapshot(q), held, 'input-changed', f'{what} changed the parameters')
        run.log(i, entry, kind, outcome[-1])
    run.sig(route, dtype, o['kind'], o['sampling'], bool(o.get('grid')), ','.join(f'{t[0]}:{t[1]}:{x}' for t, x in zip(sc['tries'], outcome)))


def shrink(sc):
    if 'huge' in sc:
        return
    for i in range(len(sc['tries'])):
        if len(sc['tries']) > 1:
            c = copy.deepcopy(sc)
            del c['tries'][i]
            yield c
    if sc['world']['T'] > 12:
        c = copy.deepcopy(sc)
        c['world']['T'] = 12
        c['opts'].pop('grid', None)
        yield c
    for k in ('grid', 'sel', 'sub_dt', 'k'):
        if k in sc['opts']:
            c = copy.deepcopy(sc)
            c['opts'].pop(k)
            if k == 'k':
                c['world'].pop('k', None)
            yield c
