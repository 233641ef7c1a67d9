"""C06: results do not depend on how a trajectory is delivered."""
import numpy as np

from .. import world as W
from ..core import HarnessError

ID = 'C06'
LEVEL = 'exploration'
TIERS = {'quick': dict(runs=5000, budget=220, redo=20), 'thorough': dict(runs=20000, budget=1500, redo=40)}
RULE = ('a run is a random ground truth (cell, drift, species order, lengths) with random settings, delivered several '
        'times through simulated sources (route x segmentation x periodic images x reader position x read splitting); '
        'distinct = different (route, delivery shape, settings) combinations whose observables were compared with the '
        'reference evaluation')
ASSUMPTIONS = ['runs move less than half a cell per frame', 'MDAnalysis positions are single precision: compared to 2e-4 A',
               'the first frame also stands for the state one interval earlier (kinisi convention)',
               'time steps are dyadic, so the interval grid is unambiguous']
REAL = ['kinisi parsers, analyzers and bootstraps', 'ASE', 'pymatgen', 'MDAnalysis iteration', 'file reads through libc']
STUBS = ['MDAnalysis reader over simulated frames', 'libc read (short, interrupted)', 'progress clock and display']


def gen(rng, tier, idx):
    w = W.gen_world(rng, tmin=4, tmax=24 if rng.random() < 0.9 else 60)
    if rng.random() < 0.02:
        w['T'] = rng.randrange(98, 140)
    sel_mode = rng.choice(('specie', 'specie', 'specie', 'flat', 'mol'))
    if sel_mode == 'mol':
        m = rng.choice((2, 3))
        w['molecules'] = m
        w['nm'] = m * rng.choice((1, 2, 3))
        w['npt'] = False
    o = W.gen_opts(rng, w)
    if rng.random() < 0.25:
        o['k'] = w['k'] = rng.choice((2, 3, 4))
    W0 = W.World(w)
    if sel_mode == 'flat':
        n = len(W0.species)
        q = sorted(rng.sample(range(n), rng.randrange(min(2, n), n + 1)))
        if rng.random() < 0.3:
            rng.shuffle(q)
        o['sel'] = q
    elif sel_mode == 'mol':
        o['sel'] = W0.mobile
        o['molecules'] = m
        o['masses'] = rng.choice((None, [1.0, 16.0, 3.0][:m]))
    if rng.random() < 0.3:
        pool = [i for i in range(len(W0.species)) if i not in (o.get('sel') or W0.mobile)]
        o['fw'] = rng.choice(([], sorted(rng.sample(pool, rng.randrange(0, len(pool) + 1)))))
    if rng.random() < 0.2:
        o['bootstrap'] = [8, 20, 5]
    if rng.random() < 0.5:
        o['progress'] = True
    Ts = -(-w['T'] // o.get('k', 1))
    if Ts < 2:
        w['T'] = 2 * o.get('k', 1)
        Ts = 2
    if rng.random() < 0.3:
        r = rng.random()
        if r < 0.2:
            o['grid'] = dict(mode='all', max=rng.randrange(2, Ts + 1))
        elif r < 0.65:
            k = rng.randrange(1, max(2, Ts // 2 + 1))
            o['grid'] = dict(mode='stride', k=k, m=rng.randrange(1, Ts // k + 1))
        else:
            o['grid'] = dict(mode='log', max=Ts, n=rng.randrange(2, Ts + 1))
    reps = rng.choice((1, 1, 1, 2, 3))
    w['reps'] = reps
    if o.get('charge') == 'list':
        n_each = len(o['sel']) // o.get('molecules', 1) if 'sel' in o else w['nm']
        o['charge'] = [rng.choice((1.0, 2.0, -1.0, 0.5)) for _ in range(n_each * reps)]
    elif 'charge' not in o:
        o['charge'] = 1
    dels = []
    for _ in range(rng.choice((1, 2, 2, 3))):
        route = rng.choice(('ase', 'pmg', 'xdatcar', 'file', 'file', 'mda', 'asetraj'))
        d = dict(route=route, images=rng.choice((0, 0, 1, 2)))
        if reps > 1:
            d['order'] = rng.sample(range(reps), reps)
        elif route != 'mda' and rng.random() < 0.7:
            d['cuts'] = [rng.randrange(0, w['T'] + 1) for _ in range(rng.choice((0, 1, 1, 2, 3, 12)))]
            if rng.random() < 0.3 and d['cuts']:
                d['cuts'].append(rng.choice(d['cuts'] + [0, w['T']]))  # an empty piece
        if route == 'ase':
            d['pbc'] = rng.random() < 0.8
        if route == 'mda':
            d['position'] = rng.randrange(w['T'])
            if rng.random() < 0.3 and o.get('sel') is None and o.get('fw') is None:
                d['sub_atoms'] = rng.choice((2, 3))
        if route in ('file', 'asetraj'):
            d['reads'] = [[rng.randrange(0, 6), rng.choice(('short', 'short1', 'eintr'))]
                          for _ in range(rng.choice((0, 1, 3)))]
            if rng.random() < 0.3:
                d['all_short'] = rng.choice((1, 300, 900))
            d['gz'] = route == 'file' and rng.random() < 0.3
        dels.append(d)
    if rng.random() < 0.3:  # a clock whose ticks are no floating-point numbers
        w['ts'], w['skip'] = rng.choice((0.001, 0.002, 0.01, 0.1, 0.3, 0.7, 0.0025, 20.455, 0.0004838, 0.771)), rng.choice((1, 2, 3, 5, 7, 10, 25, 100))
    return dict(world=w, opts=o, dels=dels)


def close(a, b, rtol, atol):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= atol + rtol * np.abs(b)))


def compare(run, an, o, ref, route, images, what):
    kind = o['kind']
    mda = route == 'mda'
    names = {'diff': ('msd', 'msd_std'), 'jump': ('mstd', 'mstd_std'), 'cond': ('mscd', 'mscd_std')}[kind]
    dt = np.asarray(an.dt)
    run.expect(close(dt, ref['dt'], 1e-12, 0), 'time-intervals',
               lambda: f'{what}: dt {dt[:5]}...({len(dt)}) expected {ref["dt"][:5]}...({len(ref["dt"])})')
    m, s = np.asarray(getattr(an, names[0])), np.asarray(getattr(an, names[1]))
    if mda:
        e = 2e-4 * (4 if images else 1)
        n = max((len(x) for x in ref['dr']), default=1)
        natoms = an_atoms(ref, o)
        cmax = np.max(np.abs(o['charge'])) if kind == 'cond' else 1.0
        nn = natoms * max(cmax, 1) if kind != 'diff' else 1
        at = (2 * e * nn * np.sqrt(ref['m'].max()) + (e * nn)**2) if len(ref['m']) else e
        run.expect(close(m, ref['m'], 1e-3, at), names[0], lambda: f'{what}: {m} expected {ref["m"]}')
        run.expect(close(s, ref['s'], 1e-2, 2 * at), names[1], lambda: f'{what}: {s} expected {ref["s"]}')
        ed = 3 * e
    else:
        sc = max(ref['m'].max(), 1e-12) if len(ref['m']) else 1
        run.expect(close(m, ref['m'], 1e-7, 1e-10 * sc + 1e-13), names[0], lambda: f'{what}: {m} expected {ref["m"]}')
        run.expect(close(s, ref['s'], 1e-6, 1e-9 * sc + 1e-12), names[1], lambda: f'{what}: {s} expected {ref["s"]}')
        ed = 1e-7
    dr = an.dr
    run.expect(len(dr) == len(ref['dr']), 'dr', lambda: f'{what}: {len(dr)} displacement distributions, expected '
               f'{len(ref["dr"])}')
    for i, d in enumerate(dr):
        run.expect(close(np.sort(np.asarray(d.samples).ravel()), ref['dr'][i], 0, ed), 'dr',
                   lambda: f'{what}: displacement distribution {i} differs')
    run.expect(close(an.volume, ref['volume'], 1e-5 if mda else 1e-9, 0), 'volume',
               lambda: f'{what}: volume {an.volume} expected {ref["volume"]}')


def an_atoms(ref, o):
    return 12


def deliver(run, w, worlds, o, d, i):
    """Build the source in the simulated world and hand it to kinisi."""
    route = d['route']
    o = dict(o)
    if d.get('sub_atoms'):
        sel = [a for a in range(0, len(worlds[0].species), d['sub_atoms']) if a in worlds[0].mobile]
        if len(sel) >= 2:
            o['sub_atoms'] = d['sub_atoms']
            if isinstance(o.get('charge'), list):
                n = len(worlds[0].mobile)
                keep = [worlds[0].mobile.index(a) for a in sel]
                o['charge'] = [o['charge'][r * n + a] for r in range(len(worlds)) for a in keep]
    o['tfac'] = 1e-3 if route in ('pmg', 'xdatcar', 'file') else 1.0
    order = d.get('order') or [0]
    o2 = dict(o)
    if isinstance(o.get('charge'), list) and len(order) > 1:
        per = len(o['charge']) // len(order)
        o2['charge'] = sum((o['charge'][r * per:(r + 1) * per] for r in order), [])
    ref = W.reference([worlds[r] for r in order], o2)
    ref_all = W.reference(worlds, o)
    if ref['rows'] == 0:
        return  # a single particle observed once: there is nothing to analyse
    pp = W.parser_params(worlds[0], o, route)
    up = W.uncertainty_params(o)
    img = d['images']
    segs = None
    if d.get('cuts') is not None:
        segs = W.cuts_to_segments(w['T'], d['cuts'])
        if route in ('xdatcar', 'file', 'asetraj'):
            segs = [s for s in segs if len(s)]
    dtype = 'identical' if len(order) > 1 else ('consecutive' if segs is not None else None)
    parts = [(worlds[0], s) for s in segs] if segs is not None else [(worlds[r], range(w['T'])) for r in order]
    lib = None
    r = {'asetraj': 'ase'}.get(route, route)
    if route == 'ase':
        src = [W.as_ase(x, img, f, d.get('pbc', True)) for x, f in parts]
    elif route == 'pmg':
        src = [W.as_structures(x, img, f) for x, f in parts]
    elif route in ('xdatcar', 'file'):
        names = []
        for n, (x, f) in enumerate(parts):
            p = f'{run.scratch}/XDATCAR_{i}_{n}' + ('.gz' if d.get('gz') else '')
            W.write_xdatcar(p, x, f, img, d.get('gz'))
            names.append(p)
        if route == 'xdatcar':
            from pymatgen.io.vasp import Xdatcar
            src = [Xdatcar(p) for p in names]
        else:
            src = names
    elif route == 'asetraj':
        import ase.io
        src = []
        for n, (x, f) in enumerate(parts):
            p = f'{run.scratch}/t_{i}_{n}.traj'
            with ase.io.Trajectory(p, 'w') as t:
                for a in W.as_ase(x, img, f):
                    t.write(a)
            src.append(p)
    else:
        src = [W.as_universe(x, img) for x, _ in parts]
        for u in src:
            u.trajectory[d['position']]
    if dtype is None:
        src = src[0]
    if route in ('file', 'asetraj'):
        lib = W.simio()
        lib.sim_arm(run.scratch.encode())
        for nth, what in d.get('reads', []):
            if what == 'eintr':
                lib.sim_plan(1, nth, 1, 4, 0)
            else:
                lib.sim_plan(1, nth, 2, 1 if what == 'short1' else 500, 0)
        if d.get('all_short'):
            lib.sim_plan(1, 0, 2, d['all_short'], 1)
    if route == 'asetraj':
        import ase.io
        try:
            src = [ase.io.Trajectory(p) for p in src] if isinstance(src, list) else ase.io.Trajectory(src)
        except Exception:
            # ASE itself may give up on an interrupted read before kinisi is reached: deliver without it
            lib.sim_clear_plan()
            run.count('ase gave up')
            src = [ase.io.Trajectory(p) for p in src] if isinstance(src, list) else ase.io.Trajectory(src)
    what = f'delivery {i} ({route}, {dtype}, segments {[len(s) for s in segs] if segs is not None else None})'
    try:
        an = W.construct(o['kind'], r, src, pp, up, dtype=dtype, charge=W.charge_of(o2))
    except Exception as e:
        raised = e
        if route == 'asetraj' and lib.sim_fired(2) + lib.sim_fired(1):
            # numpy.fromfile-style short reads are reported by ASE as errors: allowed, but never a wrong result
            run.count('ase gave up')
            lib.sim_disarm()
            return
        run.fail('unexpected-error', f'{what} raised {type(e).__name__}: {str(e)[:300]}')
    finally:
        if lib:
            run.count('fault:short read', lib.sim_fired(2))
            run.count('fault:interrupted read', lib.sim_fired(1))
            lib.sim_disarm()
    compare(run, an, o2, ref, 'mda' if route == 'mda' else r, img, what)
    compare(run, an, o, ref_all, 'mda' if route == 'mda' else r, img, what + ' (replica order)')
    run.count('frames delivered', w['T'] * len(parts))
    run.count(f'probe:route {route} {dtype}')
    if segs is not None and any(len(s) == 0 for s in segs):
        run.count('probe:empty segment')
    if img and not w['npt']:
        run.count('fault:periodic image jumps')
    if d.get('position'):
        run.count('fault:reader left at another frame')
    run.sig(route, dtype, [len(s) for s in segs] if segs is not None else len(order), bool(img), o['kind'], o['dims'],
            o.get('k'), o.get('sub_dt'), o['sampling'], bool(o.get('grid')), 'sel' in o, o.get('molecules'),
            'fw' in o and len(o['fw']), w['cell'], w['npt'])
    run.log(what, o['kind'], o['dims'], 'dt', len(ref['dt']), 'obs', W.dig(W.observe(an, ppd=False)))


def run(sc, run):
    w, o = sc['world'], sc['opts']
    worlds = [W.World(w, r) for r in range(w.get('reps', 1))]
    for i, d in enumerate(sc['dels']):
        deliver(run, w, worlds, o, d, i)


def shrink(sc):
    import copy
    for i in range(len(sc['dels'])):
        if len(sc['dels']) > 1:
            c = copy.deepcopy(sc)
            del c['dels'][i]
            yield c
    for i, d in enumerate(sc['dels']):
        for k in ('reads', 'all_short', 'gz', 'position', 'sub_atoms'):
            if d.get(k):
                c = copy.deepcopy(sc)
                c['dels'][i].pop(k)
                if k == 'position':
                    c['dels'][i][k] = 0
                yield c
        if d.get('images'):
            c = copy.deepcopy(sc)
            c['dels'][i]['images'] = 0
            yield c
        if d.get('cuts'):
            for j in range(len(d['cuts'])):
                c = copy.deepcopy(sc)
                del c['dels'][i]['cuts'][j]
                yield c
    for k in ('bootstrap', 'progress', 'grid', 'sub_dt', 'fw', 'k'):
        if k in sc['opts']:
            c = copy.deepcopy(sc)
            del c['opts'][k]
            yield c
    for k, v in (('npt', False), ('drift', 0.0), ('cell', 'cubic'), ('mix', 'grouped'), ('skip', 1), ('ts', 1)):
        if sc['world'][k] != v:
            c = copy.deepcopy(sc)
            c['world'][k] = v
            yield c
    if sc['world'].get('reps') == 1 and sc['world']['T'] > 4 and not sc['opts'].get('grid'):
        c = copy.deepcopy(sc)
        c['world']['T'] = max(4, c['world']['T'] // 2)
        yield c
