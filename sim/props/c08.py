"""C08: analyses do not affect one another or their inputs."""
import copy
import gc
import locale
import os
import random
import signal
import sys
import warnings

import numpy as np

from .. import boot
from .. import world as W
from ..core import in_fork
from ..sched import Scheduler, Deadlock, sub_rng

ID = 'C08'
LEVEL = 'exploration'
TIERS = {'quick': dict(runs=1200, budget=240, redo=25), 'thorough': dict(runs=30000, budget=1500, redo=100)}
RULE = ('a run executes two to four analyses, temperature fits or readers in one process, one after another or as threads '
        'whose interleaving the scheduler chooses at every source line of kinisi, with shared or separate inputs, and '
        'compares each with the same task alone in a fresh process; distinct = (tasks, sharing, places of the switches)')
ASSUMPTIONS = ['switches at source lines of kinisi (library calls are atomic)',
               'MDAnalysis universes and random states are not shared between threads',
               'in threads, temperature fits are given the same posterior samples: uravu itself draws those from the process-wide generator']
REAL = ['kinisi', 'ASE, pymatgen, MDAnalysis, emcee, uravu, h5py']
STUBS = ['thread scheduling', 'entropy', 'progress display']


def gen_arr(rng, threads):
    t = dict(type='arr', cls=rng.choice(('std', 'super', 'super')), n=rng.choice((3, 4, 6)), t0=rng.choice((200.0, 300.0, 450.0)),
             dt=rng.choice((25.0, 60.0)), bounds=rng.choice(('default', 'default', 'own', 'none', 'shared')), seed=rng.randrange(10**6),
             data='dist' if threads else rng.choice(('dist', 'array')), ea=rng.choice((0.1, 0.3)))
    if rng.random() < 0.4 and (t['cls'] == 'std' or t['bounds'] in ('own', 'shared')):
        t['order'] = rng.choice(('down', 'mixed'))
    t['ops'] = ['set'] if threads else rng.choice((['ml'], ['ml', 'mcmc'], [], ['mcmc'], ['set']))
    return t


def gen(rng, tier, idx):
    threads = rng.random() < 0.6
    src = []
    for _ in range(rng.choice((1, 1, 2))):
        s = W.gen_simple(rng, boot_ok=True, block_ok=True, tmin=8, tmax=16)
        if s['opts'].get('charge') is not None:
            s['opts'].pop('charge')
        s['opts']['sampling'] = 'multi-origin'
        s['world']['T'] = max(s['world']['T'], 14)
        s['charge'] = rng.choice((1, -2, 'array'))
        r = rng.random()
        if r < 0.25:
            s['route'] = 'file' if r < 0.18 else 'xdatcar'
        if rng.random() < 0.2:
            s['dtype'] = rng.choice(('identical', 'consecutive', 'consecutive'))
        if rng.random() < 0.25:
            s['sel'] = rng.choice(('flat', 'mol', 'mol'))
            if s['sel'] == 'mol':
                s['world'].update(molecules=2, nm=rng.choice((4, 6)), nf=rng.choice((1, 3)))
            s['fw'] = rng.random() < 0.5
        elif rng.random() < 0.1:
            s['fw'] = True
        src.append(s)
    tasks = []
    for _ in range(rng.choice((2, 2, 3, 4))):
        r = rng.random()
        if r < 0.6:
            steps = [W.gen_step(rng) for _ in range(rng.choice((1, 1, 2)))]
            if len(steps) > 1 and rng.random() < 0.5:
                steps[1] = W.vary(rng, steps[0])
            like = [x for x in tasks if x['type'] == 'ana']
            if like and rng.random() < 0.35:  # like an earlier task but for one thing
                x = copy.deepcopy(like[-1])
                k = rng.choice(('src', 'kind', 'step', 'same'))
                if k == 'src':
                    x['src'] = rng.randrange(len(src))
                elif k == 'kind':
                    x['kind'] = rng.choice(('diff', 'jump', 'cond'))
                elif k == 'step':
                    x['steps'][-1] = W.vary(rng, x['steps'][-1])
                tasks.append(x)
                continue
            tasks.append(dict(type='ana', src=rng.randrange(len(src)), kind=rng.choice(('diff', 'jump', 'cond')), steps=steps,
                              progress=rng.random() < 0.15, ppd=rng.random() < 0.3))
        elif r < 0.75:
            tasks.append(dict(type='raw', seed=rng.choice((1, 1, 2)), kind=rng.choice(('diff', 'jump', 'cond')),
                              sub_dt=rng.choice((1, 1, 2)), dims=rng.choice(('xyz', 'x', 'xz')), steps=[W.gen_step(rng)],
                              fold=rng.random() < 0.3))
        elif r < 0.85:
            tasks.append(gen_arr(rng, threads))
        elif r < 0.89:
            tasks.append(dict(type='parse', seed=rng.choice((1, 1, 2)), drift=rng.choice((0, 0, 1, 2)), sampling=rng.choice(('multi-origin', 'single-origin')),
                              spacing=rng.choice(('linear', 'logarithmic')), n_steps=rng.choice((100, 6)), skip=rng.choice((1, 5))))
        elif r < 0.93:
            tasks.append(dict(type='fail', how=rng.choice(FAILS), src=rng.randrange(len(src)), seed=rng.choice((1, 2))))
        else:
            tasks.append(dict(type='read', ops=[rng.choice(('observe', 'dict', 'save', 'load', 'props'))
                                                for _ in range(rng.choice((1, 2, 3)))]))
    if all(t['type'] in ('read', 'fail') for t in tasks):
        tasks[0] = dict(type='ana', src=0, kind='diff', steps=[W.gen_step(rng)], progress=False)
    if rng.random() < 0.12:
        tasks = [dict(type='read', ops=[rng.choice(('observe', 'dict', 'save', 'load', 'props')) for _ in range(3)])
                 for _ in range(rng.choice((2, 3)))]
    elif rng.random() < 0.15:
        tasks = [gen_arr(rng, threads) for _ in range(rng.choice((2, 3)))]
    return dict(src=src, tasks=tasks, threads=threads, share=rng.random() < 0.6, sched=rng.randrange(10**9),
                switch=rng.choice((0.01, 0.05, 0.2)), drop=rng.random() < 0.5, one_dict=rng.random() < 0.5, rkind=rng.choice(('diff', 'jump', 'cond')))


FAILS = ('specie', 'dtype', 'memory', 'spacing', 'min_dt', 'dims', 'start', 'param', 'frame', 'sampling')


def ambient():
    """Process-wide settings through which one analysis could reach another."""
    return dict(errors=repr(sorted(np.geterr().items())), cwd=os.getcwd(), environ=repr(sorted(os.environ.items())),
                filters=repr(warnings.filters), gc=repr((gc.isenabled(), gc.get_threshold())),
                limits=repr((sys.getrecursionlimit(), sys.getswitchinterval())), random=repr(random.getstate())[:400],
                printing=repr(sorted(np.get_printoptions().items())), signals=repr([signal.getsignal(k) for k in (2, 15)]),
                umask=umask(), locale=repr(locale.setlocale(locale.LC_ALL)))


def umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


class Ctx:
    """The caller's objects."""

    def __init__(self, sc):
        self.sc = sc
        self.src = {}
        self.arrays = {}
        self.bounds = [(0, 2.0), (0, 1e3), (0, None)]
        self.bounds2 = [(0, 2.0), (0, 1e3)]
        self.read = None
        self.params = {}
        self.made = 0
        self.changed = []
        self.extra = []

    def source(self, k, own, threads, keep=True):
        sc = self.sc
        route = sc['src'][k]['route']
        if own or not sc['share'] or (threads and route == 'mda'):
            self.made += 1
            s = self._build(k, 'XDATCAR' if not threads else f'XDATCAR_own{self.made}_{k}')
            if keep and route not in ('file', ):  # the next trajectory may be written under the same name
                self.extra.append((route, s, snap(route, s)))
            return s
        if k not in self.src:
            s = self._build(k, f'XDATCAR_{k}')
            self.src[k] = s
            self.extra.append((route, s, snap(route, s)))
        return self.src[k]

    def _build(self, k, name):
        sp = self.sc['src'][k]
        w = W.World(sp['world'])
        o = dict(sp['opts'], kind='diff')
        n = len(w.mobile)
        if sp.get('sel'):
            o['sel'] = list(w.mobile)
            if sp['sel'] == 'flat':
                o['sel'] = o['sel'][1:] + o['sel'][:1]  # not in ascending order
            if sp['sel'] == 'mol':
                o.update(molecules=2, masses=[1.0, 16.0])
                n = n // 2
        if sp.get('fw'):
            o['fw'] = list(w.framework[:2])
        route = sp['route']
        dtype = sp.get('dtype')
        parts = [(w, range(w.T))]
        if dtype == 'identical':
            parts.append((W.World(sp['world'], 1), range(w.T)))
            n *= 2
        elif dtype == 'consecutive' and route != 'mda':
            parts = [(w, range(w.T // 3)), (w, range(w.T // 3, w.T))]
        else:
            dtype = None
        tr = []
        for i, (x, fr) in enumerate(parts):
            if route in ('file', 'xdatcar'):
                nm = f'{name}_{i}' if i else name
                W.write_xdatcar(nm, x, fr)
                if route == 'xdatcar':
                    from pymatgen.io.vasp import Xdatcar
                    nm = Xdatcar(nm)
                tr.append(nm)
            else:
                f = {'ase': W.as_ase, 'pmg': W.as_structures, 'mda': W.as_universe}[route]
                tr.append(f(x) if route == 'mda' else f(x, 0, fr))
        if dtype is None:
            tr = tr[0]
        ch = sp['charge']
        if ch == 'array':
            ch = np.array([(-1.0)**i * (1 + i % 3) for i in range(n)])
        return dict(tr=tr, pp=W.parser_params(w, o, route), up=W.uncertainty_params(o), charge=ch, route=route, dtype=dtype)

    def raw(self, seed, own):
        if own or not self.sc['share'] or seed not in self.arrays:
            r = np.random.RandomState([seed, 77])
            T = 14
            p = np.cumsum(r.randn(3, T + 1, 3) * 0.3, axis=1)
            disp = [np.ascontiguousarray(p[:, k:] - p[:, :-k]) for k in range(1, T - 1)]
            a = dict(paths=np.cumsum(r.randn(5, T, 3) * 0.3, axis=1), idx=[0, 1, 2], didx=[3, 4], dt=np.arange(1, T - 1) * 0.5, disp=disp, n_o=3.0 * T / np.arange(1, T - 1),
                     charge=np.array([1.0, -1.0, 2.0]))
            self.extra.append(('raw', a, raw_snap(a)))
            if own or not self.sc['share']:
                return a
            self.arrays[seed] = a
        return self.arrays[seed]


def snap(route, s):
    # the caller's objects as they are now
    return dict(t=W.snapshot_inputs(route, s['tr']), pp=W.params_snapshot(s['pp']), up=W.params_snapshot(s['up']),
                c=W.params_snapshot(s['charge']))


def raw_snap(a):
    return {k: W.params_snapshot(v) for k, v in a.items()}


def observe_arr(r, seeded):
    out = dict(x=W.C(np.asarray(r.x)), bounds=repr(r.bounds), y=[W.C(d) for d in r.y.values], f=r.function.__name__)
    if seeded:
        out['v'] = [W.C(v) for v in r.variables]
        out['dist'] = W.C(r.distribution)
        out['e'] = W.C(r.activation_energy)
        out['p'] = W.C(r.preexponential_factor)
        out['ex'] = W.C(r.extrapolate(333.0))
        if hasattr(r, 'T0'):
            out['T0'] = W.C(r.T0)
    return out


def perform(t, ctx, own, threads, tag):
    """Run one task; returns (observation, function giving the observation again)."""
    sc = ctx.sc
    if t['type'] == 'ana':
        drop = sc.get('drop') and not threads
        s = ctx.source(t['src'], own, threads, keep=not drop)
        seen = snap(s['route'], s)
        up = s['up']
        if 'random_state' in up:
            up = dict(up, random_state=np.random.RandomState(sc['src'][t['src']]['opts']['bootstrap'][2]))
            ctx.extra.append(('params', up, W.params_snapshot(up)))
        an = W.construct(t['kind'], s['route'], s['tr'], s['pp'], up, dtype=s['dtype'], charge=s['charge'])
        if not threads and snap(s['route'], s) != seen:
            ctx.changed.append('the trajectory or parameters given to build an analysis')
        if drop:
            s = seen = None  # the caller lets go of its trajectory before building the next
        out = []
        for st in t['steps']:
            p = W.step_params(st, progress=t['progress'])
            if sc.get('one_dict') and not threads and not own:
                # the caller keeps one dictionary and sets it to what this step needs
                ctx.params.clear()
                ctx.params.update(p)
                p = ctx.params
            before = W.params_snapshot(p)
            W.do_step(an, t['kind'], st, params=p)
            if W.params_snapshot(p) != before:
                ctx.changed.append(f"the parameters of a {t['kind']} step: {before} became {W.params_snapshot(p)}")
            out.append(W.observe(an, ppd=False))
        if t.get('ppd'):
            p = dict(n_posterior_samples=3, n_predictive_samples=2, progress=False)
            before = W.params_snapshot(p)
            if not threads:
                np.random.seed(t['steps'][0]['seed'] % 2**32)
            ppd = an.posterior_predictive(p)
            if not threads:
                out.insert(0, W.C(ppd))
            if W.params_snapshot(p) != before:
                ctx.changed.append(f'the parameters of a prediction: {before} became {W.params_snapshot(p)}')
        return out, lambda: out[:-1] + [W.observe(an, ppd=False)]
    if t['type'] == 'raw':
        import kinisi.diffusion as kd
        a = ctx.raw(t['seed'], own)
        K = {'diff': kd.MSDBootstrap, 'jump': kd.MSTDBootstrap, 'cond': kd.MSCDBootstrap}[t['kind']]
        args = (a['dt'], a['disp']) + ((a['charge'], ) if t['kind'] == 'cond' else ()) + (a['n_o'], )
        b = K(*args, sub_sample_dt=t['sub_dt'], dimension=t['dims'], progress=False)
        if t['fold']:
            b = kd.Bootstrap.from_dict(b.to_dict())
        for st in t['steps']:
            W.boot_step(b, t['kind'], st)
        out = W.observe(b, ppd=False)
        return out, lambda: W.observe(b, ppd=False)
    if t['type'] == 'parse':
        from kinisi.parser import Parser
        a = ctx.raw(t['seed'], own)
        u = Parser(a['paths'], a['idx'], a['didx'][:t['drift']], 0.5, t['skip'], spacing=t['spacing'], sampling=t['sampling'],
                   n_steps=t['n_steps'], progress=False)
        f = lambda: [W.C(u.delta_t), [W.C(x) for x in u.disp_3d], W.C(u._n_o)]
        return f(), f
    if t['type'] == 'fail':
        out = fail(t, ctx, own, threads)
        return out, lambda: out
    if t['type'] == 'arr':
        import kinisi.arrhenius as ka
        from uravu.distribution import Distribution
        T = t['t0'] + t['dt'] * np.arange(t['n'])
        if t.get('order'):
            T = T[::-1].copy() if t['order'] == 'down' else np.roll(T, 1)
        r = np.random.RandomState(t['seed'])
        D = 1e-3 * np.exp(-t['ea'] / (8.617e-5 * T))
        err = 0.1 * D
        y = [Distribution(d + e * r.randn(200)) for d, e in zip(D, err)] if t['data'] == 'dist' else D
        kw = {} if t['data'] == 'dist' else dict(diffusion_error=err)
        if t['bounds'] == 'shared':
            b = ctx.bounds if t['cls'] == 'super' else ctx.bounds2
        elif t['bounds'] == 'own':
            b = [(0, 1.5), (0, 10.0), (0, 0.5 * t['t0'])][:3 if t['cls'] == 'super' else 2]
        elif t['bounds'] == 'none' and t['cls'] == 'super':
            b = ((0, 1.5), (0, 10.0), (0, None))
        else:
            b = None
        if b is not None:
            kw['bounds'] = b
            ctx.extra.append(('bounds', b, repr(b)))
        ctx.extra.append(('arr', [T, D, err], W.params_snapshot([T, D, err])))
        if t['data'] == 'dist':
            ys = [d.samples for d in y]
            ctx.extra.append(('arr', ys, W.params_snapshot(ys)))
            ctx.extra.append(('ordinates', y, ordinates(y)))
        np.random.seed(t['seed'])
        K = ka.StandardArrhenius if t['cls'] == 'std' else ka.SuperArrhenius
        rel = K(T, y, **kw)
        seeded = not threads
        try:
            with np.errstate(all='ignore'):
                if 'ml' in t['ops']:
                    x0 = [0.2, 1e-3, 10.0][:3 if t['cls'] == 'super' else 2]
                    rel.max_likelihood('mini', x0)
                    seeded = True
                if 'set' in t['ops']:
                    q = np.random.RandomState(t['seed'] + 1)
                    rel.variables = [Distribution(v * (1 + 0.1 * q.rand(20))) for v in [0.2, 1e-3, 10.0][:len(rel.bounds)]]
                    seeded = True
                if 'mcmc' in t['ops']:
                    rel.mcmc(walkers=10, n_samples=6, n_burn=4, progress=False)
        except (ValueError, np.linalg.LinAlgError) as e:
            # the fit itself does not work out (T0 running into the lowest temperature): it must not work out in company either
            out = ['no fit', type(e).__name__]
            return out, lambda: out
        out = observe_arr(rel, seeded)
        return out, lambda: observe_arr(rel, seeded)
    an = ctx.read
    out = []
    for i, op in enumerate(t['ops']):
        if op == 'observe':
            out.append(W.observe(an, ppd=False))
        elif op == 'dict':
            out.append(W.C(an.to_dict()))
        elif op == 'props':
            out.append([W.C(an.dt), W.C(an.distribution), W.C(an.flatchain), W.C(an.intercept)])
        elif op == 'save':
            an.save(f'shared_{tag}_{i}')
            out.append('saved')
        else:
            an.save(f'sharedl_{tag}_{i}')
            out.append(W.observe(type(an).load(f'sharedl_{tag}_{i}'), ppd=False))
    return out, lambda: out


class Broken(list):
    # a trajectory of which a frame cannot be read

    def __getitem__(self, k):
        if isinstance(k, slice):
            return Broken(list.__getitem__(self, k))
        return list.__getitem__(self, k)

    def __iter__(self):
        for i, x in enumerate(list.__iter__(self)):
            if i == len(self) // 2:
                raise OSError('simulated')
            yield x


def fail(t, ctx, own, threads):
    """Something that is refused or fails, as any history may contain."""
    how = t['how']
    try:
        if how in ('dims', 'start', 'param'):
            import kinisi.diffusion as kd
            a = ctx.raw(t['seed'], own)
            b = kd.MSDBootstrap(a['dt'], a['disp'], a['n_o'], dimension='w' if how == 'dims' else 'xyz', progress=False)
            if how == 'start':
                b.diffusion(1e9, progress=False)
            b.diffusion(0.0, progress=False, no_such_setting=1)
        s = ctx.source(t['src'], own, threads)
        pp, tr, dtype = dict(s['pp']), s['tr'], s['dtype']
        if how == 'specie':
            pp.update(specie='Xe')
        elif how == 'dtype':
            dtype = 'sideways'
        elif how == 'memory':
            pp.update(memory_limit=1e-9)
        elif how == 'spacing':
            pp.update(spacing='quadratic')
        elif how == 'sampling':
            pp.update(sampling='no-origin')
        elif how == 'min_dt':
            pp.update(min_dt=1e6)
        elif s['route'] in ('ase', 'pmg'):
            if dtype is None:
                tr = Broken(tr)
            else:
                tr = [tr[0], Broken(tr[1])]
        else:
            pp.update(no_such_setting=1)
        W.construct('diff', s['route'], tr, pp, s['up'], dtype=dtype)
    except Exception as e:
        return ['refused', type(e).__name__]
    return ['accepted']


def ordinates(y):
    return [W.C(d.samples) for d in y]


def make_read(sc, ctx):
    if any(t['type'] == 'read' for t in sc['tasks']):
        s = ctx.source(0, True, sc['threads'])
        ctx.read = W.construct(sc['rkind'], s['route'], s['tr'], s['pp'], s['up'], dtype=s['dtype'], charge=s['charge'])
        W.do_step(ctx.read, sc['rkind'], dict(start=0.1, n_walkers=6, n_samples=5, n_burn=2, thin=1, seed=3))


def alone(sc, i):
    ctx = Ctx(sc)
    os.makedirs(f'alone{i}')
    os.chdir(f'alone{i}')
    if sc['tasks'][i]['type'] == 'read':
        make_read(sc, ctx)
    return perform(sc['tasks'][i], ctx, True, sc['threads'], 'a')[0]


def run(sc, run):
    want = []
    for i in range(len(sc['tasks'])):
        st, v = in_fork(alone, sc, i)
        if st != 'ok':
            run.fail('unexpected-error', f"task {i} ({sc['tasks'][i]['type']}) alone ended with {st} {v!r}"[:300])
        want.append(v)
    run.log('alone', [W.dig(w) for w in want])
    ctx = Ctx(sc)
    make_read(sc, ctx)
    # the caller's shared objects exist before anyone uses them
    for i, t in enumerate(sc['tasks']):
        if t['type'] == 'ana':
            if sc['share'] and not (sc['threads'] and sc['src'][t['src']]['route'] == 'mda'):
                ctx.source(t['src'], False, sc['threads'])
        elif t['type'] in ('raw', 'parse') and sc['share']:
            ctx.raw(t['seed'], False)
    kinds = [t['type'] + (':' + t.get('kind', t.get('cls', ''))) for t in sc['tasks']]
    names = '+'.join(kinds)
    again = [None] * len(sc['tasks'])
    warnings.filterwarnings('ignore', message='in front of every other filter')
    around = ambient()
    if sc['threads']:
        sch = Scheduler(sub_rng('c08', sc['sched']), [boot.REPO + '/kinisi/'], sc['switch'])

        def body(i):

            def go():
                out, f = perform(sc['tasks'][i], ctx, False, True, i)
                again[i] = f
                return out

            return go

        res = sch.run([body(i) for i in range(len(sc['tasks']))])
        if any(isinstance(e, Deadlock) for st, e in res if st == 'exc'):
            run.fail('deadlock', f'threads {names} wait for one another for ever')
        for i, (st, e) in enumerate(res):
            if st == 'exc':
                run.fail('unexpected-error', f'thread {i} ({kinds[i]}) among {names} raised {type(e).__name__}: {e}')
        got = [v for _, v in res]
        run.count('fault:thread switch', sch.switches)
        run.count('schedule points', sch.points)
        run.log('switches', W.dig(sch.trace), sch.switches)
        places = ' '.join(sorted({p[0] for p in sch.places})[:8])
    else:
        got = []
        places = ''
        for i, t in enumerate(sc['tasks']):
            v, f = run.call(f'task {i} ({kinds[i]}) after {names}', perform, t, ctx, False, False, i)
            got.append(v)
            again[i] = f
        run.count('fault:earlier analyses in the process', len(sc['tasks']) - 1)
    how = ('in threads' if sc['threads'] else 'one after another') + (', inputs shared' if sc['share'] else '')
    run.log('together', [W.dig(g) for g in got])
    for i in range(len(got)):
        run.same(got[i], want[i], 'interference', f'task {i} of {names} {how} differs from the same task alone')
    for i, f in enumerate(again):
        run.same(f(), want[i], 'interference', f'results of task {i} of {names} {how} changed after the others finished')
    if not sc['threads']:
        run.same(ambient(), around, 'process-wide setting', f'{names} {how}: settings of the process were changed')
    run.expect(not ctx.changed, 'input-changed', lambda: f'{names} {how}: {ctx.changed[0]}')
    for route, s, before in ctx.extra:
        if route == 'raw':
            now = raw_snap(s)
        elif route == 'bounds':
            now = repr(s)
        elif route == 'ordinates':
            now = ordinates(s)
        elif route in ('arr', 'params'):
            now = W.params_snapshot(s)
        else:
            now = snap(route, s)
        run.same(now, before, 'input-changed', f'{names} {how}: inputs passed by the caller ({route}) were modified')
    run.sig(how, names, places)


def shrink(sc):
    for i in range(len(sc['tasks'])):
        if len(sc['tasks']) > 1:
            c = copy.deepcopy(sc)
            del c['tasks'][i]
            yield c
    if sc['threads'] and not any(t['type'] == 'arr' for t in sc['tasks']):
        yield dict(copy.deepcopy(sc), threads=False)
    if sc['share']:
        yield dict(copy.deepcopy(sc), share=False)
    for k in ('bootstrap', 'sub_dt', 'block'):
        for i, s in enumerate(sc['src']):
            if s['opts'].get(k):
                c = copy.deepcopy(sc)
                c['src'][i]['opts'].pop(k)
                yield c
    for i, t in enumerate(sc['tasks']):
        if len(t.get('steps', ())) > 1:
            c = copy.deepcopy(sc)
            c['tasks'][i]['steps'].pop()
            yield c
