"""C07: a trajectory source that fails is reported, never silently shortened."""
import copy
import os

import numpy as np

from .. import boot
from .. import world as W
from ..sched import LineRecorder, choose_point

ID = 'C07'
LEVEL = 'exploration'
TIERS = {'quick': dict(runs=4500, budget=240, redo=25), 'thorough': dict(runs=60000, budget=1500, redo=100)}
RULE = ('a run builds an analysis from a simulated source and injects one fault at a random frame, file read, source line '
        'or progress write; distinct = (route, delivery, fault kind, position class, outcome) combinations in which the '
        'fault actually fired')
ASSUMPTIONS = ['the source signals its failure with an exception or a failing read', 'single faults, transient or persistent',
               'a text file cut at a frame boundary cannot be told from a shorter run and is not claimed']
REAL = ['kinisi parsers and analyzers', 'ASE', 'pymatgen', 'MDAnalysis iteration', 'file reads through libc']
STUBS = ['frame sequences and the MDAnalysis reader (raise on demand)', 'libc read (errors)', 'progress display']

EXC = {'oserror': lambda: OSError(5, 'Input/output error'), 'eof': lambda: EOFError('unexpected end'),
       'value': lambda: ValueError('corrupt frame'), 'runtime': lambda: RuntimeError('source failed'),
       'kbd': lambda: KeyboardInterrupt(), 'mem': lambda: MemoryError(), 'pipe': lambda: BrokenPipeError(32, 'Broken pipe'), 'index': lambda: IndexError('frame out of range'),
       'key': lambda: KeyError('coordinates'), 'stop': lambda: StopIteration(), 'type': lambda: TypeError('no data'),
       'attr': lambda: AttributeError('no data'), 'missing': lambda: FileNotFoundError(2, 'No such file or directory'),
       'denied': lambda: PermissionError(13, 'Permission denied'), 'timeout': lambda: TimeoutError(110, 'timed out'),
       'assert': lambda: AssertionError('inconsistent frame'), 'zero': lambda: ZeroDivisionError('empty cell'),
       'exit': lambda: SystemExit(1), 'text': lambda: UnicodeDecodeError('utf-8', b'x', 0, 1, 'bad byte')}


class FlakySeq:
    """A lazily read sequence of frames, as file-backed readers offer."""

    def __init__(self, frames, ctl, idx=None):
        self.frames_ = frames
        self.ctl = ctl
        self.idx = list(range(len(frames))) if idx is None else idx

    def __len__(self):
        return len(self.idx)

    def _get(self, i):
        self.ctl.hit(i)
        return self.frames_[i]

    def __getitem__(self, k):
        if isinstance(k, slice):
            return FlakySeq(self.frames_, self.ctl, self.idx[k])
        return self._get(self.idx[k])

    def __iter__(self):
        for i in self.idx:
            yield self._get(i)


class Ctl:

    def __init__(self, frame, exc, times):
        self.frame, self.exc, self.times, self.fired = frame, exc, times, 0

    def hit(self, i):
        if i == self.frame and self.times > 0:
            self.times -= 1
            self.fired += 1
            raise EXC[self.exc]()


def bad_frame(frame, ctl):
    """The same frame, with data that cannot be read."""
    n = type(frame).__name__
    if n == 'Atoms':
        from ase import Atoms

        class LazyAtoms(Atoms):

            def get_scaled_positions(self, *a, **k):
                ctl.hit(ctl.frame)
                return Atoms.get_scaled_positions(self, *a, **k)

            def get_positions(self, *a, **k):
                ctl.hit(ctl.frame)
                return Atoms.get_positions(self, *a, **k)

        return LazyAtoms(frame)
    from pymatgen.core import Structure

    class LazyStructure(Structure):

        @property
        def frac_coords(self):
            ctl.hit(ctl.frame)
            return np.array([s.frac_coords for s in self])

        @property
        def cart_coords(self):
            ctl.hit(ctl.frame)
            return np.array([s.coords for s in self])

    return LazyStructure(frame.lattice, frame.species, [s.frac_coords for s in frame])


def gen(rng, tier, idx):
    route = rng.choice(('ase', 'pmg', 'mda', 'mda', 'file', 'file', 'asetraj', 'xdatcar'))
    w = W.gen_world(rng, npt_ok=False, tmin=5, tmax=14)
    o = W.gen_opts(rng, w)
    if o['kind'] != 'diff':
        w['T'] += 6
    if o.get('charge') == 'list':
        o['charge'] = [rng.choice((1.0, 2.0, -1.0)) for _ in range(w['nm'])]
    o['progress'] = rng.random() < 0.5
    if rng.random() < 0.25:
        o['k'] = w['k'] = 2
    d = dict(route=route)
    r = rng.random()
    if r < 0.3:
        d['reps'] = 2
        if isinstance(o.get('charge'), list):
            o['charge'] = o['charge'] * 2
    elif r < 0.55 and route != 'mda':
        d['cuts'] = sorted(rng.randrange(1, w['T']) for _ in range(rng.choice((1, 2))))
    kinds = ['interrupt', 'interrupt', 'display'] if route != 'xdatcar' else ['interrupt', 'display', 'data']
    if route in ('ase', 'pmg'):
        kinds += ['seq', 'seq', 'data', 'data']
    elif route == 'mda':
        kinds += ['reader'] * 5
    elif route in ('file', 'asetraj'):
        kinds += ['read'] * 5 + (['corrupt'] * 3 if route == 'file' else [])
    f = dict(kind=rng.choice(kinds))
    if f['kind'] in ('seq', 'data', 'reader'):
        f.update(part=rng.randrange(3), frame=rng.choice((0, 1, rng.randrange(w['T']), w['T'] - 1)),
                 exc=rng.choice(('oserror', 'eof', 'value', 'runtime', 'kbd', 'mem', rng.choice(sorted(EXC)))), times=rng.choice((1, 10**6)))
    elif f['kind'] == 'read':
        f.update(nth=rng.randrange(0, 12), errno=rng.choice((5, 5, 12, 116)), persist=rng.random() < 0.5)
    elif f['kind'] == 'corrupt':
        f.update(part=rng.randrange(3), how=rng.choice(('stars', 'cut', 'empty', 'missing', 'bytes', 'words')), u=rng.random())
    elif f['kind'] == 'display':
        o['progress'] = True
        f.update(nth=rng.randrange(0, 8), exc=rng.choice(('oserror', 'pipe', 'kbd')))
    else:
        f.update(u1=rng.random(), u2=rng.random(), exc=rng.choice(('kbd', 'mem')))
    return dict(world=w, opts=o, d=d, f=f)


def build_source(run, sc, tag, ctl=None):
    w, o, d, f = sc['world'], sc['opts'], sc['d'], sc['f']
    route = d['route']
    reps = d.get('reps', 1)
    worlds = [W.World(w, r) for r in range(reps)]
    if d.get('cuts'):
        parts = [(worlds[0], s) for s in W.cuts_to_segments(w['T'], d['cuts']) if len(s)]
        dtype = 'consecutive'
    else:
        parts = [(x, range(w['T'])) for x in worlds]
        dtype = 'identical' if reps > 1 else None
    bad = f.get('part', 0) % len(parts)
    src = []
    for n, (x, fr) in enumerate(parts):
        if route in ('ase', 'pmg', 'asetraj', 'xdatcar', 'file') and route not in ('xdatcar', 'file'):
            frames = W.as_structures(x, 0, fr) if route == 'pmg' else W.as_ase(x, 0, fr)
        if route in ('ase', 'pmg'):
            if ctl is not None and n == bad:
                ctl.frame = min(f['frame'], len(frames) - 1)
                if f['kind'] == 'seq':
                    frames = FlakySeq(frames, ctl)
                else:
                    frames[ctl.frame] = bad_frame(frames[ctl.frame], ctl)
            src.append(frames)
        elif route == 'mda':
            u = W.as_universe(x)
            if ctl is not None and n == bad:
                t = u.trajectory
                t.fail_frame, t.fail_exc, t.fail_times = f['frame'], EXC[f['exc']](), f['times']
                ctl.reader = t
            src.append(u)
        elif route in ('file', 'xdatcar'):
            p = f'{run.scratch}/XDATCAR_{tag}_{n}'
            W.write_xdatcar(p, x, fr)
            if route == 'xdatcar':
                from pymatgen.io.vasp import Xdatcar
                p = Xdatcar(p)
                if ctl is not None and n == bad:
                    ctl.frame = min(f['frame'], len(fr) - 1)
                    p.structures[ctl.frame] = bad_frame(p.structures[ctl.frame], ctl)
            src.append(p)
        else:
            import ase.io
            p = f'{run.scratch}/t_{tag}_{n}.traj'
            with ase.io.Trajectory(p, 'w') as t:
                for a in frames:
                    t.write(a)
            src.append(p)
    if dtype is None:
        src = src[0]
    return worlds[0], src, dtype


def damage(path, how, u):
    """What a crashed run, a full disk or a lost file leaves behind."""
    good = open(path, 'rb').read()
    if how == 'missing':
        os.remove(path)
        return good
    if how == 'empty':
        bad = b''
    else:
        rows = good.split(b'\n')
        data = [i for i, r in enumerate(rows) if i > 7 and r.count(b'.') == 3]
        k = data[int(u * len(data))]
        if how == 'stars':
            rows[k] = rows[k][:5] + b'********' + rows[k][18:]
        elif how == 'bytes':
            rows[k] = b'\xff\xfe' + rows[k]
        elif how == 'words':
            rows[k] = b'forrtl: severe (28): CLOSE error, unit 12'
        else:
            rows = rows[:k] + [rows[k][:len(rows[k]) // 2]]
        bad = b'\n'.join(rows)
    with open(path, 'wb') as h:
        h.write(bad)
    return good


def opened(route, src):
    if route == 'asetraj':
        import ase.io
        return [ase.io.Trajectory(p) for p in src] if isinstance(src, list) else ase.io.Trajectory(src)
    return src


def run(sc, run):
    w, o, d, f = sc['world'], sc['opts'], sc['d'], sc['f']
    route = d['route']
    r = {'asetraj': 'ase'}.get(route, route)
    W0, src, dtype = build_source(run, sc, 'ok')
    ref = W.reference([W0], dict(o, charge=1))
    if ref['rows'] < 1:
        return
    charge = W.charge_of(o)

    def make(s, pp, up):
        return W.construct(o['kind'], r, s, pp, up, dtype=dtype, charge=charge)

    P = lambda: (W.parser_params(W0, o, route), W.uncertainty_params(o))  # noqa
    good = run.call('building from a healthy source', make, opened(route, src), *P())
    want = W.observe(good, ppd=False)
    run.log('healthy', W.dig(want))
    ctl = None
    target = None
    if f['kind'] in ('seq', 'data', 'reader'):
        ctl = Ctl(0, f['exc'], f['times'])
    elif f['kind'] == 'interrupt':
        rec = LineRecorder([boot.REPO + '/kinisi/'])
        s2 = opened(route, src)
        with rec:
            make(s2, *P())
        target = choose_point(rec.events, f['u1'], f['u2'])
    _, bad, _ = build_source(run, sc, 'bad', ctl)
    if ctl is not None and ctl.times and f['kind'] == 'data':
        before = None
    else:
        before = None if isinstance(bad, str) or route == 'asetraj' else W.snapshot_inputs(route, bad)
    pp, up = P()
    snap = (W.params_snapshot(pp), W.params_snapshot(up), W.params_snapshot(charge))
    fired = 0
    lib = None
    rec = None
    if f['kind'] == 'corrupt':
        from pymatgen.io.vasp import Xdatcar
        names = bad if isinstance(bad, list) else [bad]
        victim = names[f['part'] % len(names)]
        good_bytes = damage(victim, f['how'], f['u'])
        try:
            Xdatcar(victim)
        except Exception:  # noqa
            fired = 1  # the reader reports it: so must kinisi
        if not fired:
            run.count('probe:damage not noticed by the reader')
            return
    try:
        src2 = opened(route, bad)
        if f['kind'] == 'read':
            lib = W.simio()
            lib.sim_arm(run.scratch.encode())
            if route == 'asetraj':
                # files are already open: reopen under the seam
                src2 = opened(route, bad)
                base = lib.sim_count(1)
            else:
                base = 0
            lib.sim_plan(1, base + f['nth'], 1, f['errno'], int(f['persist']))
        elif f['kind'] == 'display':
            run.stderr.fail_at = run.stderr.writes + f['nth']
            run.stderr.exc = EXC[f['exc']]()
        if f['kind'] == 'interrupt':
            rec = LineRecorder([boot.REPO + '/kinisi/'], target, EXC[f['exc']]())
            with rec:
                an = make(src2, pp, up)
        else:
            an = make(src2, pp, up)
        out = ('ok', an)
    except BaseException as e:  # noqa
        out = ('exc', e)
    finally:
        if lib:
            fired = lib.sim_fired(1)
            lib.sim_disarm()
    if ctl is not None:
        fired = ctl.reader.fired if hasattr(ctl, 'reader') else ctl.fired
        ctl.times = 0
        if hasattr(ctl, 'reader'):
            ctl.reader.fail_times = 0
    if f['kind'] == 'display':
        fired = run.stderr.fired
        run.stderr.fail_at = None
    if rec is not None:
        fired = 1 if rec.fired else 0
    if f['kind'] == 'corrupt':
        with open(victim, 'wb') as h:
            h.write(good_bytes)
    where = rec.fired if rec is not None else f.get('frame', f.get('nth', f.get('how')))
    run.log('fault', f['kind'], where, 'fired', fired, '->', out[0], type(out[1]).__name__)
    if fired:
        run.count(f"fault:{f['kind']} {f.get('exc', 'eio')}")
    desc = f"{route} source ({dtype}), fault {f['kind']} {f.get('exc', 'EIO')} at {where}"
    if out[0] == 'ok':
        got = W.observe(out[1], ppd=False)
        run.same(got, want, 'silently-wrong',
                 f'{desc}: the analysis was built without an error but differs from the fault-free one')
        if f['kind'] == 'corrupt':
            run.fail('silently-wrong', f'{desc}: the damaged file was accepted')
        run.count('probe:fault absorbed' if fired else 'probe:fault not reached')
    else:
        if not fired:
            run.fail('unexpected-error', f'{desc}: raised {type(out[1]).__name__}: {str(out[1])[:200]} without a fault')
        run.count('probe:fault reported')
    if before is not None:
        run.same(W.snapshot_inputs(route, bad), before, 'input-changed', f"{desc}: the caller's trajectory was modified")
    run.same([list(x) if isinstance(x, list) else x for x in
              (W.params_snapshot(pp), W.params_snapshot(up), W.params_snapshot(charge))], list(snap), 'input-changed',
             f"{desc}: the caller's parameters were modified")
    # the fault is gone: the same sources again
    pp2, up2 = P()
    an = run.call(f'{desc}: building again after the fault', make, opened(route, bad), pp2, up2)
    run.same(W.observe(an, ppd=False), want, 'retry-differs', f'{desc}: building again gives a different result')
    if fired:
        pos = where if f['kind'] == 'interrupt' else ('first' if where == 0 else 'later')
        run.sig(route, dtype, f['kind'], f.get('exc'), pos, out[0], o['kind'], f.get('times', 1) > 1)


def shrink(sc):
    for k in ('progress', 'sub_dt', 'k', 'bootstrap'):
        if sc['opts'].get(k) and not (k == 'progress' and sc['f']['kind'] == 'display'):
            c = copy.deepcopy(sc)
            c['opts'].pop(k)
            yield c
    for k in ('cuts', 'reps'):
        if sc['d'].get(k) and not isinstance(sc['opts'].get('charge'), list):
            c = copy.deepcopy(sc)
            c['d'].pop(k)
            yield c
    if sc['world']['nf']:
        c = copy.deepcopy(sc)
        c['world']['nf'] = 0
        yield c
    if sc['world']['T'] > 6:
        c = copy.deepcopy(sc)
        c['world']['T'] -= 2
        yield c
    for k, v in (('drift', 0.0), ('cell', 'cubic'), ('mix', 'grouped'), ('skip', 1)):
        if sc['world'][k] != v:
            c = copy.deepcopy(sc)
            c['world'][k] = v
            yield c
