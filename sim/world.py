"""Ground truth runs, every way of delivering them to kinisi, the reference evaluation, and observation of analyses."""
import gzip
import os
import random

import numpy as np


# ------------------------------------------------------------------ canonical observations
def canon(x):
    """A value comparable bit for bit, blind to representation (bytes/str, python/numpy scalars)."""
    if x is None or isinstance(x, bool):
        return x
    if isinstance(x, (bytes, np.bytes_)):
        return bytes(x).decode()
    if isinstance(x, str):
        return str(x)
    if isinstance(x, np.generic):
        x = x.item()
        if isinstance(x, bytes):
            return x.decode()
    if isinstance(x, (bool, int)):
        return float(x) if not isinstance(x, bool) else x
    if isinstance(x, float):
        return ('arr', 'float64', (), np.float64(x).tobytes())
    if isinstance(x, np.ndarray):
        if x.dtype.kind in 'SU':
            return [canon(i) for i in x.ravel()]
        if x.dtype.kind == 'O':
            return [canon(i) for i in x]
        y = np.ascontiguousarray(x, dtype=np.float64)
        return ('arr', 'float64', y.shape, y.tobytes())
    if isinstance(x, dict):
        return {str(k): canon(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [canon(i) for i in x]
    if hasattr(x, 'samples') and hasattr(x, 'ci'):
        return {'dist': canon(np.asarray(x.samples)), 'name': canon(x.name), 'normal': bool(x.normal)}
    raise TypeError(f'cannot observe {type(x)}')


def num(x):
    """ints and floats alike"""
    c = canon(x)
    return ('arr', 'float64', (), np.float64(c).tobytes()) if isinstance(c, float) else c


def _scalars(o):
    if isinstance(o, float):
        return ('arr', 'float64', (), np.float64(o).tobytes())
    if isinstance(o, dict):
        return {k: _scalars(v) for k, v in o.items()}
    if isinstance(o, list):
        return [_scalars(v) for v in o]
    return o


def C(x):
    return _scalars(canon(x))


NAMES = {
    'DiffusionAnalyzer': ['msd', 'msd_std', 'D'],
    'JumpDiffusionAnalyzer': ['mstd', 'mstd_std', 'D_J'],
    'ConductivityAnalyzer': ['mscd', 'mscd_std', 'sigma'],
}
COMMON = ['dt', 'dr', 'ngp_max', 'intercept', 'flatchain', 'distribution', 'volume']
BOOT = ['dt', 'n', 's', 'v', 'euclidian_displacements', 'ngp', 'intercept', 'covariance_matrix', 'D', 'D_J', 'sigma',
        'gradient', 'flatchain']


def observe(an, ppd=True, dic=True):
    """Everything a user can see of an analysis."""
    out = {}
    names = NAMES.get(type(an).__name__)
    names = BOOT if names is None else names + COMMON
    for n in names:
        try:
            out[n] = C(getattr(an, n))
        except Exception as e:  # noqa
            out[n] = f'unavailable ({type(e).__name__})'
    if dic:
        try:
            out['dict'] = C(an.to_dict())
        except Exception as e:  # noqa
            out['dict'] = f'unavailable ({type(e).__name__})'
    if ppd:
        st = np.random.get_state()
        np.random.seed(20240229)
        try:
            f = an.posterior_predictive
            kw = dict(n_posterior_samples=3, n_predictive_samples=2, progress=False)
            r = f(**kw) if names is BOOT else f(kw)
            out['ppd'] = C(r)
        except Exception as e:  # noqa
            out['ppd'] = f'unavailable ({type(e).__name__})'
        np.random.set_state(st)
    return out


# ------------------------------------------------------------------ ground truth
def gen_world(rng, npt_ok=True, tri_ok=True, tmin=6, tmax=26):
    nm = rng.choice((2, 2, 3, 4, 6, 8))
    nf = rng.choice((0, 1, 2, 3, 5))
    if rng.random() < 0.08:
        nm, nf = rng.choice(((1, 0), (1, 3), (12, 2), (11, 11)))
    cell = rng.choice(('cubic', 'ortho', 'ortho', 'tri')) if tri_ok else rng.choice(('cubic', 'ortho'))
    w = dict(seed=rng.randrange(10**9), nm=nm, nf=nf, T=rng.randrange(tmin, tmax), cell=cell,
                npt=bool(npt_ok and rng.random() < 0.15), drift=rng.choice((0.0, 0.0, 0.03)),
                sigma=rng.choice((0.01, 0.06, 0.12)), mix=rng.choice(('grouped', 'last', 'mixed')),
                ts=rng.choice((0.25, 0.5, 1, 2)), skip=rng.choice((1, 1, 2, 5, 8)))
    r = rng.random()
    if r < 0.02:
        w['nm'] = rng.choice((17, 33, 40))
    elif r < 0.04 and tmax < 60:
        w['T'] = rng.choice((33, 65, 101, 104, 130))
    if rng.random() < 0.2:
        w['still'] = rng.choice((0.1, 0.4))  # in this fraction of the frames nothing moves at all
    if rng.random() < 0.2:
        w['sorts'] = True  # a second mobile and a second framework element
    if rng.random() < 0.3:
        w['names'] = rng.choice((['Na', 'K', 'N', 'O'], ['Cl', 'Br', 'C', 'O'], ['H', 'F', 'Hf', 'Fe'], ['Ag', 'Cu', 'I', 'Se']))
    if rng.random() < 0.1:
        w['oxi'] = True  # pymatgen species carry oxidation states
    return w


def names_of(w):
    return w.get('names') or ['Li', 'Na', 'O', 'S']


def decorated(w, x):
    return x + ('+' if x in names_of(w)[:2] else '2-') if w.get('oxi') else x


class World:
    """One simulation run: true fractional paths of mobile (Li) and framework (O) atoms."""

    def __init__(self, w, replica=0):
        self.w = w
        rs = np.random.RandomState([w['seed'], 17])
        n = w['nm'] + w['nf']
        self.T = w['T']
        A, A2, B, B2 = names_of(w)
        spec = [A] * w['nm'] + [B] * w['nf']
        if w['mix'] == 'last':
            spec = spec[::-1]
        elif w['mix'] == 'mixed':
            spec = [spec[i] for i in rs.permutation(n)]
        self.mobile = [i for i, s in enumerate(spec) if s == A]
        self.framework = [i for i, s in enumerate(spec) if s == B]
        if w.get('sorts'):
            for a, x in ((self.mobile, A2), (self.framework, B2)):
                for i in a[1::2]:
                    spec[i] = x
        self.species = spec
        if w['cell'] == 'cubic':
            L = np.eye(3) * 8.0
        elif w['cell'] == 'ortho':
            L = np.diag([6.0, 9.5, 13.0])
        else:
            L = np.array([[7.0, 0, 0], [2.0, 8.0, 0], [1.5, -1.0, 9.0]])
        self.npt = w['npt']
        rp = np.random.RandomState([w['seed'], 18, replica])
        self.latts = np.array([L] * self.T)
        if self.npt:
            f = 1 + 0.01 * np.clip(rp.randn(self.T, 1, 1), -2, 2)
            f[0] = 1  # replicas start from the same state
            self.latts = self.latts * f
        s = np.zeros((self.T, n, 3))
        s[0] = rs.rand(n, 3)
        step = rp.randn(self.T, n, 3)
        still = np.zeros(self.T, bool)
        if w.get('still'):
            still = rp.rand(self.T) < w['still']
            if (~still[1:]).sum() < 3:
                still[:] = False
        for t in range(1, self.T):
            if still[t]:
                s[t] = s[t - 1]
                self.latts[t] = self.latts[t - 1]
                continue
            d = np.zeros((n, 3))
            d[self.mobile] = w['sigma'] * step[t, self.mobile]
            d[self.framework] = 0.003 * step[t, self.framework]
            if w.get('molecules'):
                # each molecule moves as a whole and wobbles a little
                m = w['molecules']
                for k in range(0, len(self.mobile) // m * m, m):
                    grp = self.mobile[k:k + m]
                    d[grp] = w['sigma'] * step[t, grp[0]] + 0.002 * step[t, grp]
            lim = 0.44 / w.get('k', 1) - w['drift']
            d = np.clip(d, -lim, lim) + w['drift'] * np.array([1, -1, 0.5])
            s[t] = s[t - 1] + d
        if w.get('molecules'):
            m = w['molecules']
            for k in range(0, len(self.mobile) // m * m, m):
                grp = self.mobile[k:k + m]
                base = s[0, grp[0]]
                off = s[0][grp] * 0
                off[1:] = 0.05 * np.clip(rs.randn(len(grp) - 1, 3), -1, 1)
                s[:, grp] += (base + off - s[0][grp])[None]
        self.s = s

    # ---- reference evaluation
    def paths(self, atoms, latt_index=None):
        """(T, n, 3) Cartesian positions relative to the start, following each atom through the boundary."""
        if not self.npt:
            return np.einsum('tij,jk->tik', self.s[:, atoms] - self.s[0, atoms], self.latts[0])
        # fluctuating cell: sum of per-frame displacements (TOR scheme), one atom and one frame at a time
        out = np.zeros((self.T, len(atoms), 3))
        for a, i in enumerate(atoms):
            pos = np.zeros(3)
            for t in range(1, self.T):
                r0 = (self.s[t - 1, i] % 1) @ self.latts[t - 1]
                r1 = (self.s[t, i] % 1) @ self.latts[t]
                d = r1 - r0
                k = np.floor(np.linalg.solve(self.latts[t].T, d) + 0.5)
                pos = pos + d - k @ self.latts[t]
                out[t, a] = pos
        return out

    def sub(self, k):
        """The run as it is when only every k-th frame is stored."""
        import copy
        v = copy.copy(self)
        v.s = self.s[::k]
        v.latts = self.latts[::k]
        v.T = len(v.s)
        return v

    def reported(self, images=0):
        """Fractional coordinates as a code might report them: in the cell, or in any periodic image."""
        s = self.s % 1
        if images and not self.npt:
            r = np.random.RandomState([self.w['seed'], 19, images])
            far = 12 if self.w['seed'] % 3 == 0 else 2
            s = s + r.randint(-far, far + 1, size=s.shape)
        return s


def reference(worlds, opts):
    """Direct evaluation of the observables from the true paths.  opts: kind, dims, k (sub-sampled frames),
    sub_dt, sampling, sel (atom selection), fw, grid, charge, tfac (time unit)."""
    dims = [('xyz').index(c) for c in opts['dims'].lower()]
    per = []
    for w in worlds:
        w = w.sub(opts.get('k', 1))
        sel, fw = selection(w, opts)
        if opts.get('molecules'):
            m = opts['molecules']
            mass = np.array(opts['masses'] or [1.0] * m)
            groups = [sel[i:i + m] for i in range(0, len(sel), m)]
            P = np.stack([np.einsum('tij,i->tj', w.paths(g), mass) / mass.sum() for g in groups], axis=1)
        else:
            P = w.paths(sel)
        if len(fw):
            P = P - w.paths(fw).mean(axis=1)[:, None]
        # kinisi's convention: the first frame also stands for the state one interval before it
        per.append(np.concatenate([P[:1], P]))
    T = worlds[0].sub(opts.get('k', 1)).T
    step = worlds[0].w['ts'] * worlds[0].w['skip'] * opts.get('k', 1)
    grid = grid_of(opts, T)
    n_at = per[0].shape[1]
    out = dict(dt=[], m=[], s=[], dr=[])
    rows = []
    for t in grid:
        origins = range(0, T - t + 1) if opts['sampling'] == 'multi-origin' else range(0, 1)
        n_org = len(origins)
        if n_at * -(-n_org // t) <= 1:
            continue
        obs = np.concatenate([np.stack([Q[j + t] - Q[j] for j in origins], axis=1) for Q in per])
        rows.append((t, obs, len(per) * n_at * grid[-1] / t))
    out['rows'] = len(rows)
    rows = rows[::opts.get('sub_dt', 1)]
    if opts['kind'] != 'diff':
        rows = rows[:len(rows) // 2]
    for t, obs, n_o in rows:
        obs = obs[:, :, dims]
        d2 = (obs**2).sum(-1)
        if opts['kind'] == 'diff':
            q, n = d2.ravel(), n_o
        elif opts['kind'] == 'jump':
            q, n = (obs.sum(0)**2).sum(-1), n_o / obs.shape[0]
        else:
            ch = np.asarray(opts['charge'], float)
            ch = np.full(obs.shape[0], float(ch)) if ch.ndim == 0 else ch
            q, n = ((obs * ch[:, None, None]).sum(0)**2).sum(-1), n_o / obs.shape[0]
        if q.size <= 1:
            continue
        out['dt'].append(t * step * opts.get('tfac', 1.0))
        out['m'].append(q.mean())
        out['s'].append(np.sqrt(q.var(ddof=1) / n))
        out['dr'].append(np.sort(np.sqrt(d2.ravel())))
    out['dt'], out['m'], out['s'] = (np.array(out[k]) for k in ('dt', 'm', 's'))
    out['volume'] = abs(np.linalg.det(worlds[0].latts[0]))
    return out


def grid_of(opts, T):
    g = opts.get('grid')
    if g is None:
        return np.linspace(1, T, min(100, T), dtype=int)
    if g['mode'] == 'stride':
        k, m = g['k'], g['m']
        return np.arange(1, m + 1) * k
    if g['mode'] == 'given':
        return np.array(g['list'])
    if g['mode'] == 'all':  # an upper limit only
        return np.arange(1, g['max'] + 1)
    return np.unique(np.geomspace(1, g['max'], g['n'], dtype=int))


def selection(w, opts):
    atoms = list(range(len(w.species)))
    q = opts.get('sub_atoms', 1)
    kept = atoms[::q]
    if opts.get('sel') is not None:
        sel = list(opts['sel'])
        fw = [i for i in kept if i not in sel]
    else:
        sel = [i for i in kept if i in w.mobile]
        fw = [i for i in kept if i not in w.mobile]
    if opts.get('fw') is not None:
        fw = list(opts['fw'])
    return sel, fw


# ------------------------------------------------------------------ delivery
def as_ase(w, images=0, frames=None, pbc=True):
    from ase import Atoms
    s = w.reported(images)
    return [Atoms(w.species, scaled_positions=s[t], cell=w.latts[t], pbc=pbc)
            for t in (range(w.T) if frames is None else frames)]


def as_structures(w, images=0, frames=None):
    from pymatgen.core import Lattice, Structure
    s = w.reported(images)
    spec = [decorated(w.w, x) for x in w.species]
    return [Structure(Lattice(w.latts[t]), spec, s[t]) for t in (range(w.T) if frames is None else frames)]


def xdatcar_text(w, frames, images=0):
    s = w.reported(images)
    runs = []
    for x in w.species:
        if runs and runs[-1][0] == x:
            runs[-1][1] += 1
        else:
            runs.append([x, 1])

    def head(t):
        rows = '\n'.join('  '.join('%.15f' % v for v in row) for row in w.latts[t])
        return (f"sim\n 1.0\n{rows}\n {' '.join(r[0] for r in runs)}\n {' '.join(str(r[1]) for r in runs)}\n")

    out = []
    for n, t in enumerate(frames):
        if n == 0 or w.npt:
            out.append(head(t))
        out.append(f'Direct configuration= {n + 1:5d}\n')
        out.extend('  '.join('%.14f' % v for v in row) + '\n' for row in s[t])
    return ''.join(out)


def write_xdatcar(path, w, frames, images=0, gz=False):
    text = xdatcar_text(w, frames, images)
    if gz:
        with open(path, 'wb') as f:
            f.write(gzip.compress(text.encode(), mtime=0))
    else:
        with open(path, 'w') as f:
            f.write(text)


def reader_class():
    from MDAnalysis.coordinates.memory import MemoryReader

    class SimReader(MemoryReader):
        """MDAnalysis reader over the simulated source; can be told to fail at a frame."""
        fail_frame = None
        fail_exc = None
        fail_times = 0
        fired = 0

        def _read_next_timestep(self, ts=None):
            nxt = self.ts.frame + 1
            if self.fail_frame is not None and nxt == self.fail_frame and self.fail_times > 0:
                self.fail_times -= 1
                self.fired += 1
                raise self.fail_exc
            return super()._read_next_timestep(ts)

    return SimReader


_RC = None


def as_universe(w, images=0, dtype=np.float32):
    global _RC
    import MDAnalysis as mda
    if _RC is None:
        _RC = reader_class()
    s = w.reported(images)
    pos = np.einsum('tij,tjk->tik', s, w.latts).astype(np.float32)
    dims = np.zeros((w.T, 6), np.float32)
    for t in range(w.T):
        if w.w['cell'] == 'tri':
            dims[t] = mda.lib.mdamath.triclinic_box(*w.latts[t])
        else:
            dims[t] = [*np.diag(w.latts[t]), 90, 90, 90]
    u = mda.Universe.empty(len(w.species), trajectory=False)
    u.add_TopologyAttr('type', w.species)
    u.trajectory = _RC(pos, dimensions=dims)
    return u


KLASS = {'diff': 'DiffusionAnalyzer', 'jump': 'JumpDiffusionAnalyzer', 'cond': 'ConductivityAnalyzer'}


def klass(kind):
    import kinisi.analyze as ka
    return getattr(ka, KLASS[kind])


def parser_params(w, opts, route):
    """The parameters a user would pass for this run."""
    pp = dict(time_step=w.w['ts'], step_skip=w.w['skip'], progress=bool(opts.get('progress')))
    if opts.get('molecules'):
        m = opts['molecules']
        sel = opts['sel']
        pp['specie'] = None
        pp['specie_indices'] = [[i + 1 for i in sel[j:j + m]] for j in range(0, len(sel), m)]
        if opts.get('masses'):
            pp['masses'] = list(opts['masses'])
        if opts.get('fw') is not None:
            pp['framework_indices'] = [i + 1 for i in opts['fw']]
    elif opts.get('sel') is not None:
        pp['specie'] = None
        pp['specie_indices'] = list(opts['sel'])
        if opts.get('fw') is not None:
            pp['framework_indices'] = [i + 1 for i in opts['fw']]
    else:
        a = [decorated(w.w, x) if route == 'pmg' else x for x in names_of(w.w)[:2]]
        pp['specie'] = a if w.w.get('sorts') else a[:1] if w.w['seed'] % 5 == 0 else a[0]
        if opts.get('fw') is not None:
            pp['framework_indices'] = list(opts['fw'])
    if opts.get('k', 1) != 1:
        pp['sub_sample_traj'] = opts['k']
    if opts.get('sub_atoms', 1) != 1 and route == 'mda':
        pp['sub_sample_atoms'] = opts['sub_atoms']
    if opts['sampling'] != 'multi-origin':
        pp['sampling'] = opts['sampling']
    g = opts.get('grid')
    step = w.w['ts'] * w.w['skip'] * opts.get('k', 1)
    if g is not None:
        if g['mode'] == 'stride':
            pp.update(min_dt=g['k'] * step, max_dt=g['k'] * g['m'] * step, n_steps=g['m'])
        elif g['mode'] == 'all':
            pp.update(max_dt=g['max'] * step, n_steps=g['max'])
        else:
            pp.update(max_dt=g['max'] * step, n_steps=g['n'], spacing='logarithmic')
    return pp


def uncertainty_params(opts):
    up = dict(progress=bool(opts.get('progress')))
    if opts['dims'] != 'xyz':
        up['dimension'] = opts['dims']
    if opts.get('sub_dt', 1) != 1:
        up['sub_sample_dt'] = opts['sub_dt']
    if opts.get('bootstrap'):
        up.update(bootstrap=True, n_resamples=opts['bootstrap'][0], max_resamples=opts['bootstrap'][1],
                  random_state=np.random.RandomState(opts['bootstrap'][2]))
    if opts.get('block'):
        up['block'] = True
    return up


def charge_of(opts):
    c = opts.get('charge', 1)
    return np.array(c, float) if isinstance(c, list) else c


def construct(kind, route, src, pp, up, dtype=None, charge=1):
    K = klass(kind)
    f = getattr(K, {'ase': 'from_ase', 'pmg': 'from_pymatgen', 'xdatcar': 'from_Xdatcar', 'file': 'from_file',
                    'mda': 'from_universe'}[route])
    kw = dict(dtype=dtype, uncertainty_params=up)
    if kind == 'cond':
        kw['ionic_charge'] = charge
    return f(src, pp, **kw)


def cuts_to_segments(T, cuts):
    """Consecutive pieces; repeated cut positions give empty pieces."""
    c = [0] + sorted(min(max(x, 0), T) for x in cuts) + [T]
    return [range(a, b) for a, b in zip(c[:-1], c[1:])]


def gen_opts(rng, w, kind=None, route=None, rich=True):
    """Settings valid for this world."""
    kind = kind or rng.choice(('diff', 'diff', 'jump', 'cond'))
    o = dict(kind=kind, dims='xyz', sampling='multi-origin')
    if not rich:
        if rng.random() < 0.3:
            o['dims'] = rng.choice(('x', 'y', 'z', 'xy', 'xz', 'yz'))
        return o
    if rng.random() < 0.5:
        o['dims'] = rng.choice(('x', 'y', 'z', 'xy', 'xz', 'yz'))
        if rng.random() < 0.1:
            o['dims'] = rng.choice((o['dims'].upper(), 'XYZ', 'xY'))
    if rng.random() < 0.25:
        o['sub_dt'] = rng.choice((2, 3))
    if kind == 'diff' and rng.random() < 0.2 and w['nm'] > 1:
        o['sampling'] = 'single-origin'
    if kind == 'cond' and rng.random() < 0.7:
        o['charge'] = rng.choice((2, -1, 0.5, 'list'))
    return o


def make_world(w):
    return World(w)


def snapshot_inputs(route, src):
    """Canonical content of a caller-owned source."""
    if isinstance(src, (list, tuple)):
        return [snapshot_inputs(route, x) for x in src]
    n = type(src).__name__
    if n == 'Atoms':
        return {'p': C(src.get_positions()), 'n': C(src.get_atomic_numbers()), 'c': C(np.array(src.cell[:])),
                'pbc': [bool(b) for b in src.pbc], 'keys': sorted(src.arrays)}
    if n == 'Structure':
        return {'f': C(np.array(src.frac_coords)), 'l': C(np.array(src.lattice.matrix)),
                's': [str(x.specie) for x in src]}
    if n == 'Xdatcar':
        return snapshot_inputs(route, src.structures)
    if n == 'Universe':
        return {'pos': C(src.trajectory.get_array()), 'dim': C(np.array(src.trajectory.dimensions_array)),
                't': [str(x) for x in src.atoms.types]}
    if isinstance(src, str):
        return open(src, 'rb').read()
    if hasattr(src, 'frames_'):
        return snapshot_inputs(route, src.frames_)
    raise TypeError(n)


def params_snapshot(d):
    """Content of a parameter dictionary, random states and arrays included."""
    if isinstance(d, dict):
        return {str(k): params_snapshot(v) for k, v in d.items()}
    if isinstance(d, (list, tuple)):
        return [type(d).__name__] + [params_snapshot(v) for v in d]
    if isinstance(d, np.random.RandomState):
        return 'rng'
    if isinstance(d, np.ndarray):
        return [str(d.dtype), C(d)]
    return [type(d).__name__, repr(d)]


# ------------------------------------------------------------------ analysis steps
STEP = {'diff': 'diffusion', 'jump': 'jump_diffusion', 'cond': 'conductivity'}


def gen_step(rng, light=True):
    s = dict(start=rng.choice((0.0, 0.05, 0.2, 0.4, 0.7)), n_walkers=rng.choice((6, 8, 12)), n_samples=rng.choice((4, 9, 20)),
             n_burn=rng.choice((0, 3, 10)), thin=rng.choice((1, 2, 3)), seed=rng.randrange(2**31),
             mode=rng.choice(('on', 'on', 'on', 'on', 'between', 'zero', 'int', 'late')), temperature=rng.choice((300, 500, 273.15, 1200)))
    if rng.random() < 0.3:
        s['volume'] = rng.choice((100.0, 2222, 5e4))
    r = rng.random()
    if r < 0.08:
        s.update(n_walkers=rng.choice((4, 14, 32, 34)), n_samples=rng.choice((1, 11, 30, 64)), n_burn=rng.choice((0, 1, 25)),
                 thin=rng.choice((1, 4, 7, 10)))
        s['n_samples'] = max(s['n_samples'], s['thin'])
    elif r < 0.11 and not light:
        for k in ('n_walkers', 'n_samples', 'n_burn', 'thin'):
            s.pop(k)  # the defaults
    if rng.random() < 0.35:
        s['fit_intercept'] = False
    elif rng.random() < 0.1:
        s['fit_intercept'] = True
    if rng.random() < 0.3:
        s['model'] = True
    if rng.random() < 0.3:
        s['cond_max'] = rng.choice((1e3, 1e6, 1e12, 10000))
    return s


def vary(rng, s):
    """A step like this one but for the seed or one setting: what a cache might mistake for it."""
    s = dict(s)
    k = rng.choice(('seed', 'seed', 'start', 'fit_intercept', 'model', 'temperature', 'volume', 'cond_max', 'n_burn', 'same'))
    if k == 'seed':
        s['seed'] = rng.randrange(2**31)
    elif k == 'start':
        s['start'], s['mode'] = rng.choice((0.0, 0.1, 0.3)), 'on'
    elif k == 'fit_intercept':
        s[k] = not s.get(k, True)
    elif k == 'model':
        s[k] = not s.get(k, False)
    elif k == 'temperature':
        s[k] = rng.choice((310, 400.5))
    elif k == 'volume':
        s[k] = rng.choice((777.0, 9e3))
    elif k == 'cond_max':
        s[k] = rng.choice((1e2, 1e5, 1e16))
    elif k == 'n_burn':
        s[k] = rng.choice((2, 12))
    return s


def step_params(s, seeded=True, progress=False):
    p = {k: s[k] for k in ('n_walkers', 'n_samples', 'n_burn', 'thin') if k in s}
    for k in ('fit_intercept', 'model', 'cond_max'):
        if k in s:
            p[k] = s[k]
    p['progress'] = progress
    if seeded:
        p['random_state'] = np.random.RandomState(s['seed'] % (2**31))
    return p


def start_of(an, s):
    """The start of the diffusive regime asked for: on an interval, between two, zero, or a whole number."""
    dt = an.dt
    i = min(int(s['start'] * len(dt)), max(len(dt) - 3, 0))
    mode = s.get('mode', 'on')
    if mode == 'between' and i > 0:
        near = 0.4 if s.get('seed', 0) % 2 else 0.75
        return float(near * dt[i - 1] + (1 - near) * dt[i])
    if mode == 'late':  # only two intervals are left
        return float(dt[max(len(dt) - 2, 0)])
    if mode == 'zero':
        return 0 if s.get('n_burn', 0) % 2 else 0.0
    if mode == 'int' and dt[0] >= 1:
        return int(dt[i])
    return float(dt[i])


def do_step(an, kind, s, seeded=True, progress=False, start=None, params=None):
    """One analysis step through the public API."""
    p = step_params(s, seeded, progress) if params is None else params
    st = start_of(an, s) if start is None else start
    if kind == 'diff':
        an.diffusion(st, p)
    elif kind == 'jump':
        an.jump_diffusion(st, p)
    else:
        an.conductivity(st, s.get('temperature', 500), p)


def boot_step(b, which, s, seeded=True, progress=False, start=None):
    p = step_params(s, seeded, progress)
    st = start_of(b, s) if start is None else start
    if which == 'diff':
        b.diffusion(st, **p)
    elif which == 'jump':
        b.jump_diffusion(st, **p)
    else:
        b.conductivity(st, s.get('temperature', 500), s.get('volume', 1000.0), **p)


def simple(spec):
    """A small analysis for tests whose subject is not delivery.  spec: world, opts, route."""
    w = World(spec['world'])
    o = spec['opts']
    route = spec.get('route', 'ase')
    f = {'ase': as_ase, 'pmg': as_structures, 'mda': as_universe}[route]
    src, dtype = f(w), None
    o = dict(o)
    n = len(w.mobile)
    if spec.get('dtype') == 'identical':
        src, dtype = [src, f(World(spec['world'], 1))], 'identical'
        n *= 2
    elif spec.get('dtype') == 'consecutive' and route != 'mda':
        c = w.T // 3
        src, dtype = [src[:c], src[c:]], 'consecutive'
    if o.get('charge') == 'list':
        o['charge'] = [(-1.0)**i * (1 + i % 3) for i in range(n)]
    return construct(o['kind'], route, src, parser_params(w, o, route), uncertainty_params(o), dtype=dtype, charge=charge_of(o))


def gen_simple(rng, kind=None, boot_ok=True, block_ok=True, tmin=10, tmax=24):
    route = rng.choice(('ase', 'ase', 'pmg', 'mda'))
    w = gen_world(rng, npt_ok=False, tmin=tmin, tmax=tmax)
    o = gen_opts(rng, w, kind)
    if o.get('sub_dt', 1) > 1:
        w['T'] = max(w['T'], 12 * o['sub_dt'])
    elif o['kind'] != 'diff':
        w['T'] = max(w['T'], 14)
    if boot_ok and rng.random() < 0.25:
        o['bootstrap'] = [rng.choice((30, 40)), rng.choice((40, 250)), rng.randrange(10**6)]
        o['sampling'] = 'multi-origin'
    elif block_ok and rng.random() < 0.12:
        o['block'] = True
    r = rng.random()
    if o.get('sub_dt', 1) == 1 and (r < 0.1 or (w['T'] > 100 and r < 0.6)):
        T = w['T']
        o['grid'] = rng.choice((dict(mode='all', max=T), dict(mode='all', max=T), dict(mode='log', max=T, n=T),
                                dict(mode='stride', k=1, m=T - 1)))
    elif r > 0.975:
        # large arrays
        w.update(nm=rng.choice((60, 110)), nf=0, T=rng.choice((40, 64)))
        o.update(grid=dict(mode='stride', k=rng.choice((1, 2)), m=16), sub_dt=1)
        o.pop('bootstrap', None)
        o.pop('block', None)
    sp = dict(world=w, opts=o, route=route)
    if rng.random() < 0.12:
        sp['dtype'] = rng.choice(('identical', 'identical', 'consecutive'))
    return sp


def simio():
    import ctypes
    lib = ctypes.CDLL(None)
    lib.sim_arm.argtypes = [ctypes.c_char_p]
    lib.sim_plan.argtypes = [ctypes.c_int] * 5
    lib.sim_capacity.argtypes = [ctypes.c_longlong]
    lib.sim_count.restype = ctypes.c_long
    lib.sim_fired.restype = ctypes.c_long
    lib.sim_enospc.restype = ctypes.c_long
    lib.sim_log.restype = ctypes.c_char_p
    return lib


def dig(o):
    import hashlib
    return hashlib.sha256(repr(o).encode()).hexdigest()[:12]
