"""C03: a file name is written at most once and reads back what was saved under it."""
import copy
import os
import pathlib

from .. import boot
from .. import world as W
from ..core import in_fork
from ..sched import Scheduler, Deadlock, sub_rng

ID = 'C03'
LEVEL = 'exploration'
TIERS = {'quick': dict(runs=1500, budget=240, redo=25), 'thorough': dict(runs=60000, budget=1500, redo=150)}
RULE = ('a run lets one to four threads save and load analyses under colliding and near-colliding names, the scheduler '
        'choosing who runs at every source line of kinisi, and compares the history and the files with a map of names to '
        'analyses; distinct = (per-name operation pattern, outcome, places of the switches) combinations')
ASSUMPTIONS = ['threads of one process', 'switches at source lines of kinisi (library calls are atomic)', 'a healthy disk',
               'no one deletes files meanwhile']
REAL = ['kinisi save and load', 'h5py and HDF5', 'file system contents in a scratch directory']
STUBS = ['thread scheduling', 'a file system without hard links in some runs', 'entropy']

# names grouped so that members of a group are easily confused
GROUPS = (
    ('run', 'run.hdf', 'run.x', './run', 'run.h5', 'RUNABS', 'sub/../run'),
    ('a.b', 'a.c', 'a', 'a.b.c', 'a.b.hdf', './a.b.d'),
    ('v1.0/r', 'v1.1/r', 'v1/r', 'v1.0/r.hdf', 'v1.0/s'),
    ('./x.y/z', 'x.y/z.w', 'x.z/z', 'x/z', 'x.y/z'),
    ('sub/run', 'sub/run.hdf', 'run', '../sim/sub/run', 'sub/.run'),
    ('T=300.5K', 'T=300.7K', 'T=300', 'T=300.5K.hdf', 'T=300.50K'),
    ('n.partial', 'n.tmp', 'n', 'n.hdf.partial', 'n.hdf'),
    ('Run', 'run', 'RUN', 'run.HDF', 'Run.hdf', 'rUn.x'),
    ('.run', 'run', '..run', '.run.hdf', '.run.x', '.hdf', 'run.'),
    ('r n', 'rn', 'r_n', ' r n', 'r n.hdf', 'r-n', 'r n .x'),
    ('r\u00e9', 're', 're\u0301', 'r\u00e9.hdf', 'r'),
    ('L' * 240 + 'a', 'L' * 240 + 'b', 'L' * 240, 'L' * 240 + 'a.hdf'),
    ('run#1', 'run#2', 'run%1', 'run', 'run?1', 'run[1]', 'run~', '~run'),
    ('v1/r', 'v1/v1/r', 'r', 'v1/../r', 'sub/r', 'v1//r'),
    ('run1', 'run10', 'run01', 'run', 'run1.0', 'run1.hdf1'),
    ('P:run', 'run', 'P:sub/run', 'sub/run', 'P:run.hdf', 'ln/run'),
)
DIRS = ('sub', 'v1.0', 'v1.1', 'v1', 'v1/v1', 'x.y', 'x.z', 'x')


def gen(rng, tier, idx):
    specs = [W.gen_simple(rng, kind=rng.choice(('diff', 'jump', 'cond')), tmin=8, tmax=14) for _ in range(2)]
    g = rng.choice(GROUPS)
    names = rng.sample(g, min(len(g), rng.choice((1, 2, 3, 4))))
    nthr = rng.choice((1, 2, 2, 3, 4))
    thr = []
    for _ in range(nthr):
        ops = []
        for _ in range(rng.choice((1, 1, 2, 3, 5)) + (2 if nthr == 1 else 0)):
            if rng.random() < 0.65:
                ops.append(['save', rng.randrange(4), rng.randrange(len(names))])
            else:
                ops.append(['load', rng.randrange(len(names))])
        thr.append(ops)
    pre = []
    if rng.random() < 0.4:
        pre.append([rng.randrange(len(names)), rng.choice(('valid', 'garbage', 'empty'))])
    if rng.random() < 0.3:
        ops = []
        for _ in range(rng.choice((4, 6, 9, 12))):
            r = rng.random()
            j = rng.randrange(len(names))
            ops.append(['save', rng.randrange(4), j] if r < 0.4 else ['load', j] if r < 0.62 else ['other', j] if r < 0.74
                       else ['rm', j] if r < 0.88 else ['cd', rng.choice(('.', 'sub', 'v1'))])
        return dict(specs=specs, names=names, seq=ops, nolink=rng.random() < 0.3, pre=pre, how=rng.choice(('valid', 'garbage', 'dir', 'symlink')))
    return dict(specs=specs, names=names, threads=thr, pre=pre, sched=rng.randrange(10**9),
                switch=rng.choice((0.02, 0.1, 0.3)), nolink=rng.random() < 0.3, bystanders=rng.random() < 0.4)


def key_of(name, d):
    p = os.path.splitext(path_of(name, d))[0] + '.hdf'
    return os.path.normpath(os.path.join(d, p)).replace(d + '/ln/', d + '/sub/')


def path_of(name, d):
    if name.startswith('P:'):
        return pathlib.Path(name[2:])
    return os.path.join(d, 'runabs') if name == 'RUNABS' else name


def read_all(d):
    out = {}
    for root, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(root, f)
            out[p] = open(p, 'rb').read()
    return out


def load_view(kind, path, d):
    os.chdir(d)
    return W.observe(W.klass(kind).load(path), ppd=False)


def run(sc, run):
    ans, kinds = [], []
    for n, sp in enumerate(sc['specs']):
        for step in (False, True):
            a = W.simple(sp)
            if step:
                W.do_step(a, sp['opts']['kind'], dict(start=0.0, n_walkers=6, n_samples=6, n_burn=2, thin=1, seed=5 + n))
            ans.append(a)
            kinds.append(sp['opts']['kind'])
    views = [W.observe(a, ppd=False) for a in ans]
    d = os.path.join(run.scratch, 'sim')
    os.makedirs(d)
    os.chdir(d)
    for s in DIRS:
        os.makedirs(s)
    os.symlink('sub', 'ln')
    if 'seq' in sc:
        return run_seq(sc, run, ans, kinds, views, d)
    names = sc['names']
    keys = [key_of(n, d) for n in names]
    state = {}  # key -> index of the analysis stored there, or -1 for something else
    for i, how in sc['pre']:
        k = keys[i % len(keys)]
        if how == 'valid':
            ans[0].save(path_of(names[i % len(keys)], d))
            run.expect(os.path.exists(k), 'wrong-file', f'saving under {names[i % len(keys)]!r} did not create {k[len(d):]}')
            state[k] = 0
        else:
            with open(k, 'wb') as f:
                f.write(b'' if how == 'empty' else b'not an analysis')
            state[k] = -1
    if sc['bystanders']:
        for k in set(keys):
            for suf in ('', '.partial', '.tmp', '.bak', '.lock'):
                p = k[:-4] if suf == '' else k + suf
                if p not in keys and not os.path.exists(p) and p not in state:
                    with open(p, 'wb') as f:
                        f.write(b'bystander ' + suf.encode())
    before = read_all(d)
    lib = W.simio()
    lib.sim_arm(d.encode())
    lib.sim_nolink(int(sc['nolink']))
    if sc['nolink']:
        run.count('fault:no hard links')
    hist = []  # (thread, op, key, begin, end, outcome, value)
    sch = Scheduler(sub_rng('c03', sc['sched']), [boot.REPO + '/kinisi/'], sc['switch'],
                    hot=lambda f, n: n in ('save', 'load'))
    clock = [0]

    def tick():
        clock[0] += 1
        return clock[0]

    def body(t):

        def go():
            for op in sc['threads'][t]:
                j = op[-1] % len(names)
                rec = [t, op[0], j, tick(), None, None, None, op[1] % len(ans) if op[0] == 'save' else None]
                hist.append(rec)
                try:
                    if op[0] == 'save':
                        ans[rec[7]].save(path_of(names[j], d))
                        rec[5] = 'ok'
                    else:
                        # the class is that of the first analysis; what is loaded shows what was saved
                        rec[6] = W.observe(W.klass('diff').load(path_of(names[j], d)), ppd=False)
                        rec[5] = 'ok'
                except Deadlock:
                    raise
                except Exception as e:
                    rec[5] = 'exc'
                    rec[6] = e
                rec[4] = tick()

        return go

    res = sch.run([body(t) for t in range(len(sc['threads']))])
    lib.sim_disarm()
    for st, e in res:
        if st == 'exc' and isinstance(e, Deadlock):
            run.fail('deadlock', 'the threads wait for one another for ever')
        if st == 'exc':
            raise e
    run.count('schedule points', sch.points)
    run.count('context switches', sch.switches)
    run.count('fault:thread switch', sch.switches)
    run.log('switches', sch.trace)
    for h in hist:
        run.log(h[0], h[1], names[h[2]], h[3], h[4], h[5], type(h[6]).__name__, h[7])
    after = read_all(d)
    as_diff = {}

    def view_as_diff(i):
        """What analysis i looks like when loaded with the class used for loading."""
        if i not in as_diff:
            dct = ans[i].to_dict()
            as_diff[i] = W.observe(W.klass('diff').from_dict(dct), ppd=False)
        return as_diff[i]

    for k in sorted(set(keys)):
        mine = [h for h in hist if keys[h[2]] == k]
        saves = [h for h in mine if h[1] == 'save']
        won = [h for h in saves if h[5] == 'ok']
        nm = '/'.join(sorted({names[j] for j in range(len(names)) if keys[j] == k}))
        if k in state:
            run.expect(not won, 'overwritten', lambda: f'save under {nm} succeeded although the file existed')
            run.expect(after.get(k) == before[k], 'overwritten', f'the existing file of {nm} was changed')
        else:
            run.expect(len(won) <= 1, 'two-winners', f'{len(won)} saves under {nm} returned normally')
            if saves and not won:
                # refused without a competitor?
                for h in saves:
                    rivals = [g for g in saves if g is not h]
                    run.expect(bool(rivals), 'save-refused',
                               lambda: f'the only save under {nm} raised {type(h[6]).__name__}: {h[6]}')
                first = min(saves, key=lambda h: h[4])
                conc = [g for g in saves if g is not first and g[3] < first[4]]
                run.expect(bool(conc), 'save-refused',
                           lambda: f'the first save under {nm} raised {type(first[6]).__name__}: {first[6]}')
            run.expect((k in after) == bool(won), 'wrong-file',
                       f'{nm}: {len(won)} saves returned normally but the file ' + ('exists' if k in after else 'is missing'))
        owner = state.get(k, won[0][7] if won else None)
        for h in mine:
            if h[1] != 'load':
                continue
            if h[5] == 'ok':
                run.expect(owner is not None and owner >= 0, 'wrong-load',
                           f'load of {nm} returned an analysis though none was saved under it')
                run.same(h[6], view_as_diff(owner), 'wrong-load', f'load of {nm} is not what was saved under it')
                if k not in state:
                    run.expect(won[0][3] < h[4], 'wrong-load', f'load of {nm} returned before the save began')
            elif k in state:
                run.expect(state[k] < 0, 'load-failed', lambda: f'load of {nm} raised {type(h[6]).__name__}: {h[6]}')
            elif won:
                run.expect(h[3] < won[0][4], 'load-failed',
                           lambda: f'load of {nm} after its save returned raised {type(h[6]).__name__}: {h[6]}')
        if owner is not None and owner >= 0:
            name = next(names[j] for j in range(len(names)) if keys[j] == k)
            st, v = in_fork(load_view, kinds[owner], path_of(name, d), d)
            run.expect(st == 'ok', 'load-failed', lambda: f'in the end {nm} does not load: {v!r}'[:300])
            run.same(v, views[owner], 'wrong-load', f'in the end {nm} loads as something else than was saved under it')
        if saves:
            run.sig(len(saves), len(won), k in state, sc['nolink'], len(sc['threads']),
                    ' '.join(sorted({p[0] for p in sch.places})))
        run.count('probe:contended name', int(len({h[0] for h in saves}) > 1))
    for p, b in before.items():
        run.expect(after.get(p) == b, 'other-file', f'the file {p[len(d):]} was ' + ('changed' if p in after else 'removed'))
    for i, a in enumerate(ans):
        run.same(W.observe(a, ppd=False), views[i], 'changed-by-save', 'an analysis changed by being saved')


def run_seq(sc, run, ans, kinds, views, d):
    """One thread, exact expectations: a map from files to analyses."""
    names = sc['names']
    model, other = {}, {}
    cwd = d
    lib = W.simio()
    if sc['pre']:
        k = key_of(names[sc['pre'][0][0] % len(names)], d)
        if sc['how'] == 'valid':
            ans[0].save(k)
            model[k] = 0
        elif sc['how'] == 'dir':
            os.makedirs(k)
            other[k] = None
        elif sc['how'] == 'symlink':
            ans[1].save(os.path.join(d, 'elsewhere'))
            os.symlink(os.path.join(d, 'elsewhere.hdf'), k)
            model[os.path.join(d, 'elsewhere.hdf')] = 1
            model[k] = 1
        else:
            with open(k, 'wb') as f:
                f.write(b'not an analysis')
            other[k] = b'not an analysis'
    lib.sim_arm(d.encode())
    lib.sim_nolink(int(sc['nolink']))
    if sc['nolink']:
        run.count('fault:no hard links')
    bytes_ = {k: open(k, 'rb').read() for k in model}
    for n, op in enumerate(sc['seq']):
        if op[0] == 'cd':
            cwd = os.path.normpath(os.path.join(d, op[1]))
            os.chdir(cwd)
            continue
        name = names[op[-1] % len(names)]
        if (name.startswith('../') or 'ln/' in name or 'v1/' in name or 'sub/' in name or name.startswith(('x', 'P:sub', 'v1', './x'))) and cwd != d:
            cwd = d  # the directories in the name are there
            os.chdir(cwd)
        k = os.path.normpath(os.path.join(cwd, os.path.splitext(path_of(name, d))[0] + '.hdf')).replace(d + '/ln/', d + '/sub/')
        what = f'operation {n} {op[0]} {name[:40]!r} in {cwd[len(d):] or "/"}'
        if op[0] == 'save':
            a = op[1] % len(ans)
            try:
                ans[a].save(path_of(name, d))
                ok = None
            except Exception as e:
                ok = e
            run.log(n, 'save', name, type(ok).__name__)
            if k in model or k in other:
                run.expect(ok is not None, 'overwritten', f'{what}: succeeded although {k[len(d):]} existed')
            else:
                run.expect(ok is None, 'save-refused', lambda: f'{what}: raised {type(ok).__name__}: {ok}')
                run.expect(os.path.exists(k), 'wrong-file', f'{what}: {k[len(d):]} was not created')
                model[k] = a
                bytes_[k] = open(k, 'rb').read()
        elif op[0] in ('load', 'other'):
            i = model.get(k)
            K = kinds[i] if i is not None else kinds[0]
            if op[0] == 'other':
                st, v = in_fork(lambda: W.observe(W.klass(K).load(path_of(name, d)), ppd=False))
                run.count('fault:process boundary')
            else:
                try:
                    st, v = 'ok', W.observe(W.klass(K).load(path_of(name, d)), ppd=False)
                except Exception as e:
                    st, v = 'exc', e
            run.log(n, op[0], name, st)
            if i is None:
                run.expect(st == 'exc', 'wrong-load', f'{what}: returned an analysis though there is none')
            else:
                run.expect(st == 'ok', 'load-failed', lambda: f'{what}: {st} {v!r}'[:300])
                run.same(v, views[i], 'wrong-load', f'{what}: is not what was saved under it')
        else:
            if k in model and not (sc['how'] == 'symlink' and sc['pre']):
                os.remove(k)
                model.pop(k), bytes_.pop(k)
                run.count('fault:file deleted by the caller')
        for q, b in bytes_.items():
            run.expect(os.path.exists(q) and open(q, 'rb').read() == b, 'overwritten', f'{what}: {q[len(d):]} was changed')
        for q, b in other.items():
            run.expect(os.path.isdir(q) if b is None else os.path.isfile(q) and open(q, 'rb').read() == b, 'overwritten',
                       f'{what}: {q[len(d):]}, which was there before, was changed')
    lib.sim_disarm()
    run.sig('seq', len(names), sc['nolink'], bool(sc['pre']) and sc['how'], ' '.join(o[0] for o in sc['seq']))


def shrink(sc):
    if 'seq' in sc:
        for i in range(len(sc['seq'])):
            if len(sc['seq']) > 1:
                c = copy.deepcopy(sc)
                del c['seq'][i]
                yield c
        if sc['pre']:
            yield dict(copy.deepcopy(sc), pre=[])
        if sc['nolink']:
            yield dict(copy.deepcopy(sc), nolink=False)
        return
    for t in range(len(sc['threads'])):
        if len(sc['threads']) > 1:
            c = copy.deepcopy(sc)
            del c['threads'][t]
            yield c
        for i in range(len(sc['threads'][t])):
            if len(sc['threads'][t]) > 1:
                c = copy.deepcopy(sc)
                del c['threads'][t][i]
                yield c
    for k, v in (('pre', []), ('nolink', False), ('bystanders', False), ('switch', 0.02)):
        if sc[k] != v:
            c = copy.deepcopy(sc)
            c[k] = v
            yield c
    if len(sc['names']) > 1:
        c = copy.deepcopy(sc)
        c['names'].pop()
        yield c
