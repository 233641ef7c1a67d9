"""C02: a save that fails or is cut short never leaves a wrong or half-written file."""
import copy
import os

from .. import boot
from .. import world as W
from ..core import in_fork, HarnessError
from ..sched import LineRecorder, choose_point

ID = 'C02'
LEVEL = 'exploration'
TIERS = {'quick': dict(runs=1500, budget=240, redo=25), 'thorough': dict(runs=60000, budget=1500, redo=150)}
RULE = ('a run saves (or loads) one analysis on a simulated disk and injects one to three faults at file operations, '
        'source lines or process-death points chosen from a fault-free dry run; distinct = (operation hit, fault kind, '
        'outcome, what was in the directory) combinations in which a fault fired')
ASSUMPTIONS = ['process death, not power loss: what the operating system accepted survives',
               'reads return an error or fewer bytes, never wrong bytes',
               'the HDF5 library may end the process when used again after a failed write; that counts as a process death']
REAL = ['kinisi save and load', 'h5py and HDF5', 'file system contents in a scratch directory']
STUBS = ['libc file calls (errors, short and torn writes, full disk, death of the process)', 'source-line interrupts',
         'entropy']

NAMES = ('run', 'run.hdf', 'run.x', 'a.b.c', 'sub/run', './run', 'sub.dir/run', 'ABS')
ERRNO = (5, 28, 4, 13, 122, 30, 1, 95, 24)


def gen(rng, tier, idx):
    spec = W.gen_simple(rng)
    sc = dict(spec=spec, steps=[W.gen_step(rng) for _ in range(rng.choice((0, 0, 1)))],
              name=rng.choice(NAMES), others=rng.choice((0, 1, 1, 2)),
              mode=rng.choice(('io', 'io', 'io', 'io', 'crash', 'crash', 'cap', 'line', 'read', 'read', 'rline', 'h5', 'rh5')))
    if rng.random() < 0.08:
        # arrays too large for HDF5's buffers: written one by one, as they are handed over
        spec['world'].update(nm=rng.choice((60, 110)), nf=0, T=rng.choice((40, 64)))
        spec['opts'].pop('bootstrap', None)
        spec['opts'].pop('block', None)
        spec['opts'].update(grid=dict(mode='stride', k=rng.choice((1, 2, 5)), m=rng.choice((5, 8))), sub_dt=1)
        sc['steps'] = []
        sc['big'] = True
    if sc['mode'] in ('io', 'crash', 'read'):
        fs = []
        for _ in range(1 if sc['mode'] == 'crash' else rng.choice((1, 1, 1, 2, 3))):
            f = dict(u1=rng.random(), u2=rng.random())
            if sc['mode'] == 'crash':
                f.update(action=rng.choice((3, 4, 5)), arg=rng.randrange(1000), persist=0)
            elif sc['mode'] == 'read':
                f.update(action=rng.choice((1, 2, 2)), persist=int(rng.random() < 0.4))
                f['arg'] = rng.choice((5, 4, 116, 12)) if f['action'] == 1 else rng.randrange(1000)
            else:
                f.update(action=rng.choice((1, 1, 2)), persist=int(rng.random() < 0.4))
                f['arg'] = rng.choice(ERRNO) if f['action'] == 1 else rng.randrange(1000)
            if f['action'] == 1 and f['arg'] == 4:
                f['persist'] = 0  # an interrupted call succeeds when repeated
            fs.append(f)
        if sc['mode'] == 'io' and rng.random() < 0.25:
            # an error and then, while it is being dealt with, the death of the process
            fs.append(dict(u1=rng.random(), u2=rng.random(), action=3, arg=0, persist=0, after=rng.randrange(6)))
        sc['faults'] = fs
    elif sc['mode'] == 'cap':
        sc['cap'] = rng.random()
    elif sc['mode'] in ('h5', 'rh5'):
        sc['h5'] = [rng.random(), rng.random(), rng.choice(('os', 'os', 'rt', 'mem'))]
    else:
        sc['line'] = [rng.random(), rng.random(), rng.choice(('kbd', 'mem', 'os'))]
    sc['again'] = rng.random() < 0.5
    return sc


EXC = {'kbd': KeyboardInterrupt, 'mem': MemoryError, 'os': lambda: OSError(5, 'Input/output error'),
       'rt': lambda: RuntimeError('Unable to write data')}


H5 = (('Group', 'create_group'), ('Group', 'create_dataset'), ('Group', '__setitem__'), ('Group', '__getitem__'),
      ('Group', 'keys'), ('Group', 'items'), ('Group', '__iter__'), ('Dataset', '__getitem__'), ('File', '__init__'), ('File', 'close'))


class H5Seam:
    """Errors reported by the HDF5 library itself: the n-th call of one of its entry points raises."""

    def __init__(self, target=None, exc=None):
        self.target, self.exc, self.calls, self.fired, self.depth = target, exc, [], None, 0

    def __enter__(self):
        import h5py
        self.real = []
        for c, n in H5:
            k = getattr(h5py, c)
            self.real.append((k, n, k.__dict__.get(n)))
            setattr(k, n, self.wrap(n, getattr(k, n)))
        return self

    def wrap(self, name, f):
        def call(*a, **kw):
            if self.depth:
                return f(*a, **kw)
            self.depth += 1
            try:
                here = len(self.calls)
                self.calls.append((here, name))
                if here == self.target:
                    self.fired = name
                    if name == 'close':
                        f(*a, **kw)
                    raise self.exc
                return f(*a, **kw)
            finally:
                self.depth -= 1
        return call

    def __exit__(self, *a):
        for k, n, f in self.real:
            if f is None:
                delattr(k, n)
            else:
                setattr(k, n, f)


def full(name, d):
    return os.path.join(d, 'abs_run') if name == 'ABS' else name


def model(path):
    return os.path.splitext(path)[0] + '.hdf'


def files(d):
    out = {}
    for root, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(root, f)
            out[os.path.relpath(p, d)] = open(p, 'rb').read()
    return out


def prepare(d, others, name):
    os.makedirs(d)
    os.chdir(d)
    for s in ('sub', 'sub.dir'):
        os.makedirs(s)
    if others:
        stem = model(full(name, d))
        near = [stem[:-4], stem + '.old', stem + '.partial', stem + '.tmp', stem[:-4] + '.txt', stem[:-4] + '2.hdf',
                os.path.join(d, 'sub', 'x.hdf'), stem + '~', stem + '.bak', os.path.join(os.path.dirname(stem) or '.', 'tmp')]
        for i, p in enumerate(near):
            if others == 2 or i % 2 == 0:
                if not os.path.isdir(p):
                    with open(p, 'wb') as f:
                        f.write(b'other %d' % i)


def dry_save(an, sc, d):
    prepare(d, sc['others'], sc['name'])
    lib = W.simio()
    lib.sim_arm(d.encode())
    rec = LineRecorder([boot.REPO + '/kinisi/'])
    h5 = H5Seam()
    if sc['mode'] == 'h5':
        with h5:
            an.save(full(sc['name'], d))
    else:
        with rec:
            an.save(full(sc['name'], d))
    n, log = lib.sim_count(0), lib.sim_log().decode()
    lib.sim_disarm()
    p = model(full(sc['name'], d))
    if not os.path.exists(p):
        return None
    return dict(n=n, ops=ops_of(log), lines=rec.events, h5=h5.calls, size=os.path.getsize(p))


def ops_of(log):
    """[(number, kind)] of the mutating operations"""
    out = []
    for line in log.splitlines():
        a = line.split()
        if a and a[0].isdigit():
            k = a[1]
            if k == 'pwrite' or k == 'write':
                k += a[3] if a[3] in ('off=0', ) else ''
            out.append((int(a[0]), k))
    return out


def pick(ops, u1, u2):
    by = {}
    for n, k in ops:
        by.setdefault(k, []).append(n)
    ks = sorted(by)
    if u1 < 0.4:  # any operation
        return ops[min(int(u2 * len(ops)), len(ops) - 1)][0]
    k = ks[min(int((u1 - 0.4) / 0.6 * len(ks)), len(ks) - 1)]
    return by[k][min(int(u2 * len(by[k])), len(by[k]) - 1)]


def arm_plan(lib, sc, info, cls):
    first = None
    for f in sc['faults']:
        nth = pick(info['ops'], f['u1'], f['u2'])
        if 'after' in f:
            nth = (first or 0) + 1 + f['after']
        elif first is None:
            first = nth
        lib.sim_plan(cls, nth, f['action'], f['arg'], f['persist'])


def fired_of(lib):
    return {n: lib.sim_fired(a) for a, n in ((1, 'errno'), (2, 'short')) if lib.sim_fired(a)}


def attempt(an, sc, d, info):
    """The save under faults, in a process of its own.  Returns what happened, as plain data."""
    os.chdir(d)
    lib = W.simio()
    lib.sim_arm(d.encode())
    rec = h5 = None
    if sc['mode'] in ('io', 'crash'):
        arm_plan(lib, sc, info, 0)
    elif sc['mode'] == 'cap':
        lib.sim_capacity(int(sc['cap'] * info['size']))
    try:
        if sc['mode'] == 'line':
            t = choose_point(info['lines'], sc['line'][0], sc['line'][1])
            rec = LineRecorder([boot.REPO + '/kinisi/'], t, EXC[sc['line'][2]]())
            with rec:
                an.save(full(sc['name'], d))
        elif sc['mode'] == 'h5':
            h5 = H5Seam(pick(info['h5'], *sc['h5'][:2]), EXC[sc['h5'][2]]())
            with h5:
                an.save(full(sc['name'], d))
        else:
            an.save(full(sc['name'], d))
        out = ('ok', '')
    except BaseException as e:  # noqa
        out = ('exc', type(e).__name__)
    fired = fired_of(lib)
    if sc['mode'] == 'cap':
        fired = {'enospc': lib.sim_enospc()} if lib.sim_enospc() else {}
    if rec is not None and rec.fired:
        fired = {'line ' + rec.fired: 1}
    if h5 is not None and h5.fired:
        fired = {'HDF5 ' + h5.fired: 1}
    log = lib.sim_log().decode()
    lib.sim_disarm()
    snap = files(d) if sc['again'] else None
    return dict(out=out, fired=fired, log=log, snap=snap)


def again_in_process(an, sc, d, info):
    """The failed attempt and then, in the same process with the fault gone, another save."""
    r = attempt(an, sc, d, info)
    if r['out'][0] == 'ok':
        return None
    try:
        an.save(full(sc['name'], d))
        return ('ok', '')
    except Exception as e:
        return ('exc', f'{type(e).__name__}: {e}')


def load_view(kind, path, d):
    os.chdir(d)
    an = W.klass(kind).load(path)
    return W.observe(an, ppd=False)


def check_target(run, sc, d, want, desc, must):
    kind = sc['spec']['opts']['kind']
    t = model(full(sc['name'], d))
    if not os.path.exists(os.path.join(d, t)):
        run.expect(not must, 'lost', f'{desc}: save returned normally but there is no file {t}')
        return False
    st, v = in_fork(load_view, kind, full(sc['name'], d), d)
    run.expect(st == 'ok', 'half-written',
               f'{desc}: the file {os.path.basename(t)} exists but does not load ({st}: {v!r})'[:400])
    run.same(v, want, 'wrong-content', f'{desc}: the file {os.path.basename(t)} loads as a different analysis')
    return True


def check_others(run, before, d, sc, desc):
    after = files(d)
    tgt = os.path.relpath(os.path.join(d, model(full(sc['name'], d))), d)
    for p, b in before.items():
        if p == tgt:
            continue
        run.expect(after.get(p) == b, 'other-file', f'{desc}: the file {p} was ' + (
            'removed' if p not in after else 'changed'))


def run(sc, run):
    kind = sc['spec']['opts']['kind']
    an = W.simple(sc['spec'])
    for s in sc['steps']:
        W.do_step(an, kind, s)
    want = W.observe(an, ppd=False)
    st, info = in_fork(dry_save, an, sc, os.path.join(run.scratch, 'dry'))
    if st != 'ok':
        run.fail('unexpected-error', f'a fault-free save ended with {st}: {info!r}')
    run.expect(info is not None, 'lost', 'a fault-free save returned normally without leaving the file')
    if not info['ops']:
        raise HarnessError('no file operation seen')
    d = os.path.join(run.scratch, 'sim')
    cwd = os.getcwd()
    prepare(d, sc['others'], sc['name'])
    os.chdir(cwd)
    if sc['mode'] in ('read', 'rline', 'rh5'):
        return run_load(sc, run, an, want, info, d)
    before = files(d)
    st, r = in_fork(attempt, an, sc, d, info)
    desc = f"save({sc['name']!r}) under {sc['mode']} faults"
    iolog = d + '.iolog'
    if st == 'died':
        code = os.waitstatus_to_exitcode(r)
        fired = {'process death': 1} if code == 77 else {'library abort': 1}
        if code != 77:
            run.fail('died', f'{desc}: the process was killed ({code}) by the failing file operation')
        log = open(iolog).read() if os.path.exists(iolog) else ''
        out = ('died', '')
        if os.path.exists(iolog):
            os.remove(iolog)
    elif st == 'exc':
        raise HarnessError(repr(r))
    else:
        out, fired, log = r['out'], r['fired'], r['log']
    for k in fired:
        run.count('fault:' + k.split()[0] if k.startswith(('line', 'HDF5')) else f'fault:{k}')
    if out[0] == 'exc' and not fired:
        run.fail('unexpected-error', f'{desc}: raised {out[1]} though no fault was injected')
    run.log(sc['mode'], sc['name'], out, sorted(fired), W.dig(log.replace(run.scratch, '')))
    hit = [ln.split(' -> ')[0].split()[1] for ln in log.splitlines() if 'errno' in ln or 'ENOSPC' in ln]
    last = log.splitlines()[-1].split() if log else ['?', '?']
    where = ','.join(sorted(set(hit))) or (last[1] if out[0] == 'died' else next(iter(fired), 'none'))
    run.log('hit', where)
    desc += f' ({where}; outcome {out[0]} {out[1]})'
    check_others(run, before, d, sc, desc)
    there = check_target(run, sc, d, want, desc, out[0] == 'ok')
    if fired:
        run.sig(sc['mode'], where, out, there, sc['others'], bool(sc['steps']), kind)
    # the fault is gone: a new process saves again
    tgt = os.path.join(d, model(full(sc['name'], d)))
    bytes_before = open(tgt, 'rb').read() if there else None
    mid = files(d)

    def retry():
        os.chdir(d)
        try:
            an.save(full(sc['name'], d))
            return ('ok', '')
        except Exception as e:
            return ('exc', f'{type(e).__name__}: {e}')

    st, v = in_fork(retry)
    if st != 'ok':
        run.fail('retry-died', f'{desc}: saving again in a new process ended with {st} {v!r}')
    if there:
        run.expect(v[0] == 'exc', 'overwritten', f'{desc}: a second save of the same name was not refused')
        run.expect(open(tgt, 'rb').read() == bytes_before, 'overwritten', f'{desc}: a second save changed the file')
    else:
        run.expect(v[0] == 'ok', 'retry-failed', f'{desc}: saving again once the fault is gone raised {v[1]}')
        check_target(run, sc, d, want, desc + ', saved again', True)
    check_others(run, mid, d, sc, desc + ', saved again')
    run.count('probe:retry in a new process')
    if sc['again'] and out[0] == 'exc':
        d2 = os.path.join(run.scratch, 'sim2')
        prepare(d2, sc['others'], sc['name'])
        os.chdir(cwd)
        before = files(d2)
        st, v = in_fork(again_in_process, an, sc, d2, info)
        desc += ', saved again in the same process'
        run.log('again', st, v if st != 'died' else '')
        if st == 'died':
            run.fail('died', f'{desc}: the process was killed')
        elif v is not None:
            run.count('probe:retry in the same process')
            there = check_target(run, sc, d2, want, desc, v[0] == 'ok')
            if not there and sc['mode'] in ('line', 'h5'):
                run.fail('retry-failed', f'{desc}: raised {v[1]}')
        check_target(run, sc, d2, want, desc, False)
        check_others(run, before, d2, sc, desc)
        if os.path.exists(d2 + '.iolog'):
            os.remove(d2 + '.iolog')


def loader(sc, d, plan_info, lines):
    kind = sc['spec']['opts']['kind']
    os.chdir(d)
    lib = W.simio()
    lib.sim_arm(d.encode())
    rec = None
    h5 = H5Seam()
    if plan_info is not None and sc['mode'] == 'read':
        arm_plan(lib, sc, plan_info, 1)
    try:
        path = full(sc['name'], d)
        if sc['mode'] == 'rh5':
            if plan_info is not None:
                h5 = H5Seam(pick(plan_info['ops'], *sc['h5'][:2]), EXC[sc['h5'][2]]())
            with h5:
                an = W.klass(kind).load(path)
        elif lines is not None or (plan_info is None):
            t = None if lines is None else choose_point(lines, sc['line'][0], sc['line'][1])
            rec = LineRecorder([boot.REPO + '/kinisi/'], t, None if lines is None else EXC[sc['line'][2]]())
            with rec:
                an = W.klass(kind).load(path)
        else:
            an = W.klass(kind).load(path)
        out = ('ok', W.observe(an, ppd=False))
    except BaseException as e:  # noqa
        out = ('exc', type(e).__name__)
    fired = fired_of(lib)
    if lines is not None and rec.fired:
        fired = {'line ' + rec.fired: 1}
    if h5.fired:
        fired = {'HDF5 ' + h5.fired: 1}
    n, log = lib.sim_count(1), lib.sim_log().decode()
    lib.sim_disarm()
    return dict(out=out, fired=fired, n=n, log=log, lines=rec.events if rec is not None else None, h5=h5.calls)


def run_load(sc, run, an, want, info, d):
    os.chdir(d)
    an.save(full(sc['name'], d))
    os.chdir(run.scratch)
    before = files(d)
    st, r = in_fork(loader, sc, d, None, None)
    if st != 'ok' or r['out'][0] != 'ok':
        run.fail('unexpected-error', f'a fault-free load ended with {st} {r!r}'[:400])
    run.same(r['out'][1], want, 'wrong-content', 'a fault-free load differs')
    ops = [(i, 'read') for i in range(r['n'])]
    st, x = in_fork(loader, sc, d, dict(ops=ops) if sc['mode'] == 'read' else dict(ops=r['h5']),
                    r['lines'] if sc['mode'] == 'rline' else None)
    desc = f"load({sc['name']!r}) under {sc['mode']} faults"
    if st == 'died':
        run.log('load died')
        run.count('fault:library abort')
        x = dict(out=('died', ''), fired={'library abort': 1}, log='')
    elif st == 'exc':
        raise HarnessError(repr(x))
    for k in x['fired']:
        run.count('fault:read ' + k.split()[0])
    run.log(sc['mode'], x['out'][0], x['out'][1] if x['out'][0] != 'ok' else W.dig(x['out'][1]), sorted(x['fired']),
            W.dig(x['log']))
    if x['out'][0] == 'ok':
        run.same(x['out'][1], want, 'wrong-content', f'{desc}: returned a different analysis')
    elif x['out'][0] == 'exc' and not x['fired']:
        run.fail('unexpected-error', f"{desc}: raised {x['out'][1]} though no fault was injected")
    if x['fired']:
        run.sig(sc['mode'], sorted(x['fired']), x['out'][0], sc['spec']['opts']['kind'], bool(sc['steps']))
    run.expect(files(d) == before, 'other-file', f'{desc}: loading changed the directory')
    st, v = in_fork(load_view, sc['spec']['opts']['kind'], full(sc['name'], d), d)
    run.expect(st == 'ok', 'retry-failed', f'{desc}: loading again once the fault is gone ended with {st} {v!r}'[:300])
    run.same(v, want, 'wrong-content', f'{desc}: loading again gives a different analysis')


def shrink(sc):
    if len(sc.get('faults', ())) > 1:
        for i in range(len(sc['faults'])):
            c = copy.deepcopy(sc)
            del c['faults'][i]
            yield c
    for k, v in (('steps', []), ('others', 0), ('again', False), ('name', 'run')):
        if sc[k] != v:
            c = copy.deepcopy(sc)
            c[k] = v
            yield c
    for k in ('bootstrap', 'sub_dt', 'block'):
        if sc['spec']['opts'].get(k, 1) != 1:
            c = copy.deepcopy(sc)
            c['spec']['opts'].pop(k)
            yield c
