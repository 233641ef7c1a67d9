"""The simulator's driver: seeded scenarios, one forked process per simulated run, determinism re-runs,
minimisation, replay files and evidence."""
import hashlib
import importlib
import io
import json
import os
import pickle
import random
import resource
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings
from collections import Counter

from . import boot

CPU_LIMIT = 150
WALL_LIMIT = 100
FORKS = None  # (entropy generator, seed) of the running simulation
_nfork = 0


REFUSED = 'Initial state has a large condition number'


class Violation(Exception):

    def __init__(self, cls, msg):
        super().__init__(f'{cls}: {msg}')
        self.cls = cls
        self.msg = msg

    def __reduce__(self):
        return (Violation, (self.cls, self.msg))


class HarnessError(Exception):
    pass


class SimStderr(io.TextIOBase):
    """Where progress is displayed; can be told to fail at the n-th write."""

    def __init__(self):
        self.writes = 0
        self.fail_at = None
        self.exc = None
        self.fired = 0

    def writable(self):
        return True

    def isatty(self):
        return False

    def write(self, s):
        k = self.writes
        self.writes += 1
        if self.fail_at is not None and k == self.fail_at:
            self.fired += 1
            raise self.exc
        return len(s)

    def flush(self):
        pass


class SimClock:

    def __init__(self, rng):
        self.now = 1.0e9
        self.rng = rng

    def time(self):
        # clock steps of very different sizes, including backward jumps
        self.now += self.rng.choice((1e-4, 0.02, 0.2, 3.0, 100.0, -50.0))
        return self.now


class Run:
    """What one simulated run records."""

    def __init__(self, scratch):
        self.scratch = scratch
        self.events = []
        self.stats = Counter()
        self.sigs = set()
        self.clock = None

    def log(self, *a):
        self.events.append(' '.join(str(x) for x in a))

    def count(self, k, n=1):
        self.stats[k] += n

    def sig(self, *parts):
        self.sigs.add('|'.join(str(p) for p in parts))

    def fail(self, cls, msg):
        raise Violation(cls, msg)

    def expect(self, cond, cls, msg):
        self.stats['checks'] += 1
        if not cond:
            raise Violation(cls, msg if isinstance(msg, str) else msg())

    def same(self, a, b, cls, msg):
        """Bit equality of two canonical observations (nested dicts/tuples); names the first difference."""
        self.stats['checks'] += 1
        d = diff(a, b)
        if d:
            raise Violation(cls, f'{msg}: {d}')

    def call(self, what, fn, *a, **k):
        """A call that has to succeed."""
        try:
            return fn(*a, **k)
        except Violation:
            raise
        except Exception as e:
            raise Violation('unexpected-error', f'{what} raised {type(e).__name__}: {str(e)[:300]}')


def diff(a, b, path=''):
    if type(a) is not type(b):
        return f'{path}: {short(a)} != {short(b)}'
    if isinstance(a, dict):
        for k in list(a) + [k for k in b if k not in a]:
            if k not in a or k not in b:
                return f'{path}/{k}: only on one side'
            d = diff(a[k], b[k], f'{path}/{k}')
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) and not (a and a[0] == 'arr'):
        if len(a) != len(b):
            return f'{path}: lengths {len(a)} != {len(b)}'
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, f'{path}[{i}]')
            if d:
                return d
        return None
    return None if a == b else f'{path}: {short(a)} != {short(b)}'


def short(x):
    if isinstance(x, tuple) and x and x[0] == 'arr':
        import numpy as np
        v = np.frombuffer(x[3], dtype=x[1])
        return f'array{x[2]} {np.array2string(v[:4], precision=17)}...'
    s = repr(x)
    return s if len(s) < 120 else s[:120] + '...'


def simulate_environment(run, seed):
    """Put every ambient source of nondeterminism of this process under the simulator."""
    import numpy as np
    rng = random.Random(f'env/{seed}')
    ent = random.Random(f'entropy/{seed}')
    run.clock = SimClock(random.Random(f'clock/{seed}'))
    run.entropy = ent
    global FORKS
    FORKS = (ent, seed)

    def urandom(n):
        run.stats['entropy reads'] += 1
        return ent.randbytes(n)

    os.urandom = urandom
    random._urandom = urandom
    import tqdm.std
    tqdm.std.time = run.clock.time
    np.random.seed(rng.randrange(2**32))
    random.seed(rng.randrange(2**32))
    sys.stderr = SimStderr()
    sys.stdout = SimStderr()
    run.stderr = sys.stderr
    warnings.simplefilter('ignore')


def quiet_fds():
    nul = os.open('/dev/null', os.O_RDWR)
    for fd in (0, 1, 2):
        os.dup2(nul, fd)
    os.close(nul)


def _write_all(fd, data):
    while data:
        data = data[os.write(fd, data):]


def in_fork(fn, *args, cpu=120):
    """Run fn in a forked process (a simulated process of its own); returns ('ok', value), ('exc', exception)
    or ('died', status).  The simulated disk is what the two processes share."""
    global _nfork
    _nfork += 1
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
            if FORKS:  # another process reads other entropy
                FORKS[0].seed(f'entropy/{FORKS[1]}/{_nfork}')
            try:
                out = ('ok', fn(*args))
            except BaseException as e:  # noqa
                out = ('exc', e)
            try:
                data = pickle.dumps(out)
            except Exception:
                data = pickle.dumps((out[0], RuntimeError(repr(out[1]))))
            _write_all(w, data)
        except BaseException:  # noqa
            code = 70
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    while True:
        b = os.read(r, 1 << 20)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    data = b''.join(chunks)
    if not data:
        return ('died', st)
    try:
        return pickle.loads(data)
    except Exception:
        return ('died', st)


def child_main(prop, sc, seed_label, scratch, w):
    quiet_fds()
    if os.environ.get('KINISI_SIM_STACKS'):
        import faulthandler
        faulthandler.dump_traceback_later(30, file=open(os.environ['KINISI_SIM_STACKS'], 'a'))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT, CPU_LIMIT + 10))
    os.makedirs(scratch)
    os.chdir(scratch)
    run = Run(scratch)
    simulate_environment(run, sc.get('env', 0))
    out = {'status': 'ok', 'viol': None}
    try:
        prop.run(sc, run)
    except Violation as v:
        out['status'] = 'viol'
        out['viol'] = (v.cls, v.msg)
    except BaseException as e:  # noqa
        tb = traceback.format_exc()
        where = traceback.extract_tb(e.__traceback__)
        if isinstance(e, Exception) and not isinstance(e, (HarnessError, MemoryError)) and any(
                f.filename.startswith(os.path.join(boot.REPO, 'kinisi')) for f in where):
            out['status'] = 'viol'
            out['viol'] = ('unexpected-error', f'{type(e).__name__}: {str(e)[:300]}')
            out['tb'] = tb
        else:
            out['status'] = 'harness'
            out['tb'] = tb
    sys.settrace(None)
    if out['status'] == 'viol' and out['viol'][0] == 'unexpected-error' and REFUSED in out['viol'][1] and "'late'" in repr(sc):
        # two intervals can be too few for the sampler to start from; it says so, and nothing can be compared
        out.update(status='ok', viol=None)
        run.count('probe:the sampler refused two intervals')
    out['events'] = run.events
    out['stats'] = dict(run.stats)
    out['sigs'] = sorted(run.sigs)
    out['digest'] = hashlib.sha256('\n'.join(run.events + [repr(out['viol'])]).encode()).hexdigest()[:16]
    _write_all(w, pickle.dumps(out))


class Pool:

    def __init__(self, prop, workers, base):
        self.prop = prop
        self.workers = workers
        self.base = base
        self.live = {}
        self.serial = 0

    def start(self, key, sc):
        self.serial += 1
        scratch = os.path.join(self.base, f'r{self.serial}')
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.setpgid(0, 0)
                os.close(r)
                for fd in self.live:
                    os.close(fd)
                child_main(self.prop, sc, key, scratch, w)
            except BaseException:  # noqa
                code = 71
            finally:
                os._exit(code)
        os.close(w)
        self.live[r] = dict(pid=pid, key=key, sc=sc, scratch=scratch, buf=[], t0=time.monotonic())

    def poll(self, timeout=1.0):
        """Collect finished runs."""
        done = []
        if not self.live:
            return done
        rs, _, _ = select.select(list(self.live), [], [], timeout)
        for r in rs:
            b = os.read(r, 1 << 20)
            if b:
                self.live[r]['buf'].append(b)
                continue
            done.append(self._finish(r))
        now = time.monotonic()
        for r in list(self.live):
            j = self.live[r]
            if now - j['t0'] > WALL_LIMIT:
                j['wall'] = True
                try:
                    os.killpg(j['pid'], signal.SIGKILL)
                except OSError:
                    os.kill(j['pid'], signal.SIGKILL)
        return done

    def _finish(self, r):
        j = self.live.pop(r)
        os.close(r)
        _, st = os.waitpid(j['pid'], 0)
        try:
            os.killpg(j['pid'], signal.SIGKILL)
        except OSError:
            pass
        shutil.rmtree(j['scratch'], ignore_errors=True)
        for f in (j['scratch'] + '.iolog', ):
            if os.path.exists(f):
                os.remove(f)
        data = b''.join(j['buf'])
        res = None
        if data:
            try:
                res = pickle.loads(data)
            except Exception:
                res = None
        if res is None:
            res = {'status': 'died', 'viol': None, 'events': [], 'stats': {}, 'sigs': [], 'digest': f'died{st}',
                   'tb': f'run process ended with status {st}', 'st': st}
            if os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGXCPU, signal.SIGKILL):
                res['status'] = 'hang'
        res['key'] = j['key']
        res['sc'] = j['sc']
        res['wall'] = time.monotonic() - j['t0']
        return res

    def map(self, items, stop=None):
        """items: iterable of (key, scenario). Yields results as they finish."""
        it = iter(items)
        more = True
        while True:
            while more and len(self.live) < self.workers and not (stop and stop()):
                try:
                    key, sc = next(it)
                except StopIteration:
                    more = False
                    break
                self.start(key, sc)
            if not self.live:
                return
            for res in self.poll():
                yield res
            if stop and stop():
                more = False

    def one(self, sc, key='x'):
        for res in self.map([(key, sc)]):
            return res

    def drain(self):
        for r in list(self.live):
            j = self.live[r]
            try:
                os.killpg(j['pid'], signal.SIGKILL)
            except OSError:
                pass
            self._finish(r)


def scenario(prop, seed, idx, tier):
    rng = random.Random(f'{seed}/{prop.ID}/{idx}')
    sc = prop.gen(rng, tier, idx)
    sc.setdefault('env', rng.randrange(2**31))
    return json.loads(json.dumps(sc))


def minimise(pool, prop, sc, cls, budget):
    t0 = time.monotonic()
    tried = 0
    improved = True
    while improved and time.monotonic() - t0 < budget:
        improved = False
        cands = []
        seen = set()
        for c in prop.shrink(json.loads(json.dumps(sc))):
            c = json.loads(json.dumps(c))
            k = json.dumps(c, sort_keys=True)
            if c == sc or k in seen:
                continue
            seen.add(k)
            cands.append(c)
            if len(cands) >= 64:
                break
        best = None
        hit = []

        def stop():
            return bool(hit) or time.monotonic() - t0 > budget

        for res in pool.map(list(enumerate(cands)), stop=stop):
            tried += 1
            if res['status'] == 'viol' and res['viol'][0] == cls:
                hit.append(res['key'])
        if hit:
            best = cands[min(hit)]
            sc = best
            improved = True
    return sc, tried


def write_replay(prop, res, extra):
    d = os.path.join(boot.VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop.ID}-{extra['seed']}-{extra['index']}.json")
    with open(path, 'w') as f:
        json.dump(dict(property=prop.ID, violation=res['viol'][0], message=res['viol'][1], scenario=res['sc'],
                       trace_digest=res['digest'], trace=res['events'][-400:], **extra), f, indent=1)
    return path


def load_prop(pid):
    return importlib.import_module(f'sim.props.{pid.lower()}')


def workers():
    try:
        return max(1, min(8, len(os.sched_getaffinity(0))))
    except Exception:
        return 4


def make_base():
    return tempfile.mkdtemp(prefix='kinisi-sim-', dir=os.environ.get('TMPDIR', '/tmp'))


def replay(pid, path):
    prop = load_prop(pid)
    rec = json.load(open(path))
    base = make_base()
    try:
        pool = Pool(prop, 1, base)
        res = pool.one(rec['scenario'])
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return rec, res


def check(pid, tier, seed, runs=None, budget=None, out=print):
    prop = load_prop(pid)
    t0 = time.monotonic()
    cfg = prop.TIERS[tier]
    n = runs or cfg['runs']
    budget = budget or cfg['budget']
    base = make_base()
    pool = Pool(prop, workers(), base)
    total = Counter()
    sigs = set()
    done = 0
    bad = []
    harness = []
    digests = {}
    mism = []
    samples = []
    hangs = []
    out(f'{pid} tier={tier} seed={seed} runs={n} budget={budget}s workers={pool.workers}')
    sys.stdout.flush()

    def stop():
        return bool(bad) or len(hangs) > 8 or len(harness) > 40 or time.monotonic() - t0 > budget

    def items():
        for i in range(n):
            sc = scenario(prop, seed, i, tier)
            yield (i, 0), sc
            if i % cfg.get('redo', 12) == 0:
                yield (i, 1), sc

    seconds = 0.0
    try:
        for res in pool.map(items(), stop=stop):
            i, rep = res['key']
            if res['status'] in ('hang', 'died'):
                hangs.append(res)
                continue
            if res['status'] == 'harness':
                harness.append(res)
                continue
            if res['status'] == 'viol':
                bad.append(res)
                continue
            if rep == 0:
                done += 1
                seconds += res['wall']
                total.update(res['stats'])
                sigs.update(res['sigs'])
                if len(samples) < 3 and res['events']:
                    samples.append({'index': i, 'scenario': res['sc'], 'trace_head': res['events'][:25]})
            if i in digests and digests[i] != res['digest']:
                mism.append(i)
            digests[i] = res['digest']
        for h in hangs[:2]:
            res = pool.one(h['sc'], h['key'])
            if res['status'] == 'died':
                if h['status'] == 'died' and h.get('st') == res.get('st'):
                    res['viol'] = ('process-died', f"the simulated process dies ({res.get('tb')})")
                    res['status'] = 'viol'
                    bad.append(res)
                else:
                    harness.append(res)
            elif res['status'] == 'hang':
                res['viol'] = ('no-progress', f'the run did not end within {CPU_LIMIT} s of CPU time')
                res['status'] = 'viol'
                bad.append(res)
            elif res['status'] == 'viol':
                bad.append(res)
        rc = 0
        viol_info = None
        if not bad and hasattr(prop, 'extra'):
            e = prop.extra(seed, tier, pool)
            if e:
                total.update(e.get('stats', {}))
                if e.get('viol'):
                    bad.append(e['viol'])
        if bad:
            bad.sort(key=lambda r: (r['key'] if isinstance(r['key'], tuple) else (0, 0)))
            first = bad[0]
            cls = first['viol'][0]
            mini, tried = first['sc'], 0
            final = first
            if cls not in ('no-progress', 'process-died') and hasattr(prop, 'shrink'):
                mini, tried = minimise(pool, prop, first['sc'], cls, cfg.get('shrink', 60))
                res = pool.one(mini)
                if res['status'] == 'viol' and res['viol'][0] == cls:
                    final = res
            again = pool.one(final['sc'])
            exact = again['status'] == 'viol' and again['viol'] == final['viol'] and again['digest'] == final['digest']
            path = write_replay(prop, final, dict(seed=seed, index=first['key'][0] if isinstance(first['key'], tuple) else 0,
                                                  tier=tier, shrink_steps=tried, reproduced_exactly=exact))
            viol_info = dict(cls=cls, msg=final['viol'][1], replay=path, exact=exact)
            out(f"violation class: {cls}\n  {final['viol'][1]}\n  scenario: {json.dumps(final['sc'])[:1500]}")
            for e in final['events'][-30:]:
                out('   ' + e[:200])
            if not exact:
                out('  note: a second execution of the replay file was not identical')
            out(f'VIOLATION property={pid} replay={path}')
            rc = 1
        elif harness:
            for h in harness[:3]:
                out(f"HARNESS ERROR in run {h['key']}: {h.get('tb', '')[-3000:]}\n{json.dumps(h['sc'])[:800]}")
            rc = 2
        elif done < min(n, cfg.get('min_runs', 10)):
            out(f'only {done} of {n} runs within the time budget')
            rc = 2
    finally:
        pool.drain()
        shutil.rmtree(base, ignore_errors=True)
    wall = time.monotonic() - t0
    faults = {k[6:]: v for k, v in sorted(total.items()) if k.startswith('fault:')}
    probes = {k[6:]: v for k, v in sorted(total.items()) if k.startswith('probe:')}
    ev = dict(
        property=pid, tier=tier, seed=seed, level=prop.LEVEL, wall_s=round(wall, 2), violations=1 if rc == 1 else 0,
        assumptions=prop.ASSUMPTIONS,
        coverage=dict(
            evaluations=done,
            distinct_nontrivial=len(sigs),
            rule=prop.RULE,
            samples=samples or [{'note': 'no run completed'}],
            oracle_comparisons=total.get('checks', 0),
            runs_per_hour=round(done / wall * 3600) if wall else 0,
            seeds_per_hour=round(done / wall * 3600) if wall else 0,
            faults_injected=faults,
            probes=probes,
            counters={k: v for k, v in sorted(total.items()) if ':' not in k},
            simulated_time=f"{total.get('simulated seconds', 0):.0f} s of simulated clock; "
            f"{total.get('schedule points', 0)} schedule points",
            determinism_reruns=dict(repeated=sum(1 for i in digests if i % cfg.get('redo', 12) == 0), mismatches=len(mism)),
            real_code=prop.REAL,
            stubs=prop.STUBS,
        ))
    if viol_info:
        ev['coverage']['violation'] = viol_info
    d = os.path.join(boot.VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, f'.{pid}.{os.getpid()}')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(d, f'{pid}.json'))
    out(f'{pid}: {done} runs, {len(sigs)} distinct, {total.get("checks", 0)} comparisons, faults {faults}, '
        f'determinism mismatches {len(mism)}, {wall:.1f} s, exit {rc}')
    return rc
