"""Seams for the Python side: a thread scheduler that decides every interleaving at source-line granularity,
and injection of asynchronous exceptions at any executed source line.

Only the choice of who runs is simulated: the threads are real, but all except one are parked, and control
passes between them only at line events of the traced code, at lock operations of kinisi, or at thread end.
"""
import dis
import os
import random
import sys
import threading
import _thread

_real_Lock = threading.Lock
_real_RLock = threading.RLock
_current = threading.local()
PHIL = None  # the HDF5 library's own lock, set at start-up
ACTIVE = None  # the running Scheduler, if any


class SimLock:
    """A lock created by kinisi: blocks cooperatively when a simulation is running."""

    def __init__(self, reentrant=False):
        self.reentrant = reentrant
        self.owner = None
        self.depth = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        while True:
            if self.owner is None or (self.reentrant and self.owner == me):
                self.owner = me
                self.depth += 1
                return True
            if not blocking:
                return False
            s = ACTIVE
            if s is None or getattr(_current, 'tid', None) is None:
                raise RuntimeError('simulated lock would block outside a simulation')
            s.block_on(self)

    def release(self):
        if self.owner is None:
            raise RuntimeError('release unlocked lock')
        self.depth -= 1
        if self.depth <= 0:
            self.owner = None
            self.depth = 0

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    # used by threading.Condition
    def _is_owned(self):
        return self.owner == _thread.get_ident()


def patch_locks(repo):
    prefix = os.path.join(repo, 'kinisi') + os.sep

    def from_kinisi():
        f = sys._getframe(2)
        for _ in range(4):
            if f is None:
                return False
            if f.f_code.co_filename.startswith(prefix):
                return True
            f = f.f_back
        return False

    def Lock():
        return SimLock() if from_kinisi() else _real_Lock()

    def RLock():
        return SimLock(True) if from_kinisi() else _real_RLock()

    threading.Lock = Lock
    threading.RLock = RLock


class Deadlock(Exception):
    pass


class Scheduler:
    """Runs callables as threads, one at a time.  `rng` decides every switch."""

    def __init__(self, rng, prefixes, switch=0.1, max_points=400000, hot=None, script=None):
        self.rng = rng
        self.prefixes = tuple(prefixes)
        self.switch = switch
        self.hot = hot  # function (filename, funcname) -> bool: places where switches are more likely
        self.points = 0
        self.max_points = max_points
        self.switches = 0
        self.trace = []  # (point number, from, to)
        self.places = set()
        self.sems = []
        self.state = []  # 'ready' | 'done' | SimLock (blocked)
        self.results = []
        self.abort = False
        self.main = _real_Lock()
        self.script = script

    # --- called in simulated threads
    def _pick(self, me):
        cand = []
        for t, st in enumerate(self.state):
            if st == 'ready' or (isinstance(st, SimLock) and st.owner is None):
                cand.append(t)
        return cand

    def _switch_to(self, me, t, where):
        if t == me:
            self.state[me] = 'ready'
            return
        self.switches += 1
        self.trace.append((self.points, me, t, where))
        self.state[t] = 'ready'
        self.sems[t].release()
        self.sems[me].acquire()
        if self.abort:
            raise Deadlock()

    def point(self, frame):
        me = _current.tid
        self.points += 1
        if self.points > self.max_points:
            return
        p = self.switch
        code = frame.f_code
        if self.hot is not None and self.hot(code.co_filename, code.co_name):
            p = max(p, 0.35)
        if self.rng.random() >= p:
            return
        if PHIL is not None and PHIL._is_owned():
            return  # inside an HDF5 operation (iteration over a group), which no other thread can enter
        cand = [t for t in self._pick(me) if t != me]
        if not cand:
            return
        t = cand[self.rng.randrange(len(cand))]
        where = f'{os.path.basename(code.co_filename)}:{code.co_name}'
        self.places.add((where, me != t))
        self._switch_to(me, t, f'{os.path.basename(code.co_filename)}:{frame.f_lineno}')

    def block_on(self, lock):
        me = _current.tid
        self.state[me] = lock
        cand = [t for t in self._pick(me) if t != me]
        if not cand:
            self.abort = True
            raise Deadlock('every thread waits for a lock')
        self._switch_to(me, cand[self.rng.randrange(len(cand))], 'lock')
        self.state[me] = 'ready'

    def _tracer(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.prefixes):
            return None

        def local(frame, event, arg):
            if event == 'line':
                self.point(frame)
            return local

        return local

    def _body(self, tid, fn):
        _current.tid = tid
        self.sems[tid].acquire()
        try:
            if self.abort:
                raise Deadlock()
            sys.settrace(self._tracer)
            try:
                r = ('ok', fn())
            finally:
                sys.settrace(None)
        except BaseException as e:  # noqa
            r = ('exc', e)
        self.results[tid] = r
        self.state[tid] = 'done'
        cand = self._pick(tid)
        if self.abort:
            for t, st in enumerate(self.state):
                if st != 'done':
                    self.state[t] = 'done?'
                    self.sems[t].release()
                    return
            self.main.release()
            return
        if cand:
            t = cand[self.rng.randrange(len(cand))]
            self.state[t] = 'ready'
            self.trace.append((self.points, tid, t, 'end'))
            self.sems[t].release()
        elif all(s == 'done' for s in self.state):
            self.main.release()
        else:
            self.abort = True
            for t, st in enumerate(self.state):
                if st != 'done':
                    self.sems[t].release()
                    return

    def run(self, fns):
        global ACTIVE
        n = len(fns)
        self.sems = []
        for _ in range(n):
            s = _real_Lock()
            s.acquire()
            self.sems.append(s)
        self.state = ['ready'] * n
        self.results = [None] * n
        self.main.acquire()
        ACTIVE = self
        threads = [threading.Thread(target=self._body, args=(i, f), daemon=True) for i, f in enumerate(fns)]
        for t in threads:
            t.start()
        first = self.rng.randrange(n)
        self.sems[first].release()
        self.main.acquire()
        for t in threads:
            t.join()
        ACTIVE = None
        return self.results


_QUIET = {}


def uninterruptible(code, at):
    """Instructions at which CPython neither looks for signals nor can fail: the placeholder of a try statement, and the
    way from the end of a with block into the context manager's __exit__ (an interrupt there would be delivered inside or
    after __exit__, never in between)."""
    q = _QUIET.get(code)
    if q is None:
        q = set()
        ins = list(dis.get_instructions(code))
        for i, x in enumerate(ins):
            if x.opname == 'NOP':
                q.add(x.offset)
            if x.opname == 'LOAD_CONST' and x.argval is None and [y.opname for y in ins[i:i + 4]] == ['LOAD_CONST'] * 3 + ['CALL'] \
                    and ins[i + 3].arg == 2 and all(y.argval is None for y in ins[i:i + 3]):
                q.update(y.offset for y in ins[i:i + 4])
        _QUIET[code] = q
    return at in q


class LineRecorder:
    """Counts executed source lines of the traced files; optionally raises at one of them."""

    def __init__(self, prefixes, target=None, exc=None, opcodes=False):
        self.prefixes = tuple(prefixes)
        self.opcodes = opcodes
        self.events = []
        self.n = 0
        self.target = target
        self.exc = exc
        self.fired = None
        self.record = target is None

    def _tracer(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.prefixes):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        return self._local

    def _local(self, frame, event, arg):
        if event == ('opcode' if self.opcodes else 'line') and not uninterruptible(frame.f_code, frame.f_lasti):
            if self.record:
                self.events.append((frame.f_code.co_filename, frame.f_lineno, frame.f_lasti if self.opcodes else 0))
            if self.n == self.target and self.fired is None:
                self.fired = f'{os.path.basename(frame.f_code.co_filename)}:{frame.f_lineno}'
                self.n += 1
                raise self.exc
            self.n += 1
        return self._local

    def __enter__(self):
        if self.opcodes:
            sys._getframe().f_trace_opcodes = True  # makes settrace enable instruction events
        sys.settrace(self._tracer)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        return False


def choose_point(events, u1, u2):
    """Pick one executed line event, uniform over distinct source lines first, then over its occurrences."""
    by = {}
    for i, e in enumerate(events):
        by.setdefault(e, []).append(i)
    keys = list(by)
    if not keys:
        return None
    k = keys[min(int(u1 * len(keys)), len(keys) - 1)]
    occ = by[k]
    # half of the mass on the first and last few occurrences
    if u2 < 0.25:
        return occ[0]
    if u2 > 0.85:
        return occ[-1]
    return occ[int((u2 - 0.25) / 0.6 * len(occ)) % len(occ)]


def sub_rng(*parts):
    return random.Random('/'.join(str(p) for p in parts))
