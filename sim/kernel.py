"""Deterministic simulation kernel.

One integer decides everything: each run owns a Choices object (PRNG seeded from
"<VERIF_SEED>:<property>:<run index>", or a recorded choice list on replay).  Operation
generation, set iteration order, thread schedule, fault kinds and fault instants are all
drawn from it.  The kernel counts simulated steps (executed source lines of pybgl), which is
the run's clock: asynchronous aborts, thread preemptions and the liveness budget are all
placed on that clock.
"""
import hashlib
import random
import sys
import traceback
import _thread
import threading

from . import simsets

_real_lock = _thread.allocate_lock
INF = float("inf")


class Violation(Exception):
    def __init__(self, kind, msg=""):
        super().__init__(f"{kind}: {msg}")
        self.kind, self.msg = kind, msg


class HarnessError(Exception):
    pass


class Injected(Exception):
    """The fault raised inside user callbacks"""


# The same fault, dressed as the errors that a library might be tempted to catch
INJECTED = [Injected] + [type("Injected" + k.__name__, (Injected, k), {}) for k in
                         (KeyError, IndexError, ValueError, TypeError, AttributeError, RuntimeError, AssertionError, OSError)]


class InjectedAbort(BaseException):
    """Asynchronous abort (stands for KeyboardInterrupt or MemoryError at an arbitrary instant)"""


class SimKeyboardInterrupt(KeyboardInterrupt):
    pass


class SimMemoryError(MemoryError):
    pass


class BudgetExceeded(BaseException):
    pass


class Choices:
    def __init__(self, seed=None, replay=None, prng=None):
        self.replay = replay
        self.rng = random.Random(seed) if replay is None else None
        self.log = []
        self.bounds = []
        self.pos = 0

    def choose(self, n):
        if n <= 1:
            return 0
        if self.replay is None:
            v = self.rng.randrange(n)
        else:
            v = self.replay[self.pos] if self.pos < len(self.replay) else 0
            v = v % n
            self.pos += 1
        self.log.append(v)
        self.bounds.append(n)
        if len(self.log) > 200000:
            raise HarnessError("too many choices")
        return v


# --------------------------------------------------------------------------- monitor

class Mon:
    """State of the step clock; one per process, re-armed by each run"""
    steps = 0
    next = INF          # next step at which the slow path must run
    budget = INF
    abort_at = INF
    abort_exc = None
    preempt_at = INF
    sched = None
    active = False
    killed = False
    fired = 0


MON = Mon()
TOOL = 3


def _slow():
    m = MON
    if m.killed:
        raise BudgetExceeded()
    s = m.steps
    if s >= m.budget:
        m.killed = True
        m.next = 0
        raise BudgetExceeded()
    if s >= m.abort_at:
        m.abort_at = INF
        _rearm()
        m.fired += 1
        raise m.abort_exc
    if s >= m.preempt_at:
        m.preempt_at = INF
        _rearm()
        if m.sched is not None:
            m.sched.preempt()
        return
    _rearm()


def _rearm():
    m = MON
    m.next = 0 if m.killed else min(m.budget, m.abort_at, m.preempt_at)


def step():
    """The tick inserted by the loader before every statement of the library"""
    m = MON
    if m.active:
        m.steps += 1
        if m.steps >= m.next:
            _slow()


def _on_instruction(code, offset):
    step()


def install_monitor(codes):
    """Byte-code granularity: every instruction of these code objects is a tick too"""
    mon = sys.monitoring
    if mon.get_tool(TOOL) is None:
        mon.use_tool_id(TOOL, "pybgl-sim")
    mon.register_callback(TOOL, mon.events.INSTRUCTION, _on_instruction)
    for c in codes:
        mon.set_local_events(TOOL, c, mon.events.INSTRUCTION)


# --------------------------------------------------------------------------- context

class Ctx:
    def __init__(self, choices, lib_factory, max_steps=4000000):
        self.ch = choices
        self.events = []
        self.h = hashlib.blake2b(digest_size=12)
        self.faults = {}
        self.probes = {}
        self.cov = set()
        self.shape = hashlib.blake2b(digest_size=10)
        self.nontrivial = False
        self.cb_count = 0
        self.cb_fault_at = None
        self.cb_exc = None
        self.cb_armed = False
        self.preemptions = 0
        self.sched_hash = hashlib.blake2b(digest_size=10)
        self.cleanups = []
        # environment of the run: set order mode
        mode = choices.choose(3)
        seed = choices.choose(1 << 20) if mode == 2 else 0
        simsets.configure(mode, random.Random(seed))
        m = MON
        m.steps = 0
        m.budget = max_steps
        m.abort_at = m.preempt_at = INF
        m.sched = None
        m.killed = False
        m.fired = 0
        _rearm()
        m.active = False
        self.lib = lib_factory()
        m.active = True

    # ---- choices
    def choose(self, n):
        v = self.ch.choose(n)
        return v

    def flag(self, p):
        """True with probability p; 0 in the log means False"""
        return self.ch.choose(1000) >= 1000 - int(p * 1000)

    def int(self, lo, hi):
        return lo + self.ch.choose(hi - lo + 1)

    def pick(self, seq):
        return seq[self.ch.choose(len(seq))]

    def weighted(self, pairs):
        """pairs: [(weight, value)]; choice 0 is the first value"""
        tot = sum(w for w, _ in pairs)
        v = self.ch.choose(tot)
        for w, x in pairs:
            if v < w:
                return x
            v -= w

    def shuffle(self, seq):
        seq = list(seq)
        out = []
        while seq:
            out.append(seq.pop(self.ch.choose(len(seq))))
        return out

    def sample(self, seq, k):
        return self.shuffle(seq)[:k]

    # ---- history
    def ev(self, *what):
        self.events.append(what)
        self.h.update(repr(what).encode("utf-8", "backslashreplace"))
        if len(self.events) > 20000:
            raise HarnessError("too many events")

    def fault(self, kind):
        self.faults[kind] = self.faults.get(kind, 0) + 1
        self.ev("fault", kind)

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def check(self, cond, kind, msg=""):
        if not cond:
            raise Violation(kind, msg() if callable(msg) else msg)

    def eq(self, got, want, kind, where=""):
        if got != want:
            raise Violation(kind, f"{where}: got {got!r}, expected {want!r}")

    # ---- callback faults
    def injected(self, what):
        return (self.pick(INJECTED) if self.flag(0.5) else Injected)(what)

    def arm_callback(self, at, exc=None):
        """The at-th (0-based) call of self.cb() from now on raises"""
        self.cb_count = 0
        self.cb_fault_at = at
        self.cb_exc = exc or self.injected("injected")
        self.cb_armed = True

    def disarm_callback(self):
        self.cb_armed = False
        self.cb_fault_at = None

    def cb(self, kind="callback"):
        """To be called by every user callback of the harness"""
        i = self.cb_count
        self.cb_count += 1
        if self.cb_armed and i == self.cb_fault_at:
            self.cb_armed = False
            self.fault("raise-in-" + kind)
            raise self.cb_exc
        if MON.sched is not None:
            MON.sched.maybe_yield()

    # ---- asynchronous abort on the step clock
    def arm_abort(self, n, exc):
        MON.abort_at = MON.steps + n
        MON.abort_exc = exc
        _rearm()

    def disarm_abort(self):
        MON.abort_at = INF
        _rearm()

    @property
    def steps(self):
        return MON.steps

    def set_budget(self, n):
        MON.budget = MON.steps + n
        _rearm()

    def limit(self, n, what):
        """Liveness: the calls made inside the block must return within n simulated steps"""
        return _Limit(self, n, what)

    # ---- guarded call
    def call(self, fn, *a, **k):
        """Returns ('ok', value) or ('exc', exception); budget overruns are violations"""
        try:
            return ("ok", fn(*a, **k))
        except Violation:
            raise
        except Exception as e:
            return ("exc", e)


class _Limit:
    def __init__(self, c, n, what):
        self.c, self.n, self.what = c, n, what

    def __enter__(self):
        self.saved = MON.budget
        MON.budget = min(self.saved, MON.steps + self.n)
        _rearm()
        return self

    def __exit__(self, t, v, tb):
        if t is BudgetExceeded or MON.killed:
            raise Violation("no-progress", f"{self.what}: not finished after {self.n} simulated steps")
        MON.budget = self.saved
        _rearm()
        return False


# --------------------------------------------------------------------------- threads

class _Task:
    def __init__(self, i, fn):
        self.i, self.fn = i, fn
        self.gate = _real_lock()
        self.gate.acquire()
        self.done = False
        self.blocked = None
        self.exc = None
        self.result = None
        self.ident = None


class Sched:
    """Real threads, parked and released one at a time.  Who runs, and for how many simulated
    steps, is drawn from the run's choice log."""

    def __init__(self, ctx, mean_gap, max_preempt=400):
        self.ctx = ctx
        self.mean = mean_gap
        self.left = max_preempt
        self.tasks = []
        self.cur = None
        self.main = _real_lock()
        self.main.acquire()
        self.deadlock = False

    def spawn(self, fn):
        t = _Task(len(self.tasks), fn)
        self.tasks.append(t)
        return t

    def _body(self, t):
        t.gate.acquire()
        t.ident = _thread.get_ident()
        try:
            t.result = t.fn()
        except BaseException as e:      # recorded; judged by the scenario
            t.exc = e
        t.done = True
        self._leave()

    def _leave(self):
        nxt = self._pick([t for t in self.tasks if not t.done and t.blocked is None])
        if nxt is not None:
            self.cur = nxt
            self._plan()
            nxt.gate.release()
        else:
            if any(not t.done for t in self.tasks):
                self.deadlock = True
            self.main.release()

    def _pick(self, cands):
        if not cands:
            return None
        return cands[self.ctx.ch.choose(len(cands))]

    def _plan(self):
        if self.left <= 0:
            MON.preempt_at = INF
        else:
            v = self.ctx.ch.choose(64)
            if v == 0:
                MON.preempt_at = INF
                self.left = 0
            else:
                self.left -= 1
                MON.preempt_at = MON.steps + max(1, (self.mean * v) // 32)
        _rearm()

    def _switch(self, nxt):
        me = self.cur
        self.ctx.preemptions += 1
        self.ctx.sched_hash.update(b"%d:%d;" % (MON.steps, nxt.i))
        self.cur = nxt
        self._plan()
        nxt.gate.release()
        me.gate.acquire()
        if MON.killed:
            raise BudgetExceeded()

    def in_task(self):
        return self.cur is not None and self.cur.ident == _thread.get_ident()

    def preempt(self):
        if not self.in_task():
            return
        cands = [t for t in self.tasks if t is not self.cur and not t.done and t.blocked is None]
        if not cands:
            self._plan()
            return
        self._switch(self._pick(cands))

    def maybe_yield(self):
        """An explicit preemption point (user callback, lock operation)"""
        if not self.in_task() or self.left <= 0:
            return
        MON.steps += 1
        if MON.steps >= MON.next:
            _slow()

    def block(self, on):
        """Park the current task until unblocked"""
        me = self.cur
        me.blocked = on
        nxt = self._pick([t for t in self.tasks if not t.done and t.blocked is None])
        if nxt is None:
            me.blocked = None
            raise Violation("deadlock", "every simulated thread is blocked")
        self._switch(nxt)

    def run(self):
        MON.sched = self
        for t in self.tasks:
            _thread.start_new_thread(self._body, (t,))
        first = self._pick(self.tasks)
        self.cur = first
        self._plan()
        first.gate.release()
        self.main.acquire()
        MON.sched = None
        MON.preempt_at = INF
        _rearm()
        self.cur = None
        if self.deadlock:
            raise Violation("deadlock", "simulated threads blocked forever")
        for t in self.tasks:
            if isinstance(t.exc, (Violation, HarnessError)):
                raise t.exc
            if isinstance(t.exc, BudgetExceeded):
                raise t.exc
        return self.tasks


class SimLock:
    """Cooperative replacement of threading.Lock"""
    _reentrant = False

    def __init__(self):
        self._owner = None
        self._count = 0

    def _me(self):
        s = MON.sched
        return s.cur.i if s is not None and s.in_task() else -1

    def acquire(self, blocking=True, timeout=-1):
        s = MON.sched
        sim = s is not None and s.in_task()
        if sim:
            s.maybe_yield()
        me = self._me()
        while self._owner is not None:
            if self._reentrant and self._owner == me:
                self._count += 1
                return True
            if not blocking:
                return False
            if not sim:
                raise Violation("deadlock", "lock acquired twice outside any other thread")
            if timeout is not None and timeout > 0:
                # virtual time jumps only when nothing else is runnable
                cands = [t for t in s.tasks if t is not s.cur and not t.done and t.blocked is None]
                if not cands:
                    return False
                s._switch(s._pick(cands))
            else:
                s.block(self)
        self._owner = me
        self._count = 1
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        self._count -= 1
        if self._count > 0:
            return
        self._owner = None
        s = MON.sched
        if s is not None:
            for t in s.tasks:
                if t.blocked is self:
                    t.blocked = None
            s.maybe_yield()

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._owner = None


class SimRLock(SimLock):
    _reentrant = True

    def _is_owned(self):
        return self._owner is not None and self._owner == self._me()

    def _release_save(self):
        st = (self._count, self._owner)
        self._count = 1
        self.release()
        return st

    def _acquire_restore(self, st):
        self.acquire()
        self._count = st[0]


def patch_locks():
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._allocate_lock = SimLock
    threading._RLock = SimRLock
    threading._CRLock = SimRLock


# --------------------------------------------------------------------------- one run

def pybgl_frame(tb, src):
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(src):
            return True
        tb = tb.tb_next
    return False


def short_tb(e):
    fr = traceback.extract_tb(e.__traceback__)[-6:]
    return " <- ".join(f"{f.filename.rsplit('/', 1)[-1]}:{f.lineno}:{f.name}" for f in reversed(fr))


class Outcome:
    pass


def execute(scenario, choices, lib_factory, src, max_steps=4000000):
    """Run one simulated execution; returns an Outcome"""
    o = Outcome()
    o.violation = o.harness = None
    c = None
    try:
        c = Ctx(choices, lib_factory, max_steps)
        scenario(c)
    except Violation as v:
        o.violation = (v.kind, v.msg)
    except HarnessError as e:
        o.harness = repr(e)
    except BudgetExceeded:
        o.violation = ("no-progress", f"run not finished after {max_steps} simulated steps")
    except BaseException as e:
        if isinstance(e, (MemoryError, RecursionError)) or pybgl_frame(e.__traceback__, src):
            o.violation = (f"unexpected-exception:{type(e).__name__}", f"{e!r} at {short_tb(e)}")
        elif isinstance(e, (TypeError, LookupError, AttributeError, ValueError)):
            # the oracle could not even interpret what the library returned (wrong type or shape):
            # the models themselves never raise, see the self-test in DESIGN.md
            o.violation = (f"malformed-result:{type(e).__name__}", f"{e!r} at {short_tb(e)}")
        else:
            o.harness = f"{e!r} at {short_tb(e)}"
    finally:
        MON.active = False
        MON.sched = None
        if c is not None:
            for f in reversed(c.cleanups):
                try:
                    f()
                except Exception as e:
                    if o.harness is None:
                        o.harness = "cleanup: " + repr(e)
    o.choices = choices.log
    o.bounds = choices.bounds
    o.steps = MON.steps
    if c is not None:
        o.events, o.faults, o.probes = c.events, c.faults, c.probes
        o.preemptions = c.preemptions
        o.nontrivial = c.nontrivial
        o.sched = c.sched_hash.hexdigest() if c.preemptions else None
        c.h.update(repr((o.violation and o.violation[0], MON.steps, o.sched)).encode())
        o.digest = c.h.hexdigest()
    else:
        o.events, o.faults, o.probes, o.preemptions, o.digest = [], {}, {}, 0, ""
        o.nontrivial, o.sched = False, None
    return o
