"""Deterministic scheduler.

Callers are real Python threads, but exactly one of them runs at any time: all
others are parked on a private lock.  Who runs next is decided only here, at
the yield points: every source line (or every byte code instruction) of FIAT
that a caller executes, every lock operation and every call boundary.
A decision is a function of (operation id, event number inside the operation),
so a recorded schedule can be replayed, and pieces of it can be dropped.
"""
import dis
import os
import sys
import threading
import time
import _thread

_alloc = _thread.allocate_lock
_start = _thread.start_new_thread
_real_time = time.time
_real_monotonic = time.monotonic
_real_perf = time.perf_counter

mon = sys.monitoring
TOOL = 3
LINE, INSTR, CALL = mon.events.LINE, mon.events.INSTRUCTION, mon.events.CALL
CALL_EX = dis.opmap["CALL_FUNCTION_EX"]

SIM = None          # the active simulation, if any


class Deadlock(BaseException):
    """Raised in callers when nobody can ever run again."""


class InjectedInterrupt(KeyboardInterrupt):
    pass


class InjectedMemoryError(MemoryError):
    pass


class InjectedTimeout(Exception):
    """What an application's alarm handler raises."""


class InjectedRecursion(RecursionError):
    pass


class SimLock:
    """threading.Lock under the scheduler's control."""
    _reentrant = False

    def __init__(self):
        self._owner = None
        self._count = 0

    def _me(self):
        s = SIM
        return s.cur if s is not None and s.cur is not None else "main"

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        s = SIM
        deadline = None
        if timeout is not None and timeout >= 0 and blocking:
            deadline = clock() + timeout
        while True:
            if self._owner is None or (self._reentrant and self._owner is me):
                self._owner = me
                self._count += 1
                if s is not None:
                    s.stats["lock_acquires"] = s.stats.get("lock_acquires", 0) + 1
                return True
            if not blocking:
                return False
            if s is None or s.cur is None:
                if deadline is not None:
                    return False
                raise Deadlock("lock is held and nobody is left to release it")
            if deadline is not None and s.vtime >= deadline:
                return False
            s.block(self, deadline)

    def release(self):
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        if self._reentrant and self._owner is not self._me():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None
            if SIM is not None:
                SIM.wake(self)

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    # used by threading.Condition
    def _is_owned(self):
        return self._owner is self._me()

    def _at_fork_reinit(self):
        self._owner, self._count = None, 0

    acquire_lock = acquire
    release_lock = release
    locked_lock = locked


class SimRLock(SimLock):
    _reentrant = True

    def _release_save(self):
        st = (self._count, self._owner)
        self._count, self._owner = 0, None
        if SIM is not None:
            SIM.wake(self)
        return st

    def _acquire_restore(self, st):
        self.acquire()
        self._count, self._owner = st


_base_vtime = 1.0e9


def clock():
    return SIM.now() if SIM is not None else _base_vtime


def _sim_sleep(dt):
    if SIM is not None and SIM.cur is not None:
        SIM.sleep(max(0.0, float(dt)))


_entropy = [12345]


def _sim_urandom(n):
    out = bytearray()
    x = _entropy[0]
    for _ in range(n):
        x = (x * 6364136223846793005 + 1442695040888963407) % (1 << 64)
        out.append((x >> 33) & 255)
    _entropy[0] = x
    return bytes(out)


def install_seams():
    """Locks, clocks, sleeping and entropy created after this belong to the simulator."""
    threading.Lock = SimLock
    threading._allocate_lock = SimLock
    threading.RLock = SimRLock
    threading._CRLock = SimRLock
    _thread.allocate_lock = SimLock
    _thread.allocate = SimLock
    _thread.RLock = SimRLock
    time.time = clock
    time.monotonic = clock
    time.perf_counter = clock
    time.process_time = clock
    time.thread_time = clock
    for n in ("time", "monotonic", "perf_counter", "process_time", "thread_time"):
        setattr(time, n + "_ns", lambda: int(clock() * 1e9))
    time.sleep = _sim_sleep
    threading._time = clock
    import random
    os.urandom = _sim_urandom
    random._urandom = _sim_urandom
    _private_dice("sympy")
    mon.use_tool_id(TOOL, "verif-sim")


DICE = None


def _private_dice(package):
    """A third-party library that rolls dice for its own purposes (sympy shuffles the order of
    its assumption queries) gets dice of its own: what it draws is neither nondeterminism of the
    run nor a change of state by the code under test."""
    import random
    import types
    import sympy.testing.randtest  # noqa
    global DICE
    dice = DICE = random.Random(4711)
    mod = types.ModuleType("random")
    for k, v in vars(random).items():
        if not k.startswith("__"):
            setattr(mod, k, getattr(dice, k) if getattr(v, "__self__", None) is random._inst else v)
    for name, m in list(sys.modules.items()):
        if name == package or name.startswith(package + "."):
            for k, v in list(vars(m).items()):
                if v is random:
                    setattr(m, k, mod)
                elif getattr(v, "__self__", None) is random._inst and callable(v):
                    setattr(m, k, getattr(dice, v.__name__))


def events_on(codes, events):
    """Instrumenting is slow: done once, in the process all runs are forked from; an event
    without a registered callback costs next to nothing."""
    for c in codes:
        mon.set_local_events(TOOL, c, events)


BASE_EVENTS = LINE | CALL


NEVER = 1 << 60


class SimThread:
    __slots__ = ("id", "name", "ops", "baton", "state", "waiting", "deadline", "op", "opid", "ev", "calls",
                 "next_stop", "next_call", "steps", "stalled", "resume_to", "result", "insys")

    def __init__(self, id, ops):
        self.id = id
        self.ops = ops
        self.baton = _alloc()
        self.baton.acquire()
        self.state = "ready"
        self.waiting = None
        self.deadline = None
        self.op = None
        self.opid = None
        self.ev = 0
        self.calls = 0
        self.next_stop = NEVER
        self.next_call = NEVER
        self.steps = 0
        self.stalled = False
        self.resume_to = None


class Sim:
    """One simulated run.

    policy: object with   at(sim, thread) -> (target thread id or None, fault kind or None, stall flag)
                          after(sim, thread) -> next event number of interest (absolute), and the same for calls
    """

    def __init__(self, policy, step_cap=10 ** 7, unit="line", every=None, record_sites=False, calls=False, hot=None):
        self.policy = policy
        self.threads = []
        self.cur = None
        self.steps = 0
        self.vextra = 0.0
        self.step_cap = step_cap
        self.unit = unit
        self.every = every            # callback evaluated at every event, or None
        self.stats = {}
        self.switches = []            # (opid, ev, from, to, site)
        self.faults = []              # (opid, ev|call, kind, site)
        self.sites = {} if record_sites else None
        self.callsites = {} if record_sites else None
        self.with_calls = calls
        self.hot = hot                # collects the moments at which shared objects change (profiling)
        self.done = _alloc()
        self.done.acquire()
        self.on_cap = None            # called when the step cap is exceeded; must not return
        self.on_deadlock = None
        self.pending_fault = None
        self.trace = None
        # a caller that runs this long without finishing its call is preempted once: no scheduler
        # of a real system lets one thread spin for ever while others wait
        self.quantum = 200000 if unit == "line" else 1500000
        self.limit = min(self.quantum, step_cap)

    # -- time
    @property
    def vtime(self):
        return self.now()

    def now(self):
        return _base_vtime + self.steps * 1e-6 + self.vextra

    # -- events
    def install(self, codes):
        if self.unit == "line":
            mon.register_callback(TOOL, LINE, self._line_cb())
        else:
            events_on(codes, BASE_EVENTS | INSTR)
            mon.register_callback(TOOL, INSTR, self._line_cb())
        if self.with_calls:
            mon.register_callback(TOOL, CALL, self._call_cb())

    def uninstall(self, codes):
        if self.unit != "line":
            events_on(codes, BASE_EVENTS)
        mon.register_callback(TOOL, LINE, None)
        mon.register_callback(TOOL, INSTR, None)
        mon.register_callback(TOOL, CALL, None)

    def _line_cb(self):
        sim = self
        if self.sites is not None:
            sites = self.sites
            hot = self.hot

            def cb(code, line):
                t = sim.cur
                if t is None or t.op is None:
                    return
                t.ev += 1
                sim.steps += 1
                if hot is not None:
                    hot.line(t, code, line)
                s = sites.get((code, line))
                if s is None:
                    sites[(code, line)] = [t.ev, t.ev, 1]
                else:
                    s[1] = t.ev
                    s[2] += 1
                if sim.steps > sim.limit:
                    sim._over(t)
            return cb
        if self.every is not None:
            every = self.every

            def cb(code, line):
                t = sim.cur
                if t is None or t.op is None:
                    return
                t.ev += 1
                sim.steps += 1
                every(t, code, line)
                if t.ev >= t.next_stop:
                    sim._stop(t, code, line)
                elif sim.steps > sim.limit:
                    sim._over(t)
            return cb

        def cb(code, line):
            t = sim.cur
            if t is None or t.op is None:
                return
            t.ev += 1
            sim.steps += 1
            if t.ev >= t.next_stop:
                sim._stop(t, code, line)
            elif sim.steps > sim.limit:
                sim._over(t)
        return cb

    def _over(self, t):
        if self.steps > self.step_cap:
            self.on_cap(t)
        self.limit = min(self.steps + self.quantum, max(self.step_cap, self.steps))
        nxt = self.pick(t)
        if nxt is not None and nxt is not t:
            self.stats["fair"] = self.stats.get("fair", 0) + 1
            self.switches.append((t.opid, t.ev, t.id, nxt.id, "fair"))
            self._handover(t, nxt)

    def _call_cb(self):
        sim = self
        if self.callsites is not None:
            cs = self.callsites

            def cb(code, off, fn, arg0):
                t = sim.cur
                if t is None or t.op is None:
                    return
                t.calls += 1
                s = cs.get((code, off))
                if s is None:
                    cs[(code, off)] = [t.calls, t.calls, 1]
                else:
                    s[1] = t.calls
                    s[2] += 1
            return cb

        def cb(code, off, fn, arg0):
            t = sim.cur
            if t is None or t.op is None:
                return
            t.calls += 1
            if t.calls >= t.next_call:
                sim._stop_call(t, code, off)
        return cb

    def _stop(self, t, code, line):
        from . import boot
        to, fault, stall = self.policy.at(self, t)
        t.next_stop = self.policy.next_event(self, t)
        frame = None
        if fault is not None:
            frame = sys._getframe(2)
            if boot.frame_unsafe(frame):
                # move the fault to the next event outside clean-up code
                self.policy.defer(t, fault)
                t.next_stop = t.ev + 1
                fault = None
        if stall:
            t.stalled = True
        if to is not None:
            where = boot.site(code, line) if self.unit == "line" else "%s@%d" % (boot.site(code, code.co_firstlineno), line)
            self.switch(t, to, where)
        if fault is not None:
            self.fault(t, fault, boot.site(code, line))

    def _stop_call(self, t, code, off):
        from . import boot
        fault = self.policy.at_call(self, t)
        t.next_call = self.policy.next_call(self, t)
        if fault is not None:
            frame = sys._getframe(2)
            # CPython 3.12 releases the arguments of f(*list) twice when the CALL event raises
            if code.co_code[off] == CALL_EX or boot.frame_unsafe(frame):
                t.next_call = t.calls + 1
                self.policy.defer_call(t, fault)
                return
            self.fault(t, fault, "%s+%d" % (boot.site(code, code.co_firstlineno), off), call=True)

    def fault(self, t, kind, where, call=False):
        self.faults.append((t.opid, t.calls if call else t.ev, kind, where))
        self.stats["fault:" + kind] = self.stats.get("fault:" + kind, 0) + 1
        if kind == "interrupt":
            raise InjectedInterrupt("injected at " + where)
        if kind in ("memory", "callfail"):
            raise InjectedMemoryError("injected at " + where)
        if kind == "timeout":
            raise InjectedTimeout("injected at " + where)
        if kind == "recursion":
            raise InjectedRecursion("injected at " + where)
        # faults that do not fail the operation
        op, t.op = t.op, None
        try:
            self.policy.side_effect(self, t, kind)
        finally:
            t.op = op

    # -- scheduling
    def runnable(self):
        now = None
        out = []
        for t in self.threads:
            if t.state == "ready":
                out.append(t)
        live = [t for t in out if not t.stalled]
        if not live and out:
            for t in out:
                t.stalled = False
            live = out
        return live

    def pick(self, after):
        """Default rule: the next runnable thread in cyclic order."""
        r = self.runnable()
        if not r:
            timed = [t for t in self.threads if t.state == "blocked" and t.deadline is not None]
            if timed:
                t = min(timed, key=lambda t: (t.deadline, t.id))
                if t.deadline > self.now():
                    self.vextra += t.deadline - self.now()
                t.state, t.waiting, t.deadline = "ready", None, None
                return t
            return None
        n = len(self.threads)
        return min(r, key=lambda t: (t.id - after.id - 1) % n)

    def switch(self, t, to, where=""):
        r = self.runnable()
        tgt = None
        for x in r:
            if x.id == to:
                tgt = x
        if tgt is None:
            others = [x for x in r if x is not t]
            if not others:
                return
            tgt = others[0]
        if tgt is t:
            return
        self.switches.append((t.opid, t.ev, t.id, tgt.id, where))
        self._handover(t, tgt)

    def _handover(self, t, tgt):
        self.cur = tgt
        tgt.baton.release()
        t.baton.acquire()
        # we have been given the baton back: self.cur is t

    def block(self, lock, deadline=None):
        t = self.cur
        t.state, t.waiting, t.deadline = "blocked", lock, deadline
        self.stats["blocked"] = self.stats.get("blocked", 0) + 1
        self.steps += 1
        if self.steps > self.step_cap:
            self.on_cap(t)
        nxt = self.pick(t)
        if nxt is None:
            self.on_deadlock(t)
            raise Deadlock("no caller can run")
        if nxt is t:
            return
        self.switches.append((t.opid, t.ev, t.id, nxt.id, "blocked"))
        self._handover(t, nxt)

    def sleep(self, dt):
        t = self.cur
        self.stats["sleeps"] = self.stats.get("sleeps", 0) + 1
        self.block(None, self.now() + dt)

    def wake(self, lock):
        for t in self.threads:
            if t.state == "blocked" and t.waiting is lock:
                t.state, t.waiting, t.deadline = "ready", None, None

    def begin_op(self, t, op):
        t.opid = op["id"]
        t.ev = 0
        t.calls = 0
        # event 0: the call boundary
        to, fault, stall = self.policy.at(self, t)
        if stall:
            t.stalled = True
        if to is not None:
            self.switch(t, to, "call")
        t.next_stop = self.policy.next_event(self, t)
        t.next_call = self.policy.next_call(self, t)
        t.op = op

    def end_op(self, t):
        t.op = None
        t.next_stop = NEVER
        t.next_call = NEVER
        t.steps += t.ev

    def run(self, programs, body):
        """programs: list of lists of ops; body(sim, thread, op) executes one op."""
        global SIM
        self.threads = [SimThread(i, ops) for i, ops in enumerate(programs)]
        errors = []

        def main(t):
            t.baton.acquire()
            try:
                for op in t.ops:
                    body(self, t, op)
            except Deadlock as e:
                errors.append(("deadlock", t.id, str(e)))
            except BaseException as e:        # harness error
                import traceback
                errors.append(("harness", t.id, traceback.format_exc()))
            t.state = "finished"
            t.op = None
            nxt = self.pick(t)
            if nxt is None:
                if any(x.state == "blocked" for x in self.threads):
                    self.on_deadlock(t)
                self.cur = None
                self.done.release()
            else:
                self.cur = nxt
                nxt.baton.release()

        SIM = self
        for t in self.threads:
            _start(main, (t,))
        self.cur = self.threads[0]
        self.threads[0].baton.release()
        self.done.acquire()
        SIM = None
        return errors


class Explicit:
    """Replayable policy: explicit lists of switches and faults.

    switches: [[opid, ev, to, stall?]]; faults: [[opid, ev, kind]];
    callfaults: [[opid, call number, kind]].
    """

    def __init__(self, switches=(), faults=(), callfaults=(), side=None):
        self.sw = {}
        for s in switches:
            self.sw.setdefault(s[0], {})[s[1]] = (s[2], bool(s[3]) if len(s) > 3 else False)
        self.fl = {}
        for f in faults:
            self.fl.setdefault(f[0], {})[f[1]] = f[2]
        self.cf = {}
        for f in callfaults:
            self.cf.setdefault(f[0], {})[f[1]] = f[2]
        self._side = side

    def at(self, sim, t):
        to = stall = fault = None
        d = self.sw.get(t.opid)
        if d is not None and t.ev in d:
            to, stall = d[t.ev]
        d = self.fl.get(t.opid)
        if d is not None and t.ev in d:
            fault = d.pop(t.ev)
        return to, fault, stall

    def next_event(self, sim, t):
        n = NEVER
        for d in (self.sw.get(t.opid), self.fl.get(t.opid)):
            if d:
                for e in d:
                    if t.ev < e < n:
                        n = e
        return n

    def defer(self, t, fault):
        self.fl.setdefault(t.opid, {})[t.ev + 1] = fault

    def at_call(self, sim, t):
        d = self.cf.get(t.opid)
        if d is not None and t.calls in d:
            return d.pop(t.calls)
        return None

    def next_call(self, sim, t):
        n = NEVER
        d = self.cf.get(t.opid)
        if d:
            for e in d:
                if t.calls < e < n:
                    n = e
        return n

    def defer_call(self, t, fault):
        self.cf.setdefault(t.opid, {})[t.calls + 1] = fault

    def side_effect(self, sim, t, kind):
        if self._side is not None:
            self._side(sim, t, kind)


class RandomWalk(Explicit):
    """Preempts with a geometric countdown; every decision is logged by Sim.switches."""

    def __init__(self, rng, mean, op_switch=0.5, stall=0.0, **kw):
        Explicit.__init__(self, **kw)
        self.rng = rng
        self.mean = mean
        self.op_switch = op_switch
        self.stall = stall
        self.due = {}
        self.stalls = []

    def _draw(self, t):
        self.due[t.id] = t.ev + 1 + int(self.rng.expovariate(1.0 / self.mean))

    def at(self, sim, t):
        to, fault, stall = Explicit.at(self, sim, t)
        if to is None:
            if (t.ev == 0 and self.rng.random() < self.op_switch) or (t.ev > 0 and t.ev >= self.due.get(t.id, NEVER)):
                r = [x.id for x in sim.runnable() if x is not t]
                if r:
                    to = r[self.rng.randrange(len(r))]
                    if self.stall and self.rng.random() < self.stall:
                        stall = True
                        self.stalls.append((t.opid, t.ev))
        self._draw(t)
        return to, fault, stall

    def next_event(self, sim, t):
        return min(Explicit.next_event(self, sim, t), self.due.get(t.id, NEVER))


class Pct(Explicit):
    """Probabilistic concurrency testing: random priorities, d priority-change points
    spread over the expected number of steps."""

    def __init__(self, rng, nthreads, depth, expected, **kw):
        Explicit.__init__(self, **kw)
        self.rng = rng
        self.prio = list(range(depth, depth + nthreads))
        rng.shuffle(self.prio)
        self.points = sorted(rng.randrange(1, max(2, expected)) for _ in range(depth))
        self.depth = depth

    def _best(self, sim):
        r = sim.runnable()
        return max(r, key=lambda t: self.prio[t.id]) if r else None

    def at(self, sim, t):
        to, fault, stall = Explicit.at(self, sim, t)
        if to is None:
            while self.points and sim.steps >= self.points[0]:
                self.points.pop(0)
                self.prio[t.id] = len(self.points)
            b = self._best(sim)
            if b is not None and b is not t:
                to = b.id
        return to, fault, stall

    def next_event(self, sim, t):
        n = Explicit.next_event(self, sim, t)
        if self.points:
            n = min(n, t.ev + max(1, self.points[0] - sim.steps))
        return n
