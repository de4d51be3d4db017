"""Runs scenarios: forks pristine processes, computes reference answers, executes
simulated runs and reports what happened."""
import copy
import copyreg
import gc
import json
import os
import pickle
import random
import resource
import select
import signal
import struct
import sys
import time
import traceback

import numpy as np

from . import boot, hot, sched
from . import catalog as C

real_time = sched._real_perf


# --------------------------------------------------------------------------
# forking
# --------------------------------------------------------------------------

class ChildError(Exception):
    """The child died, ran out of time or failed in the harness."""


def fork_call(fn, cpu=120, wall=600):
    """Run fn() in a forked process and return its (pickled) result."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
            try:
                data = (True, fn())
            except BaseException:
                data = (False, traceback.format_exc())
            _send(w, data)
        finally:
            os._exit(0)
    os.close(w)
    try:
        data = _recv(r, wall)
    finally:
        os.close(r)
    if data is None:
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
    _, status = os.waitpid(pid, 0)
    if data is None:
        if os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGXCPU:
            raise ChildError("cpu limit")
        raise ChildError("child died: status %d" % status)
    ok, val = data
    if not ok:
        raise ChildError("harness failure in child:\n" + val)
    return val


def _send(w, obj):
    b = pickle.dumps(obj, protocol=4)
    b = struct.pack("<Q", len(b)) + b
    o = 0
    while o < len(b):
        o += os.write(w, b[o:o + 65536])


def _recv(r, wall):
    buf = b""
    need = None
    end = real_time() + wall
    while True:
        left = end - real_time()
        if left <= 0:
            return None
        rd, _, _ = select.select([r], [], [], left)
        if not rd:
            return None
        d = os.read(r, 1 << 20)
        if not d:
            return None
        buf += d
        if need is None and len(buf) >= 8:
            need = struct.unpack("<Q", buf[:8])[0]
        if need is not None and len(buf) >= 8 + need:
            return pickle.loads(buf[8:8 + need])


# --------------------------------------------------------------------------
# one operation
# --------------------------------------------------------------------------

INJECTED = (sched.InjectedInterrupt, sched.InjectedMemoryError, sched.InjectedTimeout, sched.InjectedRecursion)


FAILING = ("interrupt", "memory", "callfail", "timeout", "recursion")


class CallbackError(Exception):
    """Raised by a caller's own callback."""


CB = {}
for _b in (ValueError, TypeError, KeyError, AttributeError, ZeroDivisionError, RuntimeError, AssertionError, NotImplementedError, OSError,
           IndexError, OverflowError):
    CB[_b.__name__] = type("Callback" + _b.__name__, (CallbackError, _b), {})


class Hostile(list):
    """A caller's own sequence type: a list whose accesses run caller code."""
    def __init__(self, items, hook, lenhook=False):
        list.__init__(self, items)
        self._hook = hook
        self.lenhook = lenhook

    def __getitem__(self, i):
        self._hook()
        return list.__getitem__(self, i)

    def __iter__(self):
        for x in list.__iter__(self):
            self._hook()
            yield x

    def __len__(self):
        # numpy swallows failures of len(): only benign callbacks here
        if self.lenhook:
            self._hook()
        return list.__len__(self)


def raw_op(op, env, args):
    """Execute op; returns the raw result (may raise)."""
    k = op["o"]
    if k == "build":
        return C.build(op["spec"], env)
    if k == "fun":
        return C.OPS["fun"](None, op, args)
    return C.OPS[k](env[op["x"]], op, args)


def outcome_of(op, env, args, raw=None):
    """Outcome of executing op without a simulator (reference and final phase)."""
    try:
        v = raw_op(op, env, args)
    except (Exception, sched.Deadlock) as e:
        return C.Outcome(False, exc=type(e).__name__, msg=str(e)[:300]), None
    if op["o"] == "build":
        return C.Outcome(True, C.norm(C.build_digest(v))), v
    return C.Outcome(True, C.norm(v)), v


def strip(op):
    return {k: v for k, v in op.items() if k not in ("id", "as", "scribble", "cb", "keep", "x", "buf", "perm")}


class Refs:
    """Reference answers: each from an object built alone, queried once, in a pristine process."""

    def __init__(self):
        self.cache = {}
        self.forks = 0

    def want(self, pairs):
        """pairs: list of (closed spec or None, op).  Computes the missing ones, one
        process per object, one process per query."""
        todo = {}
        for spec, op in pairs:
            k = (C.key(spec), C.key(strip(op)))
            if k not in self.cache:
                todo.setdefault(k[0], (spec, {}))[1][k[1]] = op
        for sk, (spec, ops) in todo.items():
            ops = list(ops.items())

            def child():
                random.seed(99)
                np.random.seed(99)
                gc.disable()
                env = {}
                if spec is not None:
                    try:
                        env["X"] = C.build(spec)
                    except Exception as e:
                        return ("buildfail", type(e).__name__ + ": " + str(e)[:200])
                out = []
                for k, op in ops:
                    o = dict(op)
                    o["x"] = "X"

                    def one():
                        st = sched.Sim(NullPolicy(), step_cap=1 << 50)
                        sched.SIM = None
                        cnt = Counter()
                        cnt.on()
                        oc, _ = outcome_of(o, env, C.op_args(o))
                        cnt.off()
                        return oc, cnt.n
                    out.append((k, fork_call(one)))
                return ("ok", out)
            self.forks += 1 + len(ops)
            res = fork_call(child)
            if res[0] == "buildfail":
                for k, op in ops:
                    self.cache[(sk, k)] = (C.Outcome(False, exc="BUILD", msg=res[1]), 0)
            else:
                for k, oc in res[1]:
                    self.cache[(sk, k)] = oc

    def get(self, spec, op):
        return self.cache[(C.key(spec), C.key(strip(op)))][0]

    def steps(self, spec, op):
        return self.cache[(C.key(spec), C.key(strip(op)))][1]


class NullPolicy:
    def at(self, sim, t):
        return None, None, False

    def next_event(self, sim, t):
        return sched.NEVER

    next_call = next_event


class Counter:
    """Counts FIAT line events of an undisturbed call (its work in simulated steps)."""
    def __init__(self):
        self.n = 0

    def on(self):
        def cb(code, line):
            self.n += 1
        sched.mon.register_callback(sched.TOOL, sched.LINE, cb)

    def off(self):
        sched.mon.register_callback(sched.TOOL, sched.LINE, None)


# --------------------------------------------------------------------------
# watching arguments and process state
# --------------------------------------------------------------------------

def freeze(v):
    """A comparable snapshot of caller-owned data (identity for foreign objects)."""
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return ("O", v.shape, tuple(freeze(x) for x in v.ravel()))
        return ("A", v.shape, v.dtype.str, v.tobytes())
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple(freeze(x) for x in (list.__iter__(v) if isinstance(v, list) else v)))
    if isinstance(v, dict):
        return ("D", tuple((freeze(k), freeze(x)) for k, x in v.items()))
    if isinstance(v, (int, float, str, bool, type(None))):
        return v
    return ("id", id(v))


def proc_state():
    """Process-wide state a library has no business changing (hashable summary per item)."""
    import locale
    import threading
    import warnings
    import decimal
    import linecache
    import sympy
    st = {}
    st["warnings.filters"] = repr(warnings.filters)
    st["warnings.showwarning"] = repr(warnings.showwarning)
    st["numpy.errstate"] = repr(np.geterr())
    st["numpy.errcall"] = repr(np.geterrcall())
    st["numpy.bufsize"] = np.getbufsize()
    po = np.get_printoptions()
    st["numpy.printoptions"] = repr(sorted((k, repr(v)) for k, v in po.items()))
    s = np.random.get_state(legacy=True)
    st["numpy.random"] = hash((s[0], s[1].tobytes(), s[2], s[3], s[4]))
    st["random"] = hash(random.getstate())
    st["environ"] = hash(tuple(sorted(os.environ.items())))
    st["cwd"] = os.getcwd()
    um = os.umask(0)
    os.umask(um)
    st["umask"] = um
    st["recursionlimit"] = sys.getrecursionlimit()
    st["switchinterval"] = sys.getswitchinterval()
    st["stdio"] = (id(sys.stdout), id(sys.stderr), id(sys.stdin))
    st["displayhook"] = (id(sys.displayhook), id(sys.excepthook), id(threading.excepthook))
    st["sys.path"] = hash(tuple(sys.path))
    st["sys.trace"] = (repr(sys.gettrace()), repr(sys.getprofile()))
    st["sys.argv"] = repr(sys.argv)
    st["signals"] = tuple(repr(signal.getsignal(n)) for n in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGCHLD, signal.SIGPIPE, signal.SIGFPE, signal.SIGUSR1))
    st["itimer"] = signal.getitimer(signal.ITIMER_REAL)
    st["gc"] = (gc.isenabled(), gc.get_threshold(), gc.get_debug())
    st["locale"] = locale.setlocale(locale.LC_ALL)
    st["decimal"] = repr(decimal.getcontext())
    st["threads"] = threading.active_count()
    st["stack_size"] = threading.stack_size()
    st["fds"] = tuple(sorted(os.listdir("/proc/self/fd")))[:-1].__len__()
    st["children"] = _children()
    st["tmp"] = len(os.listdir(os.environ.get("VERIF_TMPCWD", "."))) if os.environ.get("VERIF_TMPCWD") else 0
    st["sys.modules.patched"] = tuple((m, n, id(getattr(sys.modules[m], n))) for m, n in WATCHED)
    st["builtins"] = hash(tuple(sorted((k, id(v)) for k, v in vars(__import__("builtins")).items() if k != "_")))
    st["sympy.printer"] = repr(getattr(sympy.Basic, "__str__", None))
    st["asyncio"] = repr(getattr(sys.modules.get("asyncio"), "_event_loop_policy", None))
    st["logging"] = _logging_state()
    st["rlimits"] = tuple(resource.getrlimit(x) for x in (resource.RLIMIT_AS, resource.RLIMIT_STACK, resource.RLIMIT_NOFILE))
    st["atexit"] = __import__("atexit")._ncallbacks()
    st["int_max_str"] = sys.get_int_max_str_digits()
    st["errstate.sympy"] = repr(__import__("sympy.core.evaluate", fromlist=["x"]).global_evaluate[0]) if "sympy.core.evaluate" in sys.modules else ""
    st["modules.rebound"] = tuple(_namespace(m) for m in REBOUND)
    st["sys.import"] = (tuple(map(id, sys.meta_path)), tuple(map(id, sys.path_hooks)), sys.dont_write_bytecode, id(sys.breakpointhook),
                        id(sys.unraisablehook), sys.flags.optimize)
    st["warnings.default"] = (warnings.defaultaction, id(warnings.formatwarning))
    for m, names in LATE.items():
        if m in sys.modules:
            st[m] = repr([_late(sys.modules[m], n) for n in names])
    st["decimal.default"] = repr((decimal.DefaultContext, decimal.BasicContext, decimal.ExtendedContext))
    st["tz"] = time.tzname
    st["copyreg"] = hash(tuple(sorted((repr(k), id(v)) for k, v in copyreg.dispatch_table.items()))) if "sympy" in sys.modules else 0
    try:
        from sympy.core.parameters import global_parameters
        st["sympy.parameters"] = repr((global_parameters.evaluate, global_parameters.distribute, global_parameters.exp_is_pow))
    except Exception:
        pass
    return st


def _noop(*a, **k):
    return None


def ambient(seed):
    """What the embedding application may have set before it called the library: nothing here changes any answer."""
    if seed is None:
        return
    import decimal
    import logging
    import threading
    import warnings
    r = random.Random("ambient/%s" % seed)
    if r.random() < 0.6:
        gc.set_threshold(10 ** 8, 50, 1000)
        gc.enable()
    if r.random() < 0.5:
        np.seterr(**r.choice(({"all": "ignore"}, {"divide": "ignore"}, {"over": "ignore", "under": "warn"}, {"under": "call"})))
        np.seterrcall(_noop)
    if r.random() < 0.5:
        np.set_printoptions(**r.choice(({"precision": 3}, {"suppress": True}, {"threshold": 10}, {"linewidth": 200, "sign": "+"})))
    if r.random() < 0.6:
        warnings.filterwarnings(r.choice(("always", "ignore", "once")), r.choice(("", "nothing like this")))
    if r.random() < 0.3:
        warnings.showwarning = _noop
    if r.random() < 0.4:
        sys.setrecursionlimit(r.choice((3000, 20000)))
    if r.random() < 0.3:
        sys.setswitchinterval(0.02)
    if r.random() < 0.4:
        decimal.getcontext().prec = r.choice((50, 12))
    if r.random() < 0.3 and "mpmath" in sys.modules:
        sys.modules["mpmath"].mp.dps = 25
    if r.random() < 0.4:
        os.umask(0o027)
        os.environ["OMP_WAIT_POLICY"] = "passive"
    if r.random() < 0.4:
        signal.signal(signal.SIGUSR1, _noop)
        signal.signal(signal.SIGPIPE, signal.SIG_IGN)
    if r.random() < 0.3:
        sys.excepthook = sys.displayhook = threading.excepthook = _noop
    if r.random() < 0.4:
        logging.getLogger().setLevel(r.choice((logging.DEBUG, logging.ERROR)))
        logging.getLogger().addHandler(logging.NullHandler())
    if r.random() < 0.5:
        np.random.seed(r.randrange(1 << 31))
        random.seed(r.random())
    if r.random() < 0.3:
        np.setbufsize(16 * 1024)
    if r.random() < 0.3:
        sys.path.insert(0, "/nonexistent/site")


REBOUND = ("numpy", "numpy.linalg", "math", "itertools", "functools", "operator", "copy", "collections", "inspect", "abc", "sympy",
           "numbers", "warnings", "weakref", "threading", "re")
LATE = {"mpmath": ("mp.prec", "mp.trap_complex", "mp.pretty", "iv.prec"), "socket": ("getdefaulttimeout()",), "tempfile": ("tempdir",),
        "faulthandler": ("is_enabled()",), "multiprocessing": ("get_start_method(1)",), "fractions": ("Fraction",),
        "json": ("_default_encoder",), "numpy.polynomial.polynomial": ("polyval",), "reprlib": ("aRepr",)}


def _namespace(m):
    m = sys.modules.get(m)
    if m is None:
        return 0
    mod = type(sys)
    return hash(tuple(sorted((k, id(v)) for k, v in list(vars(m).items()) if not isinstance(v, (mod, dict, set)) and not k.startswith("__"))))


def _late(m, n):
    call = n.endswith(")")
    arg = ()
    if call:
        n, _, a = n[:-1].partition("(")
        arg = (True,) if a else ()
    try:
        for k in n.split("."):
            m = getattr(m, k)
        return m(*arg) if call else m
    except Exception:
        return None


def _children():
    try:
        with open("/proc/self/task/%d/children" % os.getpid()) as f:
            return f.read().strip()
    except OSError:
        return ""


def _logging_state():
    import logging
    r = logging.getLogger()
    return (r.level, len(r.handlers), r.disabled, logging.root.manager.disable, logging.raiseExceptions,
            logging.lastResort.level if logging.lastResort else None)


WATCHED = [("numpy", n) for n in ("array", "dot", "zeros", "seterr", "einsum", "eye", "transpose", "outer", "float64", "finfo")] + \
          [("numpy.linalg", n) for n in ("inv", "det", "svd", "norm", "solve", "eigh")] + \
          [("math", n) for n in ("sqrt", "pi", "factorial")] + \
          [("warnings", n) for n in ("warn", "simplefilter", "catch_warnings", "formatwarning")] + \
          [("sympy", n) for n in ("lambdify", "diff", "symbols", "Rational", "legendre")] + \
          [("os", n) for n in ("getcwd", "environ", "open", "write")]


def state_diff(a, b):
    return sorted(k for k in a if a[k] != b.get(k))


# --------------------------------------------------------------------------
# scenario execution
# --------------------------------------------------------------------------

NOREF = ("gc", "drop", "drop_results", "copy")
TABLE_OPS = {"tab", "nbtab", "nbnew", "pstab", "riesz", "points", "weights", "rule", "extab", "exder", "exjet", "nbex",
             "tabq", "noderiesz"}


def arrays_in(v, out=None, depth=0):
    """The writable arrays / containers of a table (for a caller that scribbles on it)."""
    if out is None:
        out = []
    if isinstance(v, np.ndarray):
        out.append(v)
        if v.dtype == object:
            for x in v.ravel():
                arrays_in(x, out, depth + 1)
    elif isinstance(v, dict):
        for x in v.values():
            arrays_in(x, out, depth + 1)
    elif isinstance(v, (list, tuple)) and depth < 6:
        for x in v:
            arrays_in(x, out, depth + 1)
    return out


def scribble(v, how):
    """What a caller may do with a table it owns."""
    n = 0
    for a in arrays_in(v):
        if a.flags.writeable and a.dtype.kind == "f":
            if how == "nan":
                a[...] = np.nan
            elif how == "scale":
                a *= -3.5
            else:
                a[...] = 1e6
            n += 1
        elif a.flags.writeable and a.dtype.kind == "i":
            a[...] = 7
            n += 1
    if how == "clear":
        if isinstance(v, dict):
            v.clear()
            n += 1
        elif isinstance(v, list):
            del v[:]
            n += 1
    return n


class Run:
    """Executes one scenario in this process (a fresh fork)."""

    def __init__(self, sc, env, table, refs, opts=None):
        self.sc = sc
        self.env = env                 # name -> object
        self.table = table             # name -> spec (with references)
        self.refs = refs               # callable (spec, op) -> Outcome
        self.viol = []
        self.flags = sc.get("flags", {})
        self.kept = []
        self.bufs = {}
        self.inflight = {}
        self.opstats = {}
        self.compared = 0
        self.scribbled = 0
        self.cbfired = 0
        self.cbraised = set()
        self.fault_ops = set()
        self.opsteps = []
        self.state0 = None
        self.sim = None
        self.pipe = None
        self.probes = {}
        self.dead = set()              # names whose construction did not happen

    # -- helpers
    def spec_of(self, op):
        if op["o"] == "build":
            return None
        if op["o"] == "fun":
            return None
        return C.deref(self.table[op["x"]], self.table)

    def ref(self, op):
        if op["o"] == "build":
            return self.refs.get(None, {"o": "build", "spec": C.deref(op["spec"], self.table)})
        return self.refs.get(self.spec_of(op), op)

    def ref_steps(self, op):
        if op["o"] == "build":
            return self.refs.steps(None, {"o": "build", "spec": C.deref(op["spec"], self.table)})
        return self.refs.steps(self.spec_of(op), op)

    def violate(self, kind, op, detail, phase):
        self.viol.append({"kind": kind, "op": op, "detail": detail, "phase": phase})

    def available(self, op):
        if op["o"] == "build":
            return all(r in self.env for r in C.refs_in(op["spec"]))
        return op["o"] in ("fun", "gc", "drop") or op["x"] in self.env

    def pin(self, op):
        """What op refers to, held by its caller while the call lasts."""
        names = C.refs_in(op["spec"]) if op["o"] == "build" else [op["x"]] if op.get("x") else []
        return {n: self.env[n] for n in names}

    # -- user callbacks
    def hooked_args(self, op, args):
        cb = op.get("cb")
        if not cb:
            return args
        state = {"n": 0, "fired": False}
        run = self

        def hook():
            state["n"] += 1
            if state["n"] == cb["at"] and not state["fired"]:
                state["fired"] = True
                run.cbfired += 1
                run.probes["callback:" + cb["mode"]] = run.probes.get("callback:" + cb["mode"], 0) + 1
                if cb["mode"] != "reenter":
                    run.cbraised.add(op.get("id"))
                if cb["mode"] == "raise":
                    raise CB.get(cb.get("exc"), CallbackError)("callback")
                if cb["mode"] == "interrupt":
                    raise sched.InjectedInterrupt("callback")
                if cb["mode"] == "memory":
                    raise sched.InjectedMemoryError("callback")
                nested = dict(cb["op"], id="%s/n" % op.get("id"))
                if run.available(nested):
                    oc, _ = outcome_of(nested, run.pin(nested), C.op_args(nested))
                    d = run.ref(nested).diff(oc, nested)
                    run.compared += 1
                    if d:
                        run.violate("nested-call", nested, d, "callback of %s" % op["o"])
        args = dict(args)
        if cb["on"] == "pts" and "pts" in args:
            args["pts"] = Hostile(list(map(tuple, np.asarray(args["pts"]).tolist())), hook, cb["mode"] == "reenter")
        elif cb["on"] == "f":
            f0 = C.caller_fn(op)

            def f(x):
                hook()
                return f0(x)
            args["f"] = f
        elif cb["on"] == "q":
            R = boot.REGISTRY

            class UserRule(R["QuadratureRule"]):
                """A caller's own quadrature rule."""
                def __init__(self, rule):
                    R["QuadratureRule"].__init__(self, rule.ref_el, rule.get_points(), rule.get_weights())

                def get_points(self):
                    hook()
                    return super().get_points()

                def get_weights(self):
                    hook()
                    return super().get_weights()
            args["q"] = UserRule
        return args

    # -- thread body
    def body(self, sim, t, op):
        k = op["o"]
        if k == "drop":
            self.env.pop(op["x"], None)
            return
        if k == "gc":
            gc.collect()
            self.probes["collected"] = self.probes.get("collected", 0) + 1
            return
        if k == "drop_results":
            self.kept = []
            if C.HANDED:
                del C.HANDED[:]
            return
        if k == "copy":
            # somebody takes a copy (while no call is under way); not every object can be copied
            if op["x"] in self.env and not self.inflight:
                try:
                    self.env[op["as"]] = (copy.deepcopy if op["deep"] else copy.copy)(self.env[op["x"]])
                    self.probes["copied"] = self.probes.get("copied", 0) + 1
                except Exception:
                    self.probes["copy refused"] = self.probes.get("copy refused", 0) + 1
            return
        if not self.available(op):
            self.probes["skipped"] = self.probes.get("skipped", 0) + 1
            return
        args = self.hooked_args(op, C.op_args(op, self.bufs))
        env = self.pin(op)
        watch = None
        coll = None
        if self.flags.get("watch"):
            watch = [(n, v, freeze(v)) for n, v in args.items()]
        st0 = None
        if self.flags.get("procstate") and not self.inflight:
            st0 = proc_state()
        nf = len(sim.faults)
        self.inflight[t.id] = (op, watch)
        raw = None
        injected = False
        try:
            sim.begin_op(t, op)
            if self.flags.get("watch") and k == "build":
                raw = self.watched_build(op, env, watch)
            else:
                raw = raw_op(op, env, args)
            sim.end_op(t)
            oc = C.Outcome(True)
        except sched.Deadlock:
            sim.end_op(t)
            self.inflight.pop(t.id, None)
            raise
        except BaseException as e:
            sim.end_op(t)
            oc = C.Outcome(False, exc=type(e).__name__, msg=str(e)[:300])
            if not isinstance(e, (Exception, KeyboardInterrupt)):
                raise
            e.__traceback__ = None
            del e
        env = None
        mine = [f for f in sim.faults[nf:] if f[0] == op["id"] and f[2] in FAILING]
        cbfault = op.get("cb") and op["cb"]["mode"] in ("raise", "interrupt", "memory") and not oc.ok
        if oc.ok:
            if k == "build":
                sim_digest = C.build_digest(raw)
                oc = C.Outcome(True, C.norm(sim_digest))
                if op.get("as"):
                    self.env[op["as"]] = raw
            else:
                oc = C.Outcome(True, C.norm(raw))
        ref = self.ref(op)
        d = ref.diff(oc, op)
        self.compared += 1
        if d:
            if (mine or cbfault) and not oc.ok:
                pass                    # the faulted call failed: allowed
            elif mine and oc.ok:
                self.violate("faulted-call-wrong-answer", op, d, "run")
            else:
                self.violate("wrong-answer", op, d, "run")
        if self.flags.get("cb_exact") and op.get("id") in self.cbraised and oc.ok:
            self.violate("callback-exception-lost", op, "the call returned although the callback raised", "run")
        if cbfault and self.flags.get("cb_exact") and op["cb"]["mode"] == "raise" and op.get("id") in self.cbraised and ref.ok \
                and oc.exc != CB.get(op["cb"].get("exc"), CallbackError).__name__:
            self.violate("callback-exception-lost", op, "caller saw %s (%s)" % (oc.exc, oc.msg), "run")
        if mine:
            self.fault_ops.add(op["id"])
        if watch is not None:
            for n, v, f in watch:
                if freeze(v) != f:
                    self.violate("argument-modified", op, "argument %s differs after the call%s" % (n, "" if oc.ok else " that raised"), "run")
        self.inflight.pop(t.id, None)
        if st0 is not None and not self.inflight:
            df = state_diff(st0, proc_state())
            if df:
                self.violate("process-state", op, "changed: " + ", ".join(df), "run")
        self.opsteps.append((op["id"], t.ev))
        lim = self.flags.get("steplimit")
        if lim and not mine and not cbfault and not op.get("cb"):
            bound = lim[0] * self.ref_steps(op) + lim[1]
            if t.ev > bound:
                self.violate("work-bound", op, "%d simulated steps, %d when alone" % (t.ev, self.ref_steps(op)), "run")
        if oc.ok and raw is not None and k in TABLE_OPS:
            if op.get("scribble"):
                self.scribbled += scribble(raw, op["scribble"])
            elif self.flags.get("keep") or op.get("keep"):
                self.kept.append((op, raw, oc))

    def watched_build(self, op, env, watch):
        C.COLLECT = coll = []
        # containers are registered as they are passed; watch them from then on
        orig_append = coll.append

        class L(list):
            def append(s, v):
                watch.append(("constructor argument", v, freeze(v)))
        C.COLLECT = L()
        try:
            return C.build(op["spec"], env)
        finally:
            C.COLLECT = None

    def every(self, t, code, line):
        for tid, (op, watch) in self.inflight.items():
            if watch:
                for n, v, f in watch:
                    if freeze(v) != f:
                        self.violate("argument-modified", op, "argument %s differs while the call runs, at %s" % (n, boot.site(code, line)), "run")
                        self.finish(early=True)

    # -- whole run
    def execute(self, pipe=None):
        sc = self.sc
        self.pipe = pipe
        seed = sc.get("seed", 0)
        random.seed(seed * 7 + 1)
        np.random.seed((seed * 7 + 1) % (1 << 31))
        gc.collect()
        gc.disable()
        # the digest of a build is part of the observation, not of the run
        pol = make_policy(sc, self.side_effect)
        unit = sc.get("unit", "line")
        work = sum(self.ref_steps(op) for th in sc["threads"] for op in th if op["o"] not in NOREF)
        cap = (20 * work + 1000000) * (1 if unit == "line" else 12)
        boot.new_addresses()
        sim = self.sim = sched.Sim(pol, step_cap=cap, unit=unit,
                                   every=self.every if self.flags.get("watch") else None,
                                   calls=bool(sc.get("callfaults")))
        sim.on_cap = self.on_cap
        sim.on_deadlock = self.on_deadlock
        if self.flags.get("procstate"):
            ambient(sc.get("ambient"))
            self.state0 = proc_state()
        if self.flags.get("memory"):
            return self.memory_run(cap)
        C.HANDED = []
        sim.install(boot.CODES)
        errs = sim.run(sc["threads"], self.body)
        sim.uninstall(boot.CODES)
        for e in errs:
            if e[0] == "harness":
                raise RuntimeError(e[2])
        if self.flags.get("procstate"):
            df = state_diff(self.state0, proc_state())
            if df and not self.viol:
                self.violate("process-state", None, "changed after all calls finished: " + ", ".join(df), "end")
        if not self.viol and not self.flags.get("nofinal"):
            self.final_phase()
        return self.report()

    # -- memory held
    def memory_run(self, cap):
        """The same disturbed session over and over, then undisturbed calls with ever new arguments: what the library
        has allocated and not given back must stop growing."""
        import linecache
        import tracemalloc
        from sympy.core.cache import clear_cache
        sc, m = self.sc, self.flags["memory"]

        def held(deep=False):
            if deep:
                clear_cache()
            linecache.clearcache()
            gc.collect()
            gc.collect()
            out = {}
            for tr in tracemalloc._get_traces():         # (domain, size, frames, ...), much faster than a snapshot
                fn, line = tr[2][0]
                if fn.startswith(boot.FIAT_DIR):
                    k = "%s:%d" % (fn[len(boot.FIAT_DIR):], line)
                    out[k] = out.get(k, 0) + tr[1]
            return out

        def growth(a, b):
            return sum(b.values()) - sum(a.values())

        def where(a, b):
            d = sorted(((b[k] - a.get(k, 0), k) for k in b if b[k] > a.get(k, 0)), reverse=True)[:3]
            return ", ".join("%s +%d" % (k, n) for n, k in d)

        self.probes["memory runs"] = 1
        self.first = None
        tracemalloc.start(1)
        try:
            # the session: calls, threads and faults as scheduled, repeated
            def rounds(n):
                for _ in range(n):
                    old = self.sim
                    sim = self.sim = sched.Sim(make_policy(sc, self.side_effect), step_cap=cap, unit=sc.get("unit", "line"),
                                               every=None, calls=bool(sc.get("callfaults")))
                    sim.on_cap, sim.on_deadlock = self.on_cap, self.on_deadlock
                    self.before += old.steps
                    # nothing the simulator keeps may be counted as the library's
                    if self.first is None and old.steps:
                        self.first = json.loads(json.dumps([old.switches, old.faults]))
                    sim.stats = json.loads(json.dumps(old.stats))
                    del old
                    self.opsteps = self.opsteps[-3:]
                    sim.install(boot.CODES)
                    errs = sim.run(sc["threads"], self.body)
                    sim.uninstall(boot.CODES)
                    for e in errs:
                        if e[0] == "harness":
                            raise RuntimeError(e[2])
                    del errs
                    self.viol[:] = [v for v in self.viol if v["kind"] == "memory-grows"]

            self.before = 0
            marks = []
            for r in range(m["rounds"]):
                rounds(1)
                marks.append(held())
            more = 0
            while marks and min(growth(a, b) for a, b in zip(marks[-4:], marks[-3:])) > 40 and more < m["more"]:
                # caches of bounded size fill up in the end
                n = 1 if more < 4 else 30
                more += n
                rounds(n)
                marks.append(held(True))
            inc = [growth(a, b) for a, b in zip(marks, marks[1:])]
            self.compared += len(inc)
            self.probes["memory rounds"] = len(marks)
            if more >= m["more"]:
                self.violate("memory-grows", {"o": "memory", "x": "session"}, "%s bytes more after each repetition of the session, later per 30 (%s)"
                             % (inc, where(marks[1], marks[-1])), "session")
                return self.report()
            # calls with ever new arguments
            rng = random.Random("soak/%s" % sc.get("seed"))
            ops = [o for o in sc.get("soak", []) if self.available(o)]
            builds = [o for o in sc.get("soakbuild", []) if self.available(o)]
            tabs = [o for o in ops if o["o"] == "tab"]
            if not ops and not builds:
                return self.report()
            size = m["block"]

            def block():
                for i in range(size if ops else 0):
                    op = dict(ops[i % len(ops)] if i % 4 < 3 or not tabs else tabs[i % len(tabs)])
                    if "pts" in op:
                        op["pts"] = dict(op["pts"], seed=100 + rng.randrange(10 ** 9), n=min(op["pts"]["n"], 4))
                        if op["pts"].get("as") == "ints":
                            op["pts"]["as"] = "tuples"
                    if i % 4 == 3:
                        # a call that is refused
                        k = rng.randrange(3)
                        if k and op["o"] == "tab":
                            op["entity"] = [op["entity"][0] if op.get("entity") else 1, 50 + rng.randrange(10 ** 9)]
                        elif "pts" in op:
                            op["pts"]["s"] = "s1" if op["pts"]["s"] == "s3" else "s3"
                    try:
                        raw_op(op, self.env, C.op_args(op))
                    except (Exception, sched.Deadlock):
                        pass
                for b in builds * nb[0]:
                    raw_op(b, self.env, {})

            nb = [1]
            block()
            blocks = [held()]
            rest = m["max"]
            while True:
                block()
                blocks.append(held(len(blocks) > 3))
                rest -= 1
                if len(blocks) == 6:
                    nb[0] = 1 if self.sc["flags"]["memory"].get("slow") else 25
                if growth(blocks[-2], blocks[-1]) <= m["slack"] and len(blocks) > 2:
                    break
                if rest <= 0:
                    break
            self.compared += len(blocks)
            self.probes["memory blocks"] = len(blocks)
            self.probes["memory calls"] = size * len(blocks)
            if growth(blocks[-2], blocks[-1]) > m["slack"]:
                inc = [growth(a, b) for a, b in zip(blocks, blocks[1:])]
                self.violate("memory-grows", {"o": "memory", "x": "soak"}, "still growing by %s bytes per %d new calls after %d of them (%s)"
                             % (inc[-4:], size, size * len(blocks), where(blocks[-2], blocks[-1])), "soak")
            return self.report()
        finally:
            tracemalloc.stop()

    def final_phase(self):
        # tables handed out earlier must not have changed
        for op, raw, oc in self.kept:
            d = C.differs(oc.val, C.norm(raw))
            self.compared += 1
            if d:
                self.violate("handed-out-table-changed", op, d, "end")
                return
        # nor may transforms handed out earlier
        handed, C.HANDED = C.HANDED or [], None
        for op, t, pts, res in handed:
            self.compared += 1
            try:
                d = C.differs(C.norm(res), C.norm([np.array(t(p), dtype=float) for p in pts]))
            except Exception as e:
                d = "raises %s" % type(e).__name__
            if d:
                self.violate("handed-out-transform-changed", op, d, "end")
                return
        del handed
        seen = set()
        fin = sched.Sim(NullPolicy(), step_cap=1 << 50)
        fin.on_cap = self.on_cap
        fin.on_deadlock = self.on_deadlock
        t = sched.SimThread(0, [])
        fin.threads = [t]
        fin.install(boot.CODES)
        ops = [op for th in self.sc["threads"] for op in th if op["o"] not in NOREF]
        ops += self.sc.get("final", [])
        rebuild = self.flags.get("rebuild", 1 << 30)
        for op in ops:
            if not self.available(op):
                continue
            if op["o"] == "build":
                rebuild -= 1
                if rebuild < 0:
                    continue
            k = (op.get("x"), C.key(strip(op)))
            if k in seen:
                continue
            seen.add(k)
            fin.step_cap = 20 * self.ref_steps(op) + 1000000
            fin.steps, fin.limit, t.opid = 0, fin.quantum, op["id"]
            sched.SIM, fin.cur, t.op = fin, t, op
            try:
                oc, raw = outcome_of(op, self.env, C.op_args(op))
            finally:
                sched.SIM, fin.cur, t.op = None, None, None
            d = self.ref(op).diff(oc, op)
            self.compared += 1
            if d:
                self.violate("later-call-wrong-answer", op, d, "after the run")
                break
        fin.uninstall(boot.CODES)
        if self.viol:
            return
        if self.flags.get("contract"):
            from . import contract
            sc_seed = self.sc.get("seed", 0)
            for name in sorted(self.env):
                if name not in self.table:
                    continue
                bad = contract.check(C.deref(self.table[name], self.table), self.env[name], self.probes,
                                     sc_seed, self.flags["contract"] == "deep")
                self.compared += 1
                if bad:
                    self.violate("contract", {"o": "contract", "x": name}, bad, "after the run")
                    return

    def side_effect(self, sim, t, kind):
        if kind == "gc":
            gc.collect()
        elif kind == "cache":
            from sympy.core.cache import clear_cache
            clear_cache()
            import linecache
            linecache.clearcache()
        elif kind == "churn":
            junk = [np.empty(17) for _ in range(50)] + [object() for _ in range(50)] + [{} for _ in range(50)] + [[1.0] * 9 for _ in range(50)]
            del junk
        elif kind == "clock":
            sim.vextra += (-1) ** (t.ev % 2) * 3600.0
        elif kind == "rng":
            random.seed(t.ev)
            np.random.seed(t.ev % 1000)

    def on_cap(self, t):
        self.violate("no-progress", t.op or {"id": t.opid}, "no end within 20 times the work of the calls when made alone", "run")
        self.finish(early=True)

    def on_deadlock(self, t):
        who = [(x.id, x.opid, x.state) for x in self.sim.threads if x.state != "finished"]
        self.violate("deadlock", {"id": t.opid, "o": "?"}, "no caller can run: %s" % (who,), "run")
        self.finish(early=True)

    def finish(self, early=False):
        """Report from inside a simulated thread and stop the process."""
        _send(self.pipe, (True, self.report(early)))
        os._exit(0)

    def report(self, early=False):
        sim = self.sim
        first = getattr(self, "first", None) or (sim.switches, sim.faults)
        return {"viol": self.viol, "steps": sim.steps + getattr(self, "before", 0), "vtime": sim.now() - sched._base_vtime,
                "switches": [list(s) for s in first[0]], "faults": [list(f) for f in first[1]],
                "stalls": [list(x) for x in getattr(sim.policy, "stalls", [])],
                "stats": sim.stats, "compared": self.compared, "scribbled": self.scribbled,
                "probes": self.probes, "opsteps": self.opsteps[-3:], "nops": len(self.opsteps)}


def make_policy(sc, side):
    p = sc.get("policy", {"kind": "explicit"})
    kw = dict(switches=p.get("switches", ()), faults=sc.get("faults", ()), callfaults=sc.get("callfaults", ()), side=side)
    if p["kind"] == "explicit":
        return sched.Explicit(**kw)
    rng = random.Random("policy/%s" % p["seed"])
    if p["kind"] == "walk":
        return sched.RandomWalk(rng, p["mean"], p.get("op_switch", 0.5), p.get("stall", 0.0), **kw)
    if p["kind"] == "pct":
        return sched.Pct(rng, len(sc["threads"]), p["depth"], p["expected"], **kw)
    raise ValueError(p["kind"])


def explicit(sc, rep):
    """The same run with its schedule and faults written out."""
    sc = copy.deepcopy(sc)
    stalls = {tuple(x) for x in rep.get("stalls", [])}
    sw = []
    for opid, ev, frm, to, where in rep["switches"]:
        if where in ("blocked", "fair"):
            continue
        sw.append([opid, ev, to, 1 if (opid, ev) in stalls else 0])
    sc["policy"] = {"kind": "explicit", "switches": sw}
    lf, cf = [], []
    calls = {(f[0], f[1], f[2]) for f in map(tuple, sc.get("callfaults", []))}
    for opid, n, kind, where in rep["faults"]:
        (cf if kind == "callfail" else lf).append([opid, n, kind])
    sc["faults"], sc["callfaults"] = lf, cf
    return sc


def needed_refs(sc):
    table = dict(sc["setup"])
    for th in sc["threads"]:
        for op in th:
            if op["o"] in ("build", "copy") and op.get("as"):
                table[op["as"]] = op["spec"]
    pairs = []
    ops = [op for th in sc["threads"] for op in th] + sc.get("final", [])
    ops += [op["cb"]["op"] for op in ops if op.get("cb") and op["cb"].get("op")]
    for op in ops:
        k = op["o"]
        if k in NOREF:
            continue
        if k == "build":
            pairs.append((None, {"o": "build", "spec": C.deref(op["spec"], table)}))
        elif k == "fun":
            pairs.append((None, op))
        else:
            pairs.append((C.deref(table[op["x"]], table), op))
    return table, pairs


def build_setup(setup):
    env = {}
    for name, spec in setup:
        env[name] = C.build(spec, env)
    return env


EMPTY = {"viol": [], "steps": 0, "vtime": 0.0, "switches": [], "faults": [], "stalls": [], "stats": {}, "compared": 0,
         "scribbled": 0, "probes": {}, "opsteps": [], "nops": 0}


def _one_run(sc, refs, table, env, cpu):
    """One simulated run in a forked process; env: objects already built in this process, or None."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
            try:
                e = dict(env) if env is not None else build_setup(sc["setup"])
                data = (True, Run(sc, e, table, refs).execute(w))
            except BaseException:
                data = (False, traceback.format_exc())
            _send(w, data)
        finally:
            os._exit(0)
    os.close(w)
    try:
        data = _recv(r, 900)
    finally:
        os.close(r)
    if data is None:
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
    _, status = os.waitpid(pid, 0)
    if data is None:
        sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else 0
        if sig == signal.SIGXCPU:
            # CPU time, not wall time: independent of the load of the machine
            return dict(EMPTY, viol=[{"kind": "no-progress", "op": None, "detail": "more than %d s of CPU time" % cpu, "phase": "run"}])
        if sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL):
            return dict(EMPTY, viol=[{"kind": "crash", "op": None, "detail": "the process died of signal %d" % sig, "phase": "run"}])
        raise ChildError("run died: status %d" % status)
    ok, val = data
    if not ok:
        raise ChildError("harness failure in run:\n" + val)
    return val


def run_scenario(sc, refs, cpu=120):
    """Execute one scenario: pristine process, set-up, run."""
    table, pairs = needed_refs(sc)
    refs.want(pairs)
    return _one_run(sc, refs, table, None, cpu)


def run_batch(scs, refs, cpu=120):
    """Execute scenarios with the same set-up: built once, then one forked process per run."""
    tables, allpairs = [], []
    for sc in scs:
        table, pairs = needed_refs(sc)
        allpairs += pairs
        tables.append(table)
    refs.want(allpairs)

    def child():
        env = build_setup(scs[0]["setup"])
        out = []
        for sc, table in zip(scs, tables):
            out.append(_one_run(sc, refs, table, env, cpu))
        return out
    return fork_call(child, cpu=900, wall=3600)


def profile(sc, env=None):
    """Where the operations of a scenario can be preempted or made to fail: for each op the
    event numbers of each distinct FIAT line, and the call numbers of each distinct call site.
    Operations run one after the other, undisturbed, in a forked process."""
    def child():
        gc.disable()
        e = dict(env) if env is not None else build_setup(sc["setup"])
        shared = hot.Shared(list(e.values()))
        out = {}
        for th in sc["threads"]:
            for op in th:
                if op["o"] in NOREF:
                    continue

                def one():
                    sim = sched.Sim(NullPolicy(), step_cap=1 << 50, record_sites=True, calls=True, hot=hot.Finder(shared))
                    t = sched.SimThread(0, [])
                    sim.threads = [t]
                    args = C.op_args(op)
                    sim.install(boot.CODES)
                    sim.cur = t
                    t.op = op
                    try:
                        raw_op(op, e, args)
                    except Exception:
                        pass
                    t.op = None
                    sim.cur = None
                    sim.uninstall(boot.CODES)
                    sites = {}
                    for (c, l), v in sim.sites.items():
                        sites[boot.site(c, l)] = v
                    calls = {}
                    for (c, o), v in sim.callsites.items():
                        calls["%s+%d" % (boot.site(c, c.co_firstlineno), o)] = v
                    return {"n": t.ev, "sites": sites, "ncalls": t.calls, "calls": calls, "hot": sim.hot.result()}
                if op["o"] == "build":
                    o2 = fork_call(one)
                    if op.get("as"):
                        try:
                            e[op["as"]] = C.build(op["spec"], e)
                            shared.add([e[op["as"]]])
                        except Exception:
                            pass
                    out[op["id"]] = o2
                else:
                    if op["o"] != "fun" and op["x"] not in e:
                        continue
                    out[op["id"]] = fork_call(one)
        return out
    return fork_call(child)
