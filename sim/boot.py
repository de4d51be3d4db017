"""Boot of the simulated process.

Imports the third-party stack, installs the seams (locks, clocks, entropy),
then imports every FIAT module from the working tree of the repository, always
from source (no stale byte code), and indexes FIAT's code objects: these are
the places where the simulator may preempt a caller or inject a fault.
"""
import ast
import gc
import importlib
import os
import pkgutil
import sys
import types
import warnings
import weakref

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

FIAT = None
FIAT_DIR = None
CODES = []          # FIAT code objects
UNSAFE = {}         # filename -> set of line numbers where no fault is injected
UNSAFE_NAMES = {"__enter__", "__exit__", "__aenter__", "__aexit__", "__del__"}
REGISTRY = {}       # public name -> object, over all FIAT modules


def _unsafe_lines(path):
    """Lines that belong to clean-up code or to the hand-over into it.

    An asynchronous failure there cannot be survived by any Python program
    (`finally:` bodies, handlers, the `try:` line itself, `with` headers, which
    are also the lines on which __exit__ runs), so faults are not placed there.
    """
    with open(path, "rb") as f:
        tree = ast.parse(f.read())
    bad = set()

    def span(nodes):
        for n in nodes:
            bad.update(range(n.lineno, (n.end_lineno or n.lineno) + 1))

    for node in ast.walk(tree):
        if isinstance(node, ast.Try) or node.__class__.__name__ == "TryStar":
            bad.add(node.lineno)
            if node.finalbody:
                span(node.finalbody)
            for h in node.handlers:
                bad.update(range(h.lineno, (h.end_lineno or h.lineno) + 1))
        elif isinstance(node, (ast.With, ast.AsyncWith)):
            bad.update(range(node.lineno, node.body[0].lineno))
            bad.add(node.lineno)
    return bad


def _walk_code(code, seen):
    if code in seen:
        return
    seen.add(code)
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            _walk_code(c, seen)


WARM = """
I, T, S = F.ufc_simplex(1), F.ufc_simplex(2), F.ufc_simplex(3)
for d in (1, 2, 3):
    F.Lagrange(T, d)
F.Lagrange(S, 1), F.Lagrange(S, 2), F.Lagrange(I, 4)
F.RaviartThomas(T, 2, variant="point"), F.BrezziDouglasMarini(T, 2, variant="integral")
F.RaviartThomas(S, 1, variant="integral"), F.Bubble(T, 3)
F.DPC(R.UFCQuadrilateral(), 3), F.DPC(R.UFCHexahedron(), 2), F.Serendipity(R.UFCQuadrilateral(), 2)
for k, vs in ((1, (((0.25,), (1.5,)), ((-1.0,), (1.0,)))),
              (2, (((0.0, 0.0), (2.0, 0.25), (0.5, 1.5)), ((0.125, -0.5), (1.0, 0.0), (0.0, 1.25)), ((-1.0, -1.0), (1.0, -1.0), (-1.0, 1.0)))),
              (3, (((0.0, 0.0, 0.0), (1.5, 0.0, 0.25), (0.0, 0.75, 0.0), (0.25, 0.0, 1.25)),
                   ((-1.0, -1.0, -1.0), (1.0, -1.0, -1.0), (-1.0, 1.0, -1.0), (-1.0, -1.0, 1.0))))):
    for v in vs:
        c = F.ufc_simplex(k)
        c.vertices = v
        for d in ((1, 2, 3) if k < 3 else (1,)):
            F.Lagrange(c, d)
"""


def warm_up():
    """Fill the caches of the symbolic library, using a copy of the library that is thrown
    away afterwards: saves time, leaves no state of the code under test behind."""
    import contextlib
    import io
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        warnings.simplefilter("ignore")
        try:
            F = importlib.import_module("FIAT")
            exec(WARM, {"F": F, "R": importlib.import_module("FIAT.reference_element")})
        except Exception:
            pass
    for m in [m for m in sys.modules if m == "FIAT" or m.startswith("FIAT.")]:
        del sys.modules[m]
    F = None
    gc.collect()


# Addresses: what `id` returns inside FIAT. Unique among the objects alive, as the language promises, and re-used as soon
# as it may be: the next object of the same class gets the number of the last one that died, in every run alike.
_ADDR = {}          # real address -> (weak reference, number)
_FREE = {}          # class -> numbers of dead objects
_NEXT = [0]
_SALT = [1, 0]


def simulated_id(o):
    real = _realid(o)
    rec = _ADDR.get(real)
    if rec is not None and rec[0]() is o:
        return rec[1]
    cls = type(o)
    box = [_GEN[0], 0]

    def gone(ref):
        if _ADDR.get(real, (None,))[0] is ref:
            del _ADDR[real]
        if box[0] == _GEN[0]:
            _FREE.setdefault(cls, []).append(box[1])
    try:
        ref = weakref.ref(o, gone)
    except TypeError:
        return real
    free = _FREE.get(cls)
    if free:
        box[1] = free.pop()
    else:
        _NEXT[0] += 1
        # real addresses are multiples of 16: no clash; in an order that differs between simulated ranks
        box[1] = 8 + 16 * ((_NEXT[0] * _SALT[0] + _SALT[1]) % (1 << 40))
    _ADDR[real] = (ref, box[1])
    return box[1]


_realid = id
_GEN = [0]


def simulated_hash(o):
    """What hash() is for objects that are compared by identity: derived from the address."""
    n = simulated_id(o)
    return ((n >> 4) * 0x9E3779B1 + 12345) & 0xFFFFFFFF if _SALT[1] else n >> 4


def address_order(seed):
    """Addresses of this process come in an order of its own."""
    if seed:
        _SALT[0] = 2 * (seed * 0x9E3779B1 % (1 << 38)) + 1
        _SALT[1] = seed % (1 << 40)


def new_addresses():
    """A run re-uses only the numbers of objects that died in it."""
    _GEN[0] += 1
    _FREE.clear()


def load(install_seams=True, warm=False):
    global FIAT, FIAT_DIR, CODES
    import numpy  # noqa
    import numpy.polynomial.legendre  # noqa
    import numpy.linalg  # noqa
    import sympy  # noqa
    import sympy.utilities.lambdify  # noqa
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        import pkg_resources  # noqa
    if install_seams:
        from . import sched
        sched.install_seams()
    # FIAT always comes from the source files of the tree under test.
    sys.dont_write_bytecode = True
    sys.pycache_prefix = "/nonexistent-verif-pycache"
    if REPO not in sys.path[:1]:
        sys.path.insert(0, REPO)
    if warm:
        warm_up()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        FIAT = importlib.import_module("FIAT")
        FIAT_DIR = os.path.dirname(os.path.abspath(FIAT.__file__)) + os.sep
        if not FIAT_DIR.startswith(os.path.abspath(REPO) + os.sep):
            raise RuntimeError("FIAT imported from %s, not from %s" % (FIAT_DIR, REPO))
        mods = []
        for m in sorted(x.name for x in pkgutil.walk_packages(FIAT.__path__, "FIAT.")):
            mods.append(importlib.import_module(m))
    for m in mods + [FIAT]:
        for k, v in sorted(vars(m).items()):
            if k.startswith("__"):
                continue
            if isinstance(v, type) or callable(v):
                mod = getattr(v, "__module__", "") or ""
                if mod.startswith("FIAT") and (k not in REGISTRY or m is FIAT):
                    REGISTRY[k] = v
    if install_seams:
        for m in mods + [FIAT]:
            vars(m).setdefault("id", simulated_id)
            for v in list(vars(m).values()):
                if isinstance(v, type) and v.__module__.startswith("FIAT") and v.__hash__ is object.__hash__ \
                        and v.__dictoffset__ != 0 and not issubclass(v, BaseException):
                    v.__hash__ = simulated_hash
    # FIAT code objects
    seen = set()
    for o in gc.get_objects():
        c = getattr(o, "__code__", None) if isinstance(o, types.FunctionType) else None
        if c is not None and c.co_filename.startswith(FIAT_DIR):
            _walk_code(c, seen)
        elif isinstance(o, (staticmethod, classmethod)):
            c = getattr(o.__func__, "__code__", None)
            if c is not None and c.co_filename.startswith(FIAT_DIR):
                _walk_code(c, seen)
    CODES = sorted(seen, key=lambda c: (c.co_filename, c.co_firstlineno, c.co_qualname, len(c.co_code)))
    for fn in {c.co_filename for c in CODES}:
        UNSAFE[fn] = _unsafe_lines(fn)
    from . import hot
    hot.load(sorted(UNSAFE))
    if install_seams:
        sched.events_on(CODES, sched.BASE_EVENTS)
    return FIAT


def site(code, line):
    return "%s:%d" % (code.co_filename[len(FIAT_DIR):], line)


def frame_unsafe(frame):
    """True if a failure raised now would unwind out of clean-up code."""
    while frame is not None:
        code = frame.f_code
        fn = code.co_filename
        if fn in UNSAFE:
            if code.co_name in UNSAFE_NAMES or frame.f_lineno in UNSAFE[fn]:
                return True
        frame = frame.f_back
    return False
