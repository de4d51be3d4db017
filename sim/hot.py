"""Where does a call change objects that others can see?

Schedules and faults are most telling around the moments at which a call modifies state that
existed before it started: between two such stores, just after one, or between a look-up and the
store that follows it.  The profiling run (undisturbed, in a process of its own) finds these
moments: statements that may store into an object are known from the syntax; when one is reached,
the object is looked up in the running frame and compared with the set of objects reachable from
the set-up and from FIAT's modules.  The result only steers the search; it decides nothing.
"""
import ast
import sys
import types

import numpy as np

from . import boot

MUTATORS = {"append", "extend", "insert", "remove", "pop", "popitem", "clear", "update", "setdefault", "add", "discard", "sort",
            "reverse", "fill", "resize", "put", "itemset", "setflags", "setfield", "move_to_end", "appendleft", "popleft", "extendleft",
            "rotate", "subtract", "intersection_update", "difference_update", "symmetric_difference_update", "__setitem__",
            "__setattr__", "__delitem__", "__iadd__", "write", "cache_clear", "set", "send"}
FIRSTARG = {"setattr", "delattr", "copyto", "fill_diagonal", "put", "place", "putmask", "put_along_axis", "shuffle", "heappush", "heappop",
            "next", "insort", "insort_left", "insort_right", "heapify"}
ALWAYS = {"seterr", "seterrcall", "setbufsize", "set_printoptions", "set_string_function", "simplefilter", "filterwarnings", "resetwarnings",
          "chdir", "setlocale", "seed", "setrecursionlimit", "setswitchinterval", "set_threshold", "signal", "umask", "putenv", "setstate",
          "set_state", "setcontext", "settrace", "setprofile", "acquire", "release", "disable", "enable", "freeze", "excepthook",
          "basicConfig", "setLevel", "addHandler", "stack_size", "set_int_max_str_digits"}

LINES = {}       # filename -> {line: [base expressions] or True}


def _bases(target, out):
    if isinstance(target, (ast.Attribute, ast.Subscript)):
        out.append(target.value)
    elif isinstance(target, (ast.Tuple, ast.List)):
        for t in target.elts:
            _bases(t, out)
    elif isinstance(target, ast.Starred):
        _bases(target.value, out)


def _of_calls(node, out):
    always = False
    for n in ast.walk(node):
        if isinstance(n, (ast.Lambda, ast.FunctionDef, ast.ClassDef)):
            continue
        if isinstance(n, ast.NamedExpr):
            continue
        if not isinstance(n, ast.Call):
            continue
        f = n.func
        name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""
        if name in ALWAYS:
            always = True
        if isinstance(f, ast.Attribute) and name in MUTATORS:
            out.append(f.value)
        if name in FIRSTARG and n.args:
            out.append(n.args[0])
        for k in n.keywords:
            if k.arg == "out":
                out.append(k.value)
    return always


def index(path):
    """Statements of a source file that may change an object: line -> expressions denoting it."""
    with open(path, "rb") as f:
        tree = ast.parse(f.read())
    lines = {}

    def note(first, last, bases, always):
        for ln in range(first, last + 1):
            if always:
                lines[ln] = True
            elif lines.get(ln) is not True:
                lines.setdefault(ln, []).extend(bases)

    def visit(node, shared):
        """shared: names declared global or nonlocal in the function."""
        for st in getattr(node, "body", []) + getattr(node, "orelse", []) + getattr(node, "finalbody", []) + \
                [s for h in getattr(node, "handlers", []) for s in h.body] + \
                [s for c in getattr(node, "cases", []) for s in c.body]:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                names = {n for x in ast.walk(st) if isinstance(x, (ast.Global, ast.Nonlocal)) for n in x.names}
                visit(st, names)
                continue
            if isinstance(st, ast.ClassDef):
                visit(st, shared)
                continue
            out, always = [], False
            if isinstance(st, (ast.If, ast.While)):
                always = _of_calls(st.test, out)
                last = st.test.end_lineno
            elif isinstance(st, ast.For):
                always = _of_calls(st.iter, out)
                _bases(st.target, out)
                last = st.iter.end_lineno
            elif isinstance(st, (ast.With, ast.AsyncWith)):
                # what happens inside is between an entry and an exit
                note(st.lineno, st.end_lineno, [], True)
                visit(st, shared)
                continue
            elif isinstance(st, (ast.Try, ast.Match)):
                visit(st, shared)
                continue
            else:
                last = st.end_lineno
                always = _of_calls(st, out)
                targets = getattr(st, "targets", None) or ([st.target] if hasattr(st, "target") else [])
                for t in targets:
                    _bases(t, out)
                    if isinstance(t, ast.Name):
                        if t.id in shared:
                            always = True
                        elif isinstance(st, ast.AugAssign):
                            out.append(t)
            if out or always:
                note(st.lineno, last, out, always)
            visit(st, shared)
    visit(tree, set())
    return lines


class Unknown(Exception):
    pass


def value(e, fr):
    """The object an expression denotes in a frame, without running any code of the program."""
    if isinstance(e, ast.Name):
        loc = fr.f_locals
        if e.id in loc:
            return loc[e.id]
        if e.id in fr.f_globals:
            return fr.f_globals[e.id]
        raise Unknown
    if isinstance(e, ast.Attribute):
        o = value(e.value, fr)
        for d in (getattr(o, "__dict__", None) or {},) + tuple(vars(c) for c in type(o).__mro__):
            if e.attr in d:
                v = d[e.attr]
                if isinstance(v, (property, types.FunctionType, staticmethod, classmethod)):
                    return o
                if isinstance(v, (types.MemberDescriptorType, types.GetSetDescriptorType)):
                    return getattr(o, e.attr, o)
                return v
        return o
    if isinstance(e, ast.Subscript):
        o = value(e.value, fr)
        try:
            if isinstance(e.slice, ast.Constant):
                i = e.slice.value
            else:
                i = value(e.slice, fr)
            if type(o) in (dict, list, tuple):
                return o[i]
        except Exception:
            pass
        return o
    if isinstance(e, ast.Call):
        f = e.func
        return value(f.value if isinstance(f, ast.Attribute) else f, fr)
    if isinstance(e, ast.Starred):
        return value(e.value, fr)
    raise Unknown


class Shared:
    """Objects that exist before the call and can be seen by others."""

    LEAF = (int, float, complex, str, bytes, bool, type(None), types.ModuleType, types.BuiltinFunctionType, types.CodeType)

    def __init__(self, roots):
        self.ids = set()
        self.keep = []
        self.add(roots)
        for m in list(sys.modules):
            if m == "FIAT" or m.startswith("FIAT."):
                d = vars(sys.modules[m])
                self.ids.add(id(d))
                self.add([v for k, v in d.items() if not k.startswith("__")])
        import os
        import warnings
        for o in (os.environ, warnings.filters, sys.path):
            self.ids.add(id(o))

    def add(self, roots, again=()):
        stack = list(roots)
        for o in again:
            stack.extend(self.children(o))
        ids = self.ids
        while stack:
            o = stack.pop()
            if isinstance(o, self.LEAF) or id(o) in ids:
                continue
            ids.add(id(o))
            self.keep.append(o)
            if len(ids) > 200000:
                return
            stack.extend(self.children(o))

    def children(self, o):
        t = type(o)
        if t is dict:
            return list(o.values()) + [k for k in o if type(k) is not str]
        if t in (list, tuple, set, frozenset):
            return list(o)
        if isinstance(o, np.ndarray):
            return list(o.ravel()) if o.dtype == object and o.size < 2000 else [o.base] if o.base is not None else []
        if isinstance(o, types.FunctionType):
            if not (o.__module__ or "").startswith("FIAT"):
                return []
            out = [o.__dict__, o.__defaults__, o.__kwdefaults__]
            for c in o.__closure__ or ():
                try:
                    out.append(c.cell_contents)
                except ValueError:
                    pass
            return out
        if isinstance(o, types.MethodType):
            return [o.__self__, o.__func__]
        if isinstance(o, type):
            if not (o.__module__ or "").startswith("FIAT"):
                return []
            return [v for k, v in vars(o).items() if not k.startswith("__")]
        if isinstance(o, (property,)):
            return [o.fget]
        if isinstance(o, (staticmethod, classmethod)):
            return [o.__func__]
        mod = getattr(t, "__module__", "") or ""
        if mod.startswith("sympy"):
            return []
        out = []
        try:
            if isinstance(o, dict):
                out += list(o.values())
            elif isinstance(o, (list, set, tuple)):
                out += list(o)
        except Exception:
            pass
        d = getattr(o, "__dict__", None)
        if type(d) is dict:
            out.append(d)
        for c in t.__mro__:
            s = c.__dict__.get("__slots__")
            for n in ((s,) if isinstance(s, str) else s or ()):
                try:
                    out.append(getattr(o, n))
                except Exception:
                    pass
        w = getattr(o, "__wrapped__", None)
        if w is not None and isinstance(w, types.FunctionType):
            out.append(w)
        return out

    def has(self, o):
        for _ in range(4):
            if id(o) in self.ids:
                return True
            if isinstance(o, np.ndarray) and o.base is not None:
                o = o.base
            else:
                return False
        return False


class Finder:
    """Attached to a profiling run: collects the hot moments of one call."""

    MAXEVAL = 400
    OCC = 6

    def __init__(self, shared):
        self.shared = shared
        self.sites = {}            # site -> [(event, call number)]
        self.tried = {}
        self.pending = None

    def line(self, t, code, line):
        if self.pending:
            again, self.pending = self.pending, None
            self.shared.add((), again)
        d = LINES.get(code.co_filename)
        if d is None:
            return
        b = d.get(line)
        if b is None:
            return
        k = (code, line)
        n = self.tried.get(k, 0) + 1
        self.tried[k] = n
        if n > self.MAXEVAL:
            return
        hot = b is True
        if not hot:
            fr = sys._getframe(2)
            if fr.f_code is not code:
                return
            for e in b:
                try:
                    o = value(e, fr)
                except Exception:
                    continue
                if not isinstance(o, Shared.LEAF) and self.shared.has(o):
                    hot = True
                    self.pending = (self.pending or []) + [o]
        if hot:
            lst = self.sites.setdefault(k, [])
            if len(lst) < self.OCC:
                lst.append((t.ev, t.calls))
            else:
                lst[self.OCC - 2 + (n & 1)] = (t.ev, t.calls)

    def result(self):
        return {boot.site(c, l): v for (c, l), v in self.sites.items()}


def load(files):
    for fn in files:
        LINES[fn] = index(fn)
