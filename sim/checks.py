"""What each property's check simulates: workloads, schedules and faults, all drawn from
one pseudo-random generator per unit."""
import copy
import json
import random

from . import boot
from . import catalog as C
from . import world as W

PROPS = ["C%02d" % i for i in range(1, 16)]
FAIL = ("interrupt", "interrupt", "interrupt", "memory", "memory", "callfail", "callfail", "callfail", "timeout", "recursion")
SIDE = ("gc", "cache", "churn", "rng", "clock")

ELS = ["el:" + n for n in C.CAT]
SLOW = {"el:" + n for n, e in C.CAT.items() if "slow" in e["tags"]}
VSLOW = {"el:RT4T", "el:N14T", "el:KMV4T", "el:KMV2S", "el:B4S", "el:Bell", "el:Arg5", "el:Argyris5", "el:Herm3S", "el:FB3S", "el:KMV3T"}
SLOW |= VSLOW
COMPOSITES = ["el:" + n for n, e in C.CAT.items() if "comp" in e["tags"]]


def names_for(prop):
    pool = sorted(C.BASEPOOL)
    if prop in ("C01", "C03", "C05", "C07", "C08", "C10", "C11", "C12", "C09"):
        return pool
    if prop in ("C02", "C04"):
        return [n for n in pool if not n.startswith("cell:")]
    if prop == "C06":
        return COMPOSITES
    if prop == "C13":
        return [n for n in pool if n.startswith(("el:", "rule:", "exp:", "ps:"))]
    if prop == "C14":
        return [n for n in pool if n.startswith(("el:", "rule:"))]
    if prop == "C15":
        return [n for n in pool if n not in VSLOW]
    raise KeyError(prop)


# --------------------------------------------------------------------------
# recipes
# --------------------------------------------------------------------------

CELLKEYS = {}
for _n, (_s, _k) in C.CELLS.items():
    CELLKEYS[C.key(_s)] = _k


def share(specs, rng, p_cell=0.5, p_comp=0.5, prefix="s"):
    """specs: [(name, spec)] -> set-up entries in which equal sub-objects are shared."""
    decided = {}
    out = []

    def walk(spec, top):
        if isinstance(spec, list):
            return [walk(x, False) for x in spec]
        if not isinstance(spec, dict):
            return spec
        if "np" in spec or "r" in spec:
            return spec
        new = {k: (walk(v, False) if k not in ("c", "m", "verts", "sub") else v) for k, v in spec.items()}
        if "c" not in spec or top:
            return new
        k = C.key(spec)
        if k not in decided:
            p = p_cell if k in CELLKEYS else p_comp
            if rng.random() < p:
                decided[k] = "%s%d" % (prefix, len(decided))
                out.append([decided[k], new])
            else:
                decided[k] = None
        return {"r": decided[k]} if decided[k] else new
    res = []
    for name, spec in specs:
        new = walk(spec, True)
        out.append([name, new])
        res.append(new)
    return out


def int_leaves(spec, path=()):
    out = []
    if isinstance(spec, dict):
        for k, v in sorted(spec.items()):
            if k not in ("verts", "np", "c", "m"):
                out += int_leaves(v, path + (k,))
    elif isinstance(spec, list):
        for i, v in enumerate(spec):
            out += int_leaves(v, path + (i,))
    elif isinstance(spec, int) and not isinstance(spec, bool):
        out.append(path)
    return out


def put(spec, path, v):
    spec = copy.deepcopy(spec)
    o = spec
    for p in path[:-1]:
        o = o[p]
    o[path[-1]] = v
    return spec


def at(spec, path):
    for p in path:
        spec = spec[p]
    return spec


def cells_in(spec, out=None):
    out = {} if out is None else out
    if isinstance(spec, dict):
        k = C.key(spec)
        if k in CELLKEYS and CELLKEYS[k] in C.GEO:
            out[k] = spec
        for v in spec.values():
            cells_in(v, out)
    elif isinstance(spec, list):
        for v in spec:
            cells_in(v, out)
    return out


def replace_all(spec, k, new):
    if isinstance(spec, dict):
        if C.key(spec) == k:
            return new
        return {a: replace_all(v, k, new) for a, v in spec.items()}
    if isinstance(spec, list):
        return [replace_all(v, k, new) for v in spec]
    return spec


def mutate_spec(rng, spec):
    """A near relative: one argument changed."""
    text = C.key(spec)
    heavy = "Tetrahedron" in text or "Hexahedron" in text or "Argyris" in text or "Bell" in text
    for _ in range(6):
        k = rng.random()
        if k < 0.45:
            lv = [p for p in int_leaves(spec) if not (p and p[-1] == "sub")]
            if not lv:
                continue
            p = rng.choice(lv)
            v = at(spec, p)
            d = rng.choice((-1, 1, 1))
            if d > 0 and (v >= 3 or heavy) and v >= 1:
                d = -1
            if v + d < 0:
                continue
            return put(spec, p, v + d)
        if k < 0.8:
            cs = cells_in(spec)
            if not cs:
                continue
            ck = rng.choice(sorted(cs))
            kind = CELLKEYS[ck]
            alts = [c for c in C.GEO[kind] + [C.BASE[kind]] if C.key(c) != ck]
            return replace_all(spec, ck, rng.choice(alts))
        if "variant" in text:
            for a, b in (('"point"', '"integral"'), ('"integral"', '"point"'), ('"integral(4)"', '"integral(5)"'), ('"integral(5)"', '"integral"')):
                if a in text:
                    return json.loads(text.replace(a, b))
        for a, b in (('"facet"', '"interior"'), ('"interior"', '"facet"'), ('"vertex"', '"facet"'), ('"edge"', '"facet"')):
            if a in text:
                return json.loads(text.replace(a, b))
    return spec


def other_cell(rng, spec):
    """The same on another cell of the same shape."""
    cs = cells_in(spec)
    if not cs:
        return mutate_spec(rng, spec)
    ck = rng.choice(sorted(cs))
    return replace_all(spec, ck, rng.choice([c for c in C.GEO[CELLKEYS[ck]] + [C.BASE[CELLKEYS[ck]]] if C.key(c) != ck]))


_BYCLASS = {}


def peers(name):
    """Pool names of the same class, same family of objects."""
    if not _BYCLASS:
        for n in sorted(C.BASEPOOL):
            _BYCLASS.setdefault((n.split(":")[0], C.POOL[n][0].get("c")), []).append(n)
    spec = C.lookup(name)[0]
    return [n for n in _BYCLASS.get(("el" if name.startswith("wild") else name.split(":")[0], spec.get("c")), []) if n != name and n not in SLOW]


def pick_peers(rng, name, n):
    ps = peers(name)
    out = []
    for _ in range(n):
        if ps and rng.random() < 0.6:
            q = rng.choice(ps)
        else:
            while True:
                q = rng.choice(sorted(C.BASEPOOL))
                if q not in SLOW:
                    break
        if q not in out and q != name:
            out.append(q)
    return out


# --------------------------------------------------------------------------
# operations
# --------------------------------------------------------------------------

class Ids:
    def __init__(self):
        self.n = 0

    def __call__(self, op, tag="o"):
        op = copy.deepcopy(op)
        op["id"] = "%s%d" % (tag, self.n)
        self.n += 1
        return op


def mutate_op(rng, op, regen):
    """The same question with one thing changed (often: same shapes, other values)."""
    op = {k: v for k, v in op.items() if k not in ("id", "cb", "scribble", "buf")}
    r = rng.random()
    if op["o"] == "build":
        return dict(op, spec=mutate_spec(rng, op["spec"]))
    if "pts" in op and r < 0.45:
        p = dict(op["pts"])
        if p["seed"] in (0, 1) and rng.random() < 0.3:
            p["seed"] += 5
        elif p["seed"] in (0, 7, 8, 9) and rng.random() < 0.4:
            p["seed"] = rng.choice([k for k in (0, 7, 8, 9) if k != p["seed"]])
        else:
            p["seed"] = (p["seed"] + rng.randint(1, 3)) % 10
        return dict(op, pts=p)
    if "pts" in op and r < 0.55:
        p = dict(op["pts"])
        p["n"] = max(1, p["n"] + rng.choice((-1, 1)))
        return dict(op, pts=p)
    if isinstance(op.get("order"), int) and r < 0.75:
        return dict(op, order=rng.choice([o for o in (0, 1, 2) if o != op["order"]]))
    if "entity" in op and r < 0.9:
        e = [op["entity"][0], max(0, op["entity"][1] + rng.choice((-1, 1)))]
        return dict(op, entity=e)
    if "coefs" in op and r < 0.8:
        return dict(op, coefs=[round(rng.uniform(-1, 1), 3) for _ in range(3)])
    for f in ("i", "n", "a", "b"):
        if isinstance(op.get(f), int) and rng.random() < 0.5:
            v = op[f] + rng.choice((-1, 1))
            if v >= (1 if f == "n" else 0):
                return dict(op, **{f: v})
    return regen()


def fun(rng):
    return C.fun_op(rng.randrange(len(C.FUNS)), rng.randrange(3))


class Workload:
    """Objects of a unit and the questions asked about them."""

    def __init__(self, rng, focus, npeers=2, p_share=0.6):
        self.rng = rng
        self.ids = Ids()
        self.focus = focus
        heavy = focus in VSLOW
        self.names = [focus] + pick_peers(rng, focus, 0 if heavy else npeers)
        fs = C.lookup(focus)[0]
        self.specs = [("x%d" % i, C.lookup(n)[0]) for i, n in enumerate(self.names)]
        self.gen = {"x%d" % i: C.lookup(n)[1] for i, n in enumerate(self.names)}
        # a close relative of the focus object, asked the same questions
        if rng.random() < 0.7 and not heavy:
            ms = mutate_spec(rng, fs)
            if C.key(ms) != C.key(fs):
                self.specs.append(("m", ms))
                self.gen["m"] = C.lookup(focus)[1]
        if rng.random() < 0.35 and not heavy:
            self.specs.append(("d", fs))               # an identical twin
            self.gen["d"] = C.lookup(focus)[1]
        self.p_share = p_share
        self.pool_ = {}
        self.ops_ = {}
        self.fan = 3

    def setup(self, refs):
        """Set-up entries of the objects that can be built."""
        out = []
        for n, s in self.specs:
            b = {"o": "build", "spec": s}
            refs.want([(None, b)])
            if refs.get(None, b).ok:
                out.append((n, s))
        self.specs = out
        self.gen = {n: self.gen[n] for n, s in out if n in self.gen}
        self.setup_ = share(out, self.rng, self.p_share, self.p_share * 0.7)
        return self.setup_

    def op(self, x=None, p_fun=0.04, fresh=False):
        rng = self.rng
        if x is None:
            if rng.random() < p_fun:
                return fun(rng)
            x = rng.choice(sorted(self.gen))
        known = self.ops_.setdefault(x, [])
        if fresh or len(known) < 10:
            q = self.gen[x](rng, x)
            known.append(q)
        else:
            q = rng.choice(known)
        return copy.deepcopy(q)

    def main(self):
        for n in ("x0", "m", "d", "x1"):
            if n in self.gen:
                return n
        return None

    def related(self, op):
        """A question likely to collide with op; a few per question, asked again and again."""
        k = C.key({a: b for a, b in op.items() if a not in ("id", "cb", "scribble", "keep", "as")})
        known = self.pool_.setdefault(k, [])
        if len(known) < self.fan:
            q = self.draw_related(op)
            known.append(q)
        else:
            q = self.rng.choice(known)
        return copy.deepcopy(q)

    def draw_related(self, op):
        rng = self.rng
        r = rng.random()
        x = op.get("x")
        if op["o"] == "build":
            return {"o": "build", "spec": mutate_spec(rng, op["spec"]) if r < 0.75 else op["spec"]}
        regen = (lambda: self.op(x)) if x in self.gen else (lambda: self.op())
        if r < 0.12:
            return {k: v for k, v in op.items() if k not in ("id", "cb", "scribble")}
        if r < 0.55 or x is None:
            return mutate_op(rng, op, regen)
        if r < 0.85:
            others = [n for n in ("x0", "m", "d") if n in self.gen and n != x] or [n for n in self.gen if n != x]
            if others and x in ("x0", "m", "d"):
                o = {k: v for k, v in op.items() if k not in ("id", "cb", "scribble")}
                o["x"] = rng.choice(others)
                return o if rng.random() < 0.5 else mutate_op(rng, o, regen)
        return self.op()

    def builds(self):
        """Construction requests near the focus object, and of the objects of the set-up."""
        rng = self.rng
        s = C.lookup(rng.choice(self.names[:1] * 3 + self.names))[0]
        if rng.random() < 0.5:
            s = mutate_spec(rng, s)
        return s


def shared_build(rng, spec, setup, p=0.7):
    """Let a construction use objects of the set-up where it needs equal ones."""
    table = {C.key(C.deref(s, dict(setup))): n for n, s in setup}

    def walk(s, top):
        if isinstance(s, list):
            return [walk(x, False) for x in s]
        if not isinstance(s, dict) or "r" in s or "np" in s:
            return s
        k = C.key(s)
        if not top and k in table and rng.random() < p:
            return {"r": table[k]}
        return {a: (walk(v, False) if a not in ("c", "m", "verts", "sub") else v) for a, v in s.items()}
    return walk(spec, True)


# --------------------------------------------------------------------------
# schedules and faults
# --------------------------------------------------------------------------

class Cover:
    """Picks event numbers so that distinct program sites are visited evenly, those at which
    the call changes something that others can see first."""

    P_HOT = 0.6

    def __init__(self, rng):
        self.rng = rng
        self.seen = {}

    def rare(self, items, k=6):
        """The least visited of a few."""
        cand = self.rng.sample(items, min(len(items), k))
        s = min(cand, key=lambda x: self.seen.get(x, 0))
        self.seen[s] = self.seen.get(s, 0) + 1
        return s

    def hot(self, prof, calls):
        rng = self.rng
        hot = prof["hot"]
        j = 1 if calls else 0
        r = rng.random()
        moments = sorted({(e, c) for occ in hot.values() for e, c in occ})
        if r < 0.2 and len(moments) > 1:
            # anywhere between two neighbouring stores
            i = rng.randrange(len(moments) - 1)
            a, b = moments[i][j], moments[i + 1][j]
            if b > a + 1:
                return rng.randint(a + 1, b)
        s = self.rare(sorted(hot))
        m = rng.choice(hot[s])
        if calls:
            return m[1] + rng.choice((1, 1, 2, 2, 3, 4))
        return max(1, m[0] + rng.choice((-1, 0, 0, 1, 1, 1, 1, 2, 2, 3)))

    def pick(self, prof, which="sites"):
        sites = prof[which]
        if not sites:
            return None
        rng = self.rng
        if prof.get("hot") and rng.random() < self.P_HOT:
            return min(self.hot(prof, which == "calls"), prof["ncalls" if which == "calls" else "n"])
        s = self.rare(sorted(sites))
        first, last, n = sites[s]
        r = rng.random()
        if n == 1 or r < 0.45:
            return first
        if r < 0.7:
            return last
        return rng.randint(first, last)


def targeted(rng, wl, refs, setup, A, mk, runs, flags, nested=0.4, final=(), faults=None):
    """Scenarios of the form  a-part | b | a-rest, with the preemption spread over the sites of a."""
    base = {"setup": setup, "threads": [A], "seed": rng.randrange(10 ** 6)}
    profs = W.profile(base)
    cover = Cover(rng)
    bprof = {}
    out = []
    for _ in range(runs):
        A2 = list(A)
        if rng.random() < 0.7:
            rng.shuffle(A2)
        if len(A2) > 3:
            A2 = A2[:rng.randint(max(2, len(A2) // 2), len(A2))]
        B, sw = [], []
        for a in A2:
            b = wl.ids(mk(a), "b")
            B.append(b)
            if a["id"] not in profs:
                continue
            ev = cover.pick(profs[a["id"]]) or 0
            sw.append([a["id"], ev, 1])
            if rng.random() < nested:
                n = profs[a["id"]]["n"]
                sw.append([b["id"], rng.randint(1, max(2, int(n * 1.2))), 0])
                sw.append([a["id"], min(n, ev + rng.randint(1, 40)), 1])
            sw.append([b["id"], 0, 0])
        # b's first call starts when a is preempted, not before
        sw = [s for s in sw if not (s[0] == B[0]["id"] and s[1] == 0)] if B else sw
        th = [A2, B]
        sc = {"setup": setup, "threads": th, "final": list(final), "unit": "line", "seed": rng.randrange(10 ** 6),
              "policy": {"kind": "explicit", "switches": sw}, "flags": dict(flags), "tag": "targeted"}
        out.append(sc)
    return out, profs


def random_policy(rng, nthreads, expected):
    r = rng.random()
    if r < 0.65:
        return {"kind": "walk", "mean": rng.choice((2, 6, 20, 60, 200, 800)), "seed": rng.randrange(10 ** 9),
                "op_switch": rng.choice((0.1, 0.5, 0.9)), "stall": rng.choice((0.0, 0.0, 0.05, 0.3))}
    return {"kind": "pct", "depth": rng.randint(1, 5), "expected": max(50, expected), "seed": rng.randrange(10 ** 9)}


def boundary_policy(rng):
    return {"kind": "walk", "mean": 1e12, "seed": rng.randrange(10 ** 9), "op_switch": rng.choice((0.3, 0.6, 1.0)), "stall": 0.0}


def add_faults(rng, sc, profs, ops, kinds, n, cover, ccover):
    """Place n faults inside the given operations (profiled by id)."""
    lf, cf = [], []
    ops = [o for o in ops if o["id"] in profs]
    for _ in range(n):
        if not ops:
            break
        o = rng.choice(ops)
        k = rng.choice(kinds)
        if k == "callfail":
            ev = ccover.pick(profs[o["id"]], "calls")
            if ev:
                cf.append([o["id"], ev, k])
        else:
            ev = cover.pick(profs[o["id"]])
            if ev:
                lf.append([o["id"], ev, k])
    sc["faults"] = sc.get("faults", []) + lf
    sc["callfaults"] = sc.get("callfaults", []) + cf
    return sc


# --------------------------------------------------------------------------
# units
# --------------------------------------------------------------------------

class Unit:
    def __init__(self, prop, idx, seed, tier, focus, refs):
        self.prop, self.idx, self.seed, self.tier, self.focus = prop, idx, seed, tier, focus
        self.rng = random.Random("unit/%s/%s/%s/%s" % (prop, seed, idx, focus))
        self.refs = refs
        self.slow = focus in SLOW

    def scenarios(self):
        """[[scenario, ...] with one set-up, ...]"""
        out = getattr(self, self.prop)()
        for batch in out:
            for sc in batch:
                sc["prop"] = self.prop
        return [b for b in out if b]

    def n(self, k):
        """Number of runs: fewer for objects that are slow to build or use."""
        k = max(1, round(0.7 * k)) if self.tier == "quick" else 3 * k
        if self.focus in VSLOW:
            return 1 if self.tier == "quick" else 3
        return max(1, k // 4) if self.slow else k

    def many(self, profs, budget, lo, hi):
        """How many calls like the profiled ones fit into a budget of steps."""
        if self.focus in VSLOW or not profs:
            return lo
        avg = sum(p["n"] for p in profs.values()) / len(profs)
        return int(max(lo, min(hi, budget / max(1.0, avg))))

    def sweeps(self, wl, names, tag="z"):
        """Closing questions: whole families of them, to each of the given objects."""
        out = []
        for n in names:
            g = wl.gen.get(n)
            if hasattr(g, "sweep") and self.focus not in VSLOW:
                out.append(wl.ids(g.sweep(self.rng, n), tag))
        return out

    # -- queries on shared objects, interleaved
    def C01(self):
        rng = self.rng
        wl = Workload(rng, self.focus, npeers=1 if self.slow else 2)
        setup = wl.setup(self.refs)
        x = wl.main()
        if x is None:
            return []
        A = []
        for i in range(7):
            op = wl.op(x)
            if i and rng.random() < 0.4:
                op = mutate_op(rng, A[-1], lambda: wl.op(x))
            A.append(wl.ids(op, "a"))
        if rng.random() < 0.3:
            A.append(wl.ids(fun(rng), "a"))
        mk = wl.related
        out, profs = targeted(rng, wl, self.refs, setup, A, mk, self.n(8), {}, nested=0.4)
        exp = sum(p["n"] for p in profs.values())
        for _ in range(self.n(5)):
            nt = rng.choice((2, 2, 3, 4))
            th = []
            for k in range(nt):
                ops = []
                for _ in range(rng.randint(2, 5)):
                    src = rng.choice(A)
                    ops.append(wl.ids(wl.related(src) if rng.random() < 0.8 else wl.op(), "t%d_" % k))
                th.append(ops)
            unit = "instr" if rng.random() < 0.25 else "line"
            pol = random_policy(rng, nt, exp * (7 if unit == "instr" else 1))
            sc = {"setup": setup, "threads": th, "final": [], "unit": unit, "seed": rng.randrange(10 ** 6), "policy": pol,
                  "flags": {}, "tag": pol["kind"]}
            out.append(sc)
        return [out]

    # -- concurrent construction
    def C02(self):
        rng = self.rng
        wl = Workload(rng, self.focus, npeers=1)
        wl.specs = wl.specs if rng.random() < 0.5 else wl.specs[1:]
        wl.gen = {n: wl.gen[n] for n, s in wl.specs}
        setup = wl.setup(self.refs)
        fspec = C.lookup(self.focus)[0]
        A = []
        cand = [fspec, mutate_spec(rng, fspec), wl.builds()]
        for i, s in enumerate(cand[:2] if self.slow else cand):
            A.append(wl.ids({"o": "build", "spec": shared_build(rng, s, setup), "as": "n%d" % i}, "a"))
        final = []
        for i in range(len(A)):
            g = C.lookup(self.focus)[1] if i < 2 else None
            if g:
                final += [wl.ids(g(rng, "n%d" % i), "f") for _ in range(2)]
                if i == 0 and not self.slow:
                    final.append(wl.ids(g.sweep(rng, "n0"), "f"))
        flags = {"rebuild": 1 if self.slow else 2}

        def mk(a):
            r = rng.random()
            if r < 0.7 or not wl.gen:
                return {"o": "build", "spec": shared_build(rng, mutate_spec(rng, a["spec"]) if r < 0.45 else wl.builds(), setup)}
            return wl.op()
        out, profs = targeted(rng, wl, self.refs, setup, A, mk, self.n(5), flags, nested=0.4, final=final)
        exp = sum(p["n"] for p in profs.values())
        for _ in range(self.n(3)):
            nt = rng.choice((2, 3))
            th = []
            for k in range(nt):
                ops = [copy.deepcopy(A[0])] if k == 0 else []
                for _ in range(rng.randint(1, 2)):
                    ops.append(wl.ids(mk(rng.choice(A)), "t%d_" % k))
                th.append(ops)
            pol = random_policy(rng, nt, exp)
            out.append({"setup": setup, "threads": th, "final": [f for f in final if f["x"] == "n0"], "unit": "line", "seed": rng.randrange(10 ** 6),
                        "policy": pol, "flags": dict(flags), "tag": pol["kind"]})
        return [out]

    # -- failing queries
    def C03(self):
        rng = self.rng
        wl = Workload(rng, self.focus, npeers=1)
        setup = wl.setup(self.refs)
        x = wl.main()
        if x is None:
            return []
        A = [wl.ids(wl.op(x), "a") for _ in range(4 if self.slow else 8)]
        if rng.random() < 0.3:
            A.append(wl.ids(fun(rng), "a"))
        profs = W.profile({"setup": setup, "threads": [A]})
        cover, cc = Cover(rng), Cover(rng)
        nf = self.many(profs, 9000, 3, 14)
        out = []
        for _ in range(self.n(12)):
            ops, lf, cf = [], [], []
            todo = []
            while len(todo) < nf:
                todo += rng.sample(A, len(A))
            for a in todo[:rng.randint(max(2, nf // 2), nf)]:
                for rep in range(rng.choice((1, 1, 1, 2))):
                    q = dict(copy.deepcopy(a), id="%s.%d" % (a["id"], len(ops)))
                    k = rng.choice(FAIL)
                    if a["id"] in profs:
                        ev = (cc.pick(profs[a["id"]], "calls") if k == "callfail" else cover.pick(profs[a["id"]]))
                        if ev:
                            (cf if k == "callfail" else lf).append([q["id"], ev, k])
                    ops.append(q)
                if rng.random() < 0.6:
                    ops.append(dict(copy.deepcopy(a), id="%s.%d" % (a["id"], len(ops))))
                if rng.random() < 0.6:
                    ops.append(wl.ids(wl.related(a), "v"))
            th = [ops]
            pol = {"kind": "explicit", "switches": []}
            if rng.random() < 0.3:
                th.append([wl.ids(wl.related(rng.choice(A)), "w") for _ in range(4)])
                pol = random_policy(rng, 2, 500)
            final = self.sweeps(wl, [x] + [n for n in sorted(wl.gen) if n != x and rng.random() < 0.4]) if rng.random() < 0.6 else []
            out.append({"setup": setup, "threads": th, "final": final, "unit": "line", "seed": rng.randrange(10 ** 6), "policy": pol,
                        "faults": lf, "callfaults": cf, "flags": {}, "tag": "fault"})
        return [out]

    # -- failing constructions
    def C04(self):
        rng = self.rng
        wl = Workload(rng, self.focus, npeers=1)
        fspec = C.lookup(self.focus)[0]
        # the components of the focus object are there and shared
        comp = []
        for i, s in enumerate(self.subspecs(fspec)[:4]):
            comp.append(("k%d" % i, s))
        wl.specs = comp + wl.specs[1:]
        wl.gen = {n: wl.gen[n] for n, s in wl.specs if n in wl.gen}
        setup = wl.setup(self.refs)
        names = dict(C.POOL)
        bykey = {C.key(C.POOL[n][0]): n for n in C.BASEPOOL}
        for n, s in comp:
            if C.key(s) in bykey and any(n == a for a, _ in wl.specs):
                wl.gen[n] = C.POOL[bykey[C.key(s)]][1]
            elif C.plain_gen(s) and any(n == a for a, _ in wl.specs):
                wl.gen[n] = C.plain_gen(s)
        A = [wl.ids({"o": "build", "spec": shared_build(rng, fspec, setup)}, "a")]
        if not self.slow:
            A.append(wl.ids({"o": "build", "spec": shared_build(rng, mutate_spec(rng, fspec), setup)}, "a"))
        profs = W.profile({"setup": setup, "threads": [A]})
        cover, cc = Cover(rng), Cover(rng)
        g = C.lookup(self.focus)[1]
        out = []
        nf = self.many(profs, 20000, 1, 8)
        for _ in range(self.n(8)):
            ops, lf, cf = [], [], []
            for j in range(rng.randint(1, nf) if not self.slow else 1):
                a = rng.choice(A)
                q = dict(copy.deepcopy(a), id="%s.%d" % (a["id"], len(ops)))
                q["as"] = "bad%d" % j
                k = rng.choice(FAIL)
                ev = (cc.pick(profs[a["id"]], "calls") if k == "callfail" else cover.pick(profs[a["id"]]))
                if ev:
                    (cf if k == "callfail" else lf).append([q["id"], ev, k])
                ops.append(q)
                if wl.gen:
                    ops += [wl.ids(wl.op(), "v") for _ in range(rng.choice((0, 1, 2)))]
            ops.append(wl.ids(dict(A[0], **{"as": "good"}), "r"))
            ops += [wl.ids(g(rng, "good"), "v") for _ in range(2)]
            if not self.slow:
                ops.append(wl.ids({"o": "build", "spec": shared_build(rng, wl.builds(), setup)}, "v"))
            th = [ops]
            pol = {"kind": "explicit", "switches": []}
            if rng.random() < 0.25 and wl.gen:
                th.append([wl.ids(wl.op(), "w") for _ in range(4)])
                pol = random_policy(rng, 2, 2000)
            final = [wl.ids(wl.gen[n](rng, n), "f") for n in sorted(wl.gen)] + self.sweeps(wl, sorted(wl.gen))
            if not self.slow and rng.random() < 0.5:
                final.append(wl.ids(g.sweep(rng, "good"), "z"))
            out.append({"setup": setup, "threads": th, "final": final, "unit": "line", "seed": rng.randrange(10 ** 6), "policy": pol,
                        "faults": lf, "callfaults": cf, "flags": {"rebuild": 1}, "tag": "fault"})
        return [out]

    def subspecs(self, spec):
        out = []

        def walk(s, top):
            if isinstance(s, list):
                for x in s:
                    walk(x, False)
            elif isinstance(s, dict):
                if not top and "c" in s and C.key(s) not in [C.key(o) for o in out]:
                    out.append(s)
                for k, v in s.items():
                    if k != "verts":
                        walk(v, False)
        walk(spec, True)
        return out

    # -- histories of several sessions, calls not overlapping
    def C05(self):
        rng = self.rng
        out = []
        for _ in range(1 if self.tier == "quick" else 3):
            wl = Workload(rng, self.focus, npeers=3)
            setup = wl.setup(self.refs)
            if not wl.gen:
                continue
            # a moderate set of questions, asked again and again in mixed order
            qs = [wl.op() for _ in range(8)]
            x = wl.main()
            qs += [wl.op(x) for _ in range(4)]
            qs += [wl.related(q) for q in qs]
            qs += [wl.related(q) for q in qs[-8:]]
            qs += [fun(rng) for _ in range(3)]
            fs = C.lookup(self.focus)[0]
            bs = [{"o": "build", "spec": shared_build(rng, s, setup)} for s in ([fs, mutate_spec(rng, fs)] + ([] if self.slow else [mutate_spec(rng, fs), wl.builds()]))]
            batch = []
            cheap = self.focus.startswith(("cell:", "rule:", "exp:"))
            if cheap:
                qs += [wl.op(n, fresh=True) for n in sorted(wl.gen) for _ in range(12)]
            for _ in range(self.n(4)):
                th = []
                nb = 0
                for k in range(rng.choice((1, 2, 3))):
                    ops = []
                    built = []
                    for _ in range(rng.randint(10, 30) * (3 if cheap else 1)):
                        r = rng.random()
                        can = [n for n in ("x0", "m", "d") if n in wl.gen]
                        if rng.random() < 0.04 and can:
                            src = rng.choice(can)
                            nm = "c%d_%d" % (k, nb)
                            nb += 1
                            ops.append(wl.ids({"o": "copy", "x": src, "as": nm, "deep": rng.random() < 0.7, "spec": dict(setup)[src]}, "k"))
                            built.append(nm)
                            continue
                        if r < (0.03 if self.slow else 0.1):
                            nm = "n%d_%d" % (k, nb)
                            nb += 1
                            b = dict(rng.choice(bs))
                            b["as"] = nm
                            ops.append(wl.ids(b, "h"))
                            built.append(nm)
                            continue
                        if built and r < 0.3:
                            q = C.lookup(self.focus)[1](rng, rng.choice(built))
                            if rng.random() < 0.5:
                                qq = rng.choice(qs)
                                if qq.get("x") in ("x0", "m", "d"):
                                    q = dict(qq, x=rng.choice(built))
                        else:
                            q = rng.choice(qs)
                        q = wl.ids(q, "h")
                        if "pts" in q and rng.random() < 0.4:
                            q["buf"] = "b%d" % k
                        ops.append(q)
                    th.append(ops)
                final = [] if self.slow else self.sweeps(wl, sorted(wl.gen))
                rng.shuffle(final)
                batch.append({"setup": setup, "threads": th, "final": final, "unit": "line", "seed": rng.randrange(10 ** 6),
                              "policy": boundary_policy(rng), "flags": {"keep": True, "rebuild": 1}, "tag": "history"})
            out.append(batch)
        return out

    # -- composites over shared components
    def C06(self):
        rng = self.rng
        fspec = C.lookup(self.focus)[0]
        subs = [s for s in self.subspecs(fspec) if C.key(s) not in CELLKEYS][:4]
        subs_c = [s for s in self.subspecs(fspec) if C.key(s) in CELLKEYS][:2]
        bykey = {C.key(C.POOL[n][0]): n for n in C.BASEPOOL}
        specs = [("k%d" % i, s) for i, s in enumerate(subs)] + [("q%d" % i, s) for i, s in enumerate(subs_c)]
        specs = [(n, s) for n, s in specs if s.get("c")]
        wl = Workload(rng, self.focus, npeers=0)
        wl.specs = specs
        wl.gen = {}
        for n, s in specs:
            if C.key(s) in bykey:
                wl.gen[n] = C.POOL[bykey[C.key(s)]][1]
            elif C.plain_gen(s):
                wl.gen[n] = C.plain_gen(s)
        gen0 = dict(wl.gen)
        wl.gen = {n: gen0.get(n) for n, s in specs}
        setup0 = wl.setup(self.refs)
        wl.gen = {n: g for n, g in gen0.items() if any(n == a for a, _ in wl.specs)}
        # sub-objects shared completely
        setup = share(wl.specs, rng, 1.0, 1.0)
        setup = self.dedupe(setup)
        others = [n for n in COMPOSITES if n != self.focus and any(C.key(s) in C.key(C.POOL[n][0]) for s in subs) and n not in SLOW]
        forms = [fspec]
        if others:
            forms.append(C.POOL[rng.choice(others)][0])
        if subs and rng.random() < 0.7:
            # wrap a component in one more way
            b = rng.choice(subs)
            forms.append(rng.choice((C.cname("DiscontinuousElement", b), C.cname("RestrictedElement", b, restriction_domain="interior"),
                                     C.cname("RestrictedElement", b, restriction_domain="facet"),
                                     C.cname("MixedElement", {"l": [b, b]}), C.cname("EnrichedElement", b, b),
                                     C.cname("TensorProductElement", b, b), C.cname("TensorProductElement", b, C.el("Lagrange", C.I, 1)))))
        full = dict(setup)
        byk = {C.key(C.deref(s, full)): n for n, s in setup}

        def use(spec, top=True):
            if isinstance(spec, list):
                return [use(v, False) for v in spec]
            if not isinstance(spec, dict) or "r" in spec:
                return spec
            if not top and C.key(spec) in byk:
                return {"r": byk[C.key(spec)]}
            return {a: (use(v, False) if a not in ("c", "m", "verts", "sub") else v) for a, v in spec.items()}
        gcomp = C.lookup(self.focus)[1]
        out = []
        builds = [wl.ids({"o": "build", "spec": use(f)}, "a") for f in forms]
        profs = W.profile({"setup": setup, "threads": [builds]})
        cover = Cover(rng)
        for _ in range(self.n(10)):
            nt = rng.choice((1, 2, 2, 3))
            th = []
            sw = []
            mode = rng.choice(("boundary", "walk", "targeted")) if nt > 1 else "boundary"
            for k in range(nt):
                ops = []
                mine = []
                for j in range(rng.randint(1, 3)):
                    i = rng.randrange(len(builds)) if rng.random() < 0.6 else 0
                    nm = "c%d_%d" % (k, j)
                    b = dict(copy.deepcopy(builds[i]))
                    b["as"] = nm
                    b = wl.ids(b, "g")
                    if mode == "targeted" and builds[i]["id"] in profs:
                        ev = cover.pick(profs[builds[i]["id"]])
                        if ev:
                            sw.append([b["id"], ev, (k + 1) % nt])
                    if wl.gen and rng.random() < 0.5:
                        ops.append(wl.ids(wl.op(p_fun=0), "h"))
                    ops.append(b)
                    if i == 0:
                        mine.append(nm)
                    for _ in range(rng.randint(1, 4)):
                        if mine and rng.random() < 0.55:
                            ops.append(wl.ids(gcomp(rng, rng.choice(mine)), "h"))
                        elif wl.gen:
                            ops.append(wl.ids(wl.op(p_fun=0), "h"))
                th.append(ops)
            if mode == "boundary":
                pol = boundary_policy(rng)
            elif mode == "walk":
                pol = random_policy(rng, nt, 3000)
            else:
                pol = {"kind": "explicit", "switches": sw}
            final = []
            for n in sorted(wl.gen):
                final += [wl.ids(wl.gen[n](rng, n), "f") for _ in range(2)]
            if rng.random() < 0.6:
                final += self.sweeps(wl, sorted(wl.gen))
            out.append({"setup": setup, "threads": th, "final": final, "unit": "line", "seed": rng.randrange(10 ** 6), "policy": pol,
                        "flags": {"rebuild": 2}, "tag": mode})
        return [out]

    def dedupe(self, setup):
        """Set-up entries that are equal become one entry under the first name plus aliases."""
        full = dict(setup)
        seen = {}
        out = []
        for n, s in setup:
            k = C.key(C.deref(s, full))
            if k in seen:
                out.append([n, {"r": seen[k]}])
            else:
                seen[k] = n
                out.append([n, s])
        return out

    # -- arguments
    def C07(self):
        rng = self.rng
        wl = Workload(rng, self.focus, npeers=1)
        setup = wl.setup(self.refs)
        fspec = C.lookup(self.focus)[0]
        g = C.lookup(self.focus)[1]
        out = []
        for _ in range(self.n(4)):
            ops = []
            for _ in range(3 if self.slow else 6):
                if wl.gen and rng.random() < 0.75:
                    op = wl.op(p_fun=0.25)
                    for _ in range(3):
                        if "pts" in op or "arr" in op or "idx" in op:
                            break
                        op = wl.op(p_fun=0.25)
                else:
                    op = fun(rng)
                if "pts" in op:
                    op["pts"]["as"] = rng.choice(("array", "array", "array", "lists", "arrays", "fortran", "view", "tuples", "tuple"))
                if "idx" in op:
                    op["idxas"] = rng.choice(("list", "tuple", "array", "array"))
                ops.append(wl.ids(op, "o"))
            if rng.random() < (0.2 if self.slow else 0.5):
                ops.append(wl.ids({"o": "build", "spec": shared_build(rng, fspec, setup), "as": "n"}, "o"))
            sc = {"setup": setup, "threads": [ops], "final": [], "unit": "line", "seed": rng.randrange(10 ** 6),
                  "policy": {"kind": "explicit", "switches": []}, "flags": {"watch": True, "nofinal": True}, "tag": "watch"}
            if rng.random() < 0.4:
                profs = W.profile(sc)
                add_faults(rng, sc, profs, ops, FAIL, 3, Cover(rng), Cover(rng))
                sc["tag"] = "watch+fault"
            elif rng.random() < 0.3 and wl.gen:
                sc["threads"].append([wl.ids(wl.op(), "w") for _ in range(3)])
                sc["policy"] = random_policy(rng, 2, 500)
            out.append(sc)
        return [out]

    # -- results
    def C08(self):
        rng = self.rng
        wl = Workload(rng, self.focus, npeers=1)
        setup = wl.setup(self.refs)
        x = wl.main()
        if x is None:
            return []
        out = []

        def tabop(x=None):
            for _ in range(8):
                op = wl.op(x, p_fun=0.0)
                if op["o"] in W.TABLE_OPS:
                    return op
            return op
        qs = [tabop(x) for _ in range(5)] + [tabop() for _ in range(3)]
        for _ in range(self.n(6)):
            nt = rng.choice((1, 1, 2, 3))
            th = []
            for k in range(nt):
                ops = []
                for _ in range(rng.randint(4, 9)):
                    q = rng.choice(qs)
                    if rng.random() < 0.4:
                        q = wl.related(q)
                    q = wl.ids(q, "h")
                    if q["o"] in W.TABLE_OPS:
                        if rng.random() < 0.55:
                            q["scribble"] = rng.choice(("nan", "scale", "fill", "clear"))
                        else:
                            q["keep"] = True
                    ops.append(q)
                th.append(ops)
            pol = boundary_policy(rng) if rng.random() < 0.5 else random_policy(rng, nt, 1500)
            final = [wl.ids(q, "f") for q in qs]
            out.append({"setup": setup, "threads": th, "final": final, "unit": "line", "seed": rng.randrange(10 ** 6), "policy": pol,
                        "flags": {}, "tag": "scribble"})
        return [out]

    # -- process state
    def C10(self):
        rng = self.rng
        wl = Workload(rng, self.focus, npeers=1)
        setup = wl.setup(self.refs)
        fspec = C.lookup(self.focus)[0]
        out = []
        for _ in range(self.n(4)):
            ops = []
            for _ in range(5):
                if wl.gen and rng.random() < 0.7:
                    ops.append(wl.ids(wl.op(p_fun=0.15), "o"))
                else:
                    ops.append(wl.ids(fun(rng), "o"))
            if rng.random() < (0.3 if self.slow else 0.8):
                ops.insert(rng.randrange(len(ops)), wl.ids({"o": "build", "spec": shared_build(rng, fspec if rng.random() < 0.6 else mutate_spec(rng, fspec), setup)}, "o"))
            if wl.gen and rng.random() < 0.5:
                op = wl.op()
                ops.append(wl.ids({"o": "tab", "x": sorted(wl.gen)[0], "order": 1, "pts": {"s": "b3", "n": 2, "seed": 1, "as": "lists"}}, "o"))
            if rng.random() < 0.35:
                ops += self.sweeps(wl, [rng.choice(sorted(wl.gen))] if wl.gen else [], "o")
            sc = {"setup": setup, "threads": [ops], "final": [], "unit": "line", "seed": rng.randrange(10 ** 6),
                  "policy": {"kind": "explicit", "switches": []}, "flags": {"procstate": True, "rebuild": 1}, "tag": "state"}
            if rng.random() < 0.7:
                sc["ambient"] = rng.randrange(10 ** 6)
            if rng.random() < 0.6:
                profs = W.profile(sc)
                add_faults(rng, sc, profs, ops, FAIL, rng.randint(2, 5), Cover(rng), Cover(rng))
                sc["tag"] = "state+fault"
            if rng.random() < 0.45:
                th2 = []
                for _ in range(3):
                    if wl.gen and rng.random() < 0.6:
                        th2.append(wl.ids(wl.op(p_fun=0.15), "w"))
                    elif not self.slow:
                        th2.append(wl.ids({"o": "build", "spec": shared_build(rng, wl.builds(), setup)}, "w"))
                sc["threads"].append(th2)
                sc["policy"] = random_policy(rng, 2, 1500)
                sc["tag"] += "+threads"
            out.append(sc)
        return [out]

    # -- lifetime
    def C11(self):
        rng = self.rng
        wl = Workload(rng, self.focus, npeers=1)
        setup = wl.setup(self.refs)
        if not wl.gen:
            return []
        fspec = C.lookup(self.focus)[0]
        g = C.lookup(self.focus)[1]
        variants = [fspec] + [mutate_spec(rng, fspec) for _ in range(2)]
        qs = [g(rng, "@") for _ in range(4)]
        out = []
        for _ in range(self.n(4)):
            th = []
            for k in range(rng.choice((1, 1, 2))):
                ops = []
                cur = None
                gen = 0
                left = [n for n, s in setup] if k == 0 else []
                for step in range(rng.randint(6, 14) if not self.slow else 6):
                    r = rng.random()
                    if r < (0.3 if not self.slow else 0.12):
                        nm = "n%d" % k
                        if cur and rng.random() < 0.8:
                            ops.append(wl.ids({"o": "drop", "x": cur}, "d"))
                            if rng.random() < 0.6:
                                ops.append(wl.ids({"o": "gc"}, "d"))
                        # same name, a fresh generation: the object often re-uses the memory of the last one
                        gen += 1
                        cur = "n%d_%d" % (k, gen)
                        ops.append(wl.ids({"o": "build", "spec": shared_build(rng, rng.choice(variants), setup) if not left or rng.random() < 0.5 else rng.choice(variants), "as": cur}, "h"))
                    elif r < 0.4 and left and rng.random() < 0.7:
                        ops.append(wl.ids({"o": "drop", "x": left.pop(rng.randrange(len(left)))}, "d"))
                        if rng.random() < 0.5:
                            ops.append(wl.ids({"o": "gc"}, "d"))
                    elif cur and r < 0.48 and gen:
                        # a copy goes on in place of its original
                        b = next(o for o in reversed(ops) if o.get("as") == cur)
                        gen += 1
                        new = "n%d_%d" % (k, gen)
                        ops.append(wl.ids({"o": "copy", "x": cur, "as": new, "deep": rng.random() < 0.6, "spec": b["spec"]}, "k"))
                        if rng.random() < 0.7:
                            ops.append(wl.ids({"o": "drop", "x": cur}, "d"))
                        cur = new
                    elif cur and r < 0.77:
                        q = wl.ids(dict(rng.choice(qs), x=cur), "h")
                        ops.append(q)
                    else:
                        q = wl.op()
                        ops.append(wl.ids(q, "h"))
                    if "pts" in ops[-1] and rng.random() < 0.4:
                        ops[-1]["buf"] = "b%d" % k
                th.append(ops)
            final = []
            if cur and not self.slow:
                final = [wl.ids(g.sweep(rng, cur), "z")]
            sc = {"setup": setup, "threads": th, "final": final, "unit": "line", "seed": rng.randrange(10 ** 6),
                  "policy": boundary_policy(rng) if rng.random() < 0.6 else random_policy(rng, len(th), 3000),
                  "flags": {"rebuild": 1}, "tag": "lifetime"}
            q = [o for t in th for o in t if o["o"] not in W.NOREF]
            sc["faults"] = [[rng.choice(q)["id"], int(rng.expovariate(1 / 150.0)) + 1, rng.choice(SIDE)] for _ in range(rng.randint(2, 8))] if q else []
            out.append(sc)
        return [out]

    # -- bounded work
    def C12(self):
        rng = self.rng
        wl = Workload(rng, self.focus, npeers=1)
        setup = wl.setup(self.refs)
        x = wl.main()
        if x is None:
            return []
        out = []
        # long history of cheap calls
        qs = [wl.op(x) for _ in range(4)]
        qs += [mutate_op(rng, q, lambda: wl.op(x)) for q in qs]
        for q in qs:
            self.refs.want([(C.deref(dict(setup)[q["x"]], dict(setup)), q)]) if q.get("x") else self.refs.want([(None, q)])
        qs.sort(key=lambda q: self.refs.steps(C.deref(dict(setup)[q["x"]], dict(setup)), q) if q.get("x") else self.refs.steps(None, q))
        cheap = qs[:4]
        total = 12000 if self.tier == "quick" else 60000
        cost = max(20, sum(self.refs.steps(C.deref(dict(setup)[q["x"]], dict(setup)), q) if q.get("x") else self.refs.steps(None, q) for q in cheap) // len(cheap))
        n = max(8, min(240, total // cost))
        ops = []
        for i in range(n):
            q = rng.choice(cheap)
            if "pts" in q:
                # new values every time: whatever is remembered per argument keeps growing
                q = dict(q, pts=dict(q["pts"], seed=i % 60))
            ops.append(wl.ids(q, "h"))
        for q in [q for q in cheap if q["o"] == "tab"][:2]:
            # and many calls that are refused
            e = q.get("entity") or [1, 0]
            ops.insert(rng.randint(0, len(ops) // 2), wl.ids({"o": "refused", "x": q["x"], "ent": [e[0], 40], "n": 250, "pts": q["pts"]}, "e"))
        # the reference amount of work is that of the same shapes at other values
        out.append({"setup": setup, "threads": [ops], "final": [], "unit": "line", "seed": rng.randrange(10 ** 6),
                    "policy": {"kind": "explicit", "switches": []}, "flags": {"steplimit": [1.5, 100], "nofinal": True, "loose": True}, "tag": "long"})
        fspec = C.lookup(self.focus)[0]
        A = [wl.ids(q, "a") for q in qs[:5]]
        if not self.slow and self.focus.split(":")[0] != "cell":
            A.append(wl.ids({"o": "build", "spec": shared_build(rng, fspec, setup)}, "a"))
        profs = W.profile({"setup": setup, "threads": [A]})
        cover, cc = Cover(rng), Cover(rng)
        for _ in range(self.n(6)):
            th, lf, cf = [], [], []
            for k in range(rng.choice((2, 2, 3))):
                ops = []
                for a in rng.sample(A, min(len(A), 3)):
                    q = dict(copy.deepcopy(a), id="%s.%d.%d" % (a["id"], k, len(ops)))
                    if rng.random() < 0.6 and a["id"] in profs:
                        kd = rng.choice(FAIL)
                        ev = cc.pick(profs[a["id"]], "calls") if kd == "callfail" else cover.pick(profs[a["id"]])
                        if ev:
                            (cf if kd == "callfail" else lf).append([q["id"], ev, kd])
                    ops.append(q)
                    ops.append(wl.ids(a if rng.random() < 0.5 else wl.related(a), "v"))
                th.append(ops)
            pol = random_policy(rng, len(th), 1500)
            if pol["kind"] == "walk":
                pol["stall"] = 0.3
            out.append({"setup": setup, "threads": th, "final": [], "unit": "line", "seed": rng.randrange(10 ** 6), "policy": pol,
                        "faults": lf, "callfaults": cf, "flags": {"steplimit": [3, 400], "rebuild": 0}, "tag": "progress"})
        return [out]

    # -- callbacks
    def C13(self):
        rng = self.rng
        wl = Workload(rng, self.focus, npeers=1)
        setup = wl.setup(self.refs)
        x = wl.main()
        if x is None:
            return []
        ent = C.CAT.get(self.focus[3:]) if self.focus.startswith("el:") else None
        if ent and ("nodal" not in ent["tags"] or "disc" in ent["tags"] or ent["kind"] is None):
            ent = None
        out = []
        for _ in range(self.n(7)):
            ops = []
            for _ in range(rng.randint(2, 5)):
                op = None
                if rng.random() < 0.15:
                    op = C.fun_op(rng.choice(C.RULEFUNS), rng.randrange(3))
                elif ent and x == "x0" and rng.random() < 0.2:
                    op = C.call_op(rng, x, C.KIND[ent["kind"]][0], "vec" in ent["tags"])
                for _ in range(20 if op is None else 0):
                    q = wl.op(x if rng.random() < 0.7 else None, p_fun=0.0)
                    if "pts" in q or "coefs" in q:
                        op = q
                        break
                if op is None:
                    ops.append(wl.ids(wl.op(), "o"))
                    continue
                op = wl.ids(op, "o")
                if op.get("pts", {}).get("n") == 0:
                    op["pts"] = dict(op["pts"], n=2)       # an empty list has nobody to call back
                mode = rng.choice(("raise", "raise", "interrupt", "memory", "reenter", "reenter", "reenter"))
                op["cb"] = {"on": "pts" if "pts" in op else "f" if "coefs" in op else "q", "mode": mode, "at": rng.choice((1, 1, 2, 2, 3, 4, 5, 7, 10, 15))}
                if mode == "raise" and rng.random() < 0.7:
                    # (a sequence that raises IndexError has ended, as far as Python is concerned; numpy takes one that
                    # raises KeyError for a dictionary)
                    op["cb"]["exc"] = rng.choice(sorted(k for k in W.CB if op["cb"]["on"] != "pts" or k not in ("IndexError", "KeyError")))
                if op["cb"]["on"] == "q":
                    op["cb"]["at"] = rng.choice((1, 1, 2, 2, 3))
                if mode == "reenter":
                    op["cb"]["op"] = wl.related(op) if rng.random() < 0.8 else wl.op()
                    if op["o"] == "call" and rng.random() < 0.7:
                        # the same functional on another function
                        op["cb"]["op"] = dict({k: v for k, v in op.items() if k not in ("id", "cb")}, coefs=[2.5, -1.75, 1.5])
                    op["cb"]["op"].pop("cb", None)
                ops.append(op)
                if rng.random() < 0.7:
                    v = wl.related(op)
                    v.pop("cb", None)
                    ops.append(wl.ids(v, "v"))
            sc = {"setup": setup, "threads": [ops], "final": [], "unit": "line", "seed": rng.randrange(10 ** 6),
                  "policy": {"kind": "explicit", "switches": []}, "flags": {"cb_exact": True}, "tag": "callback"}
            if rng.random() < 0.2:
                sc["threads"].append([wl.ids(wl.related(o), "w") for o in ops[:3]])
                for o in sc["threads"][1]:
                    o.pop("cb", None)
                sc["policy"] = random_policy(rng, 2, 800)
            out.append(sc)
        return [out]

    # -- the mathematical contract
    def C14(self):
        rng = self.rng
        wl = Workload(rng, self.focus, npeers=1)
        setup = wl.setup(self.refs)
        fspec = C.lookup(self.focus)[0]
        g = C.lookup(self.focus)[1]
        out = []
        for _ in range(self.n(3)):
            th = []
            nb = 0
            built = []
            for k in range(rng.choice((1, 2, 2))):
                ops = []
                for j in range(1 if self.slow else 2):
                    nm = "n%d_%d" % (k, j)
                    s = fspec if j == 0 else rng.choice((mutate_spec(rng, fspec), other_cell(rng, fspec), wl.builds()))
                    ops.append(wl.ids({"o": "build", "spec": shared_build(rng, s, setup), "as": nm}, "g"))
                    if j == 0:
                        ops.append(wl.ids(g(rng, nm), "h"))
                    if wl.gen:
                        ops.append(wl.ids(wl.op(), "h"))
                # and something of any degree, kind and cell
                for j in range(rng.randint(0, 2)):
                    s = C.any_rule(rng) if rng.random() < 0.8 or self.slow else C.wild("c14/%d" % rng.randrange(10 ** 6))["spec"]
                    ops.insert(rng.randint(0, len(ops)), wl.ids({"o": "build", "spec": s, "as": "r%d_%d" % (k, j)}, "r"))
                th.append(ops)
            sc = {"setup": setup, "threads": th, "final": [], "unit": "line", "seed": rng.randrange(10 ** 6),
                  "policy": random_policy(rng, len(th), 3000) if rng.random() < 0.7 else boundary_policy(rng),
                  "flags": {"contract": "deep" if rng.random() < 0.4 else True, "rebuild": 0}, "tag": "contract"}
            if rng.random() < 0.5:
                profs = W.profile({"setup": setup, "threads": th})
                ops = [o for t in th for o in t]
                add_faults(rng, sc, profs, ops, ("interrupt", "memory", "callfail", "timeout") + SIDE[:3], rng.randint(1, 3), Cover(rng), Cover(rng))
                sc["tag"] = "contract+fault"
            out.append(sc)
        return [out]


    # -- memory held
    def C15(self):
        rng = self.rng
        wl = Workload(rng, self.focus, npeers=1)
        fspec = C.lookup(self.focus)[0]
        # parts that the application holds, from which the object is constructed again and again
        if rng.random() < 0.85:
            wl.specs = [("k%d" % i, s) for i, s in enumerate(self.subspecs(fspec)[:4])] + wl.specs
        setup = wl.setup(self.refs)
        if not wl.gen:
            return []
        out = []
        for _ in range(1 if self.tier == "quick" else 3):
            th = []
            where = rng.choice(("session", "soak")) if not self.slow else rng.choice(("session", "", ""))

            def query():
                while True:
                    q = wl.op()
                    if q["o"] != "sweep":
                        return q
            for k in range(rng.choice((1, 1, 2))):
                ops = [wl.ids(query(), "o") for _ in range(rng.randint(3, 5) if self.slow else rng.randint(4, 9))]
                if where == "session":
                    ops.insert(rng.randint(0, len(ops)), wl.ids({"o": "build", "spec": shared_build(rng, fspec, setup, 0.9)}, "b"))
                th.append(ops)
            sc = {"setup": setup, "threads": th, "final": [], "unit": "line", "seed": rng.randrange(10 ** 6),
                  "policy": random_policy(rng, len(th), 1500) if len(th) > 1 else {"kind": "explicit", "switches": []},
                  "flags": {"nofinal": True}, "tag": "memory"}
            profs = W.profile({"setup": setup, "threads": th})
            ops = [o for t in th for o in t]
            if rng.random() < 0.8:
                # (not: failing calls; the interpreter itself loses references when a monitored call is made to fail)
                add_faults(rng, sc, profs, ops, [k for k in FAIL if k != "callfail"], rng.randint(1, 4), Cover(rng), Cover(rng))
                sc["tag"] = "memory+fault"
            soak = []
            for _ in range(200):
                q = wl.op(fresh=True, p_fun=0.0)
                sym = q["o"] == "nbex" or q.get("w") in ("exder", "exjet")
                if q["o"] != "sweep" and len(soak) < 25 and (not sym or sum(1 for o in soak if o["o"] == "nbex") < 2):
                    soak.append(q)
            sc["soak"] = soak
            sc["soakbuild"] = [] if where != "soak" else [{"o": "build", "spec": shared_build(rng, fspec, setup, 0.9)}]
            sc["flags"]["memory"] = {"rounds": 4, "more": 34 if self.slow else 154, "block": 30 if self.slow else 60,
                                     "max": 12 if self.slow else 40, "slack": 150, "slow": self.slow}
            out.append(sc)
        return [out]

    # -- independent processes
    def C09(self):
        from . import ranks
        rng = self.rng
        wl = Workload(rng, self.focus, npeers=0)
        items = []
        for n, s in wl.specs:
            items.append(wl.ids({"o": "build", "spec": s, "as": n}))
            for _ in range((6 if n == "x0" else 3) if not self.slow else 2):
                if n in wl.gen:
                    items.append(wl.ids(wl.op(n)))
        items += [wl.ids(fun(rng)) for _ in range(2)]
        job = {"items": items}
        out = []
        for _ in range(1 if self.tier == "quick" else 3):
            members = []
            nr = 2 if self.focus in VSLOW else 3
            first = rng.randrange(NRANKS)
            for r in range(nr):
                p = dict(ranks.NEUTRAL)
                order = [o["id"] for o in items]
                if r:
                    p.update(rng=rng.randrange(1, 10 ** 6), churn=rng.randrange(1, 10 ** 6), print=rng.random() < 0.5, dir="@",
                             gc=rng.choice(("off", "often", "normal")),
                             env={"LANG": rng.choice(("C", "de_DE.UTF-8", "tr_TR.UTF-8")), "COLUMNS": str(rng.randint(20, 200)),
                                  "OMP_NUM_THREADS": str(rng.randint(1, 8)), "USER": "u%d" % rng.randint(0, 99), "TZ": rng.choice(("UTC", "EST5"))})
                    p["host"] = {"cpus": rng.choice((1, 2, 3, 8, 64)), "pid": rng.randrange(2, 1 << 22), "name": "node%d" % rng.randrange(100),
                                 "argv": ["job", "-x%d" % rng.randrange(10)], "load": round(rng.uniform(0, 20), 2)}
                    order = self.linear_extension(rng, items)
                    for j in range(rng.randint(1, 4) if not self.slow else 1):
                        kind = rng.random()
                        if kind < 0.6:
                            extra = [{"o": "build", "spec": wl.builds() if rng.random() < 0.5 and not self.slow else C.lookup(self.other(rng))[0], "as": "p%d" % j}]
                        elif kind < 0.7:
                            extra = [{"o": "gc"}]
                        elif kind < 0.85:
                            extra = [{"o": "churn", "seed": rng.randrange(10 ** 6)}]
                        else:
                            q = self.other(rng)
                            extra = [{"o": "build", "spec": C.lookup(q)[0], "as": "p%d" % j}, C.lookup(q)[1](rng, "p%d" % j), {"o": "drop", "x": "p%d" % j}]
                        at = rng.randint(0, len(order))
                        order[at:at] = extra
                p["order"] = order
                members.append({"rank": (first + r * rng.choice((1, 1, 3)) + r) % NRANKS, "pert": p})
            out.append({"kind": "ranks", "job": job, "members": members})
        return [out]

    def other(self, rng):
        while True:
            q = rng.choice(sorted(C.BASEPOOL))
            if q not in SLOW:
                return q

    def linear_extension(self, rng, items):
        """A random order in which every object is built before it is used."""
        left = list(items)
        built = set()
        out = []
        while left:
            ok = [o for o in left if o["o"] in ("build", "fun") or o["x"] in built]
            o = rng.choice(ok)
            left.remove(o)
            out.append(o["id"])
            if o["o"] == "build":
                built.add(o["as"])
        return out


NRANKS = 8


def rank_identity(seed, r):
    """(hash seed, warm?) of simulated rank r."""
    return (0 if r == 0 else random.Random("rank/%s/%d" % (seed, r)).randrange(1, 1 << 32)), r % 4 != 3


def plan(prop, tier, seed):
    """The units of a check: [(index, focus name)], in the order in which they are run."""
    rng = random.Random("plan/%s/%s" % (prop, seed))
    names = list(names_for(prop))
    rng.shuffle(names)
    passes, wilds = QUICK[prop] if tier == "quick" else THOROUGH[prop]
    out = []
    if tier == "quick" and prop != "C14":
        # the very slow ones by turns
        few = set(random.Random("few/%s/%s" % (prop, seed)).sample(sorted(VSLOW), 2))
        names = [n for n in names if n not in VSLOW or n in few]
    for p in range(passes):
        out += names
    out += ["wild:%s%d/%d" % ("big" if (tier == "thorough" and i % 4 == 0) else "", seed, i) for i in range(wilds)]
    rng.shuffle(out)
    out.sort(key=lambda n: (n not in VSLOW, n not in SLOW))     # the long ones first
    return list(enumerate(out))


# passes over the object pool, additional random recipes
QUICK = {p: (1, 24) for p in PROPS}
QUICK["C15"] = (1, 0)
THOROUGH = {p: (12, 1200) for p in PROPS}
