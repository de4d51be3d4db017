"""What the simulated clients do: object recipes ("specs"), operations, and how
results are normalised and compared.  Everything is plain JSON data."""
import copy
import itertools
import json
import math
import random

import numpy as np

from . import boot

# --------------------------------------------------------------------------
# specs -> objects
# --------------------------------------------------------------------------

def cname(n, *a, **k):
    d = {"c": n, "a": list(a)}
    if k:
        d["k"] = k
    return d


COLLECT = None      # when a list: receives the containers passed as constructor arguments


def build(spec, env=None):
    """Build the object a spec describes.  {"r": name} refers to env[name]."""
    if isinstance(spec, dict):
        if "r" in spec:
            return env[spec["r"]]
        if "l" in spec:
            return [build(x, env) for x in spec["l"]]
        if "t" in spec:
            return tuple(build(x, env) for x in spec["t"])
        if "np" in spec:
            return np.array(spec["np"], dtype=float)
        if "m" in spec:                                   # method call on another object
            o = build(spec["of"], env)
            return getattr(o, spec["m"])(*[build(x, env) for x in spec.get("a", [])])
        if "sub" in spec:                                 # component of a list
            return build(spec["of"], env)[spec["sub"]]
        fn = boot.REGISTRY[spec["c"]]
        args = [build(x, env) for x in spec.get("a", [])]
        kw = {k: build(v, env) for k, v in spec.get("k", {}).items()}
        if COLLECT is not None:
            for v in list(args) + list(kw.values()):
                if isinstance(v, (list, tuple, dict, np.ndarray)):
                    COLLECT.append(v)
        o = fn(*args, **kw)
        if "verts" in spec:
            o.vertices = tuple(tuple(float(x) for x in v) for v in spec["verts"])
        return o
    return spec


def deref(spec, table):
    """Replace references by the specs they stand for."""
    if isinstance(spec, dict):
        if "r" in spec:
            return deref(table[spec["r"]], table)
        return {k: deref(v, table) for k, v in spec.items()}
    if isinstance(spec, list):
        return [deref(x, table) for x in spec]
    return spec


def refs_in(spec):
    if isinstance(spec, dict):
        if "r" in spec:
            return {spec["r"]}
        out = set()
        for v in spec.values():
            out |= refs_in(v)
        return out
    if isinstance(spec, list):
        out = set()
        for v in spec:
            out |= refs_in(v)
        return out
    return set()


def key(x):
    return json.dumps(x, sort_keys=True)


# --------------------------------------------------------------------------
# cells
# --------------------------------------------------------------------------
I, T, S = cname("UFCInterval"), cname("UFCTriangle"), cname("UFCTetrahedron")
DI, DT, DS = cname("DefaultLine"), cname("DefaultTriangle"), cname("DefaultTetrahedron")
IT, IS = cname("IntrepidTriangle"), cname("IntrepidTetrahedron")
Q, H, PT = cname("UFCQuadrilateral"), cname("UFCHexahedron"), cname("Point")
QTP = cname("TensorProductCell", I, I)
WTP = cname("TensorProductCell", T, I)
HTP = cname("TensorProductCell", I, I, I)
# same kind (equal to and hashing like the reference cell), different geometry
I2 = dict(I, verts=[[0.25], [1.5]])
T2 = dict(T, verts=[[0.0, 0.0], [2.0, 0.25], [0.5, 1.5]])
T3 = dict(T, verts=[[0.125, -0.5], [1.0, 0.0], [0.0, 1.25]])
S2 = dict(S, verts=[[0.0, 0.0, 0.0], [1.5, 0.0, 0.25], [0.0, 0.75, 0.0], [0.25, 0.0, 1.25]])
# ... of the same size: moved, sheared, vertices in another order
I3 = dict(I, verts=[[1.0], [2.0]])
T4 = dict(T, verts=[[0.0, 0.0], [1.0, 0.5], [0.0, 1.0]])
T5 = dict(T, verts=[[1.0, 0.0], [0.0, 1.0], [0.0, 0.0]])
S3 = dict(S, verts=[[0.0, 0.0, 0.0], [1.0, 0.5, 0.0], [0.0, 1.0, 0.25], [0.0, 0.0, 1.0]])
S4 = dict(S, verts=[[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, 1.0]])
DT2 = dict(DT, verts=[[-1.0, -1.0], [1.5, -1.0], [-1.0, 0.75]])

# kind -> (spatial dim, list of (entity, sub shape)); shapes: s<d> simplex, b<d> box, joined by x
def _ents_simplex(d):
    from math import comb
    out = []
    for k in range(d + 1):
        for i in range(comb(d + 1, k + 1)):
            out.append(([k, i], "s%d" % k))
    return out


KIND = {
    "pt": (0, [([0, 0], "s0")]),
    "int": (1, _ents_simplex(1)),
    "tri": (2, _ents_simplex(2)),
    "tet": (3, _ents_simplex(3)),
    "quad": (2, [([0, i], "s0") for i in range(4)] + [([1, i], "s1") for i in range(4)] + [([2, 0], "b2")]),
    "hex": (3, [([0, i], "s0") for i in range(8)] + [([1, i], "s1") for i in range(12)]
            + [([2, i], "b2") for i in range(6)] + [([3, 0], "b3")]),
    "tp2": (2, [([[0, 0], i], "s0") for i in range(4)] + [([[0, 1], i], "s1") for i in range(2)]
            + [([[1, 0], i], "s1") for i in range(2)] + [([[1, 1], 0], "b2")]),
    "tp21": (3, [([[0, 0], i], "s0") for i in range(6)] + [([[1, 0], i], "s1") for i in range(6)]
             + [([[2, 0], i], "s2") for i in range(2)] + [([[0, 1], i], "s1") for i in range(3)]
             + [([[1, 1], i], "b2") for i in range(3)] + [([[2, 1], 0], "s2xb1")]),
    "tp3": (3, [([[0, 0, 0], i], "s0") for i in range(8)] + [([[1, 0, 1], i], "b2") for i in range(2)]
            + [([[1, 1, 0], i], "b2") for i in range(2)] + [([[1, 1, 1], 0], "b3")]),
    "tp(2)1": (3, [([[[1, 1], 0], i], "b2") for i in range(2)] + [([[[1, 0], 1], i], "b2") for i in range(2)]
               + [([[[1, 1], 1], 0], "b3")]),
}
FULL = {"pt": "s0", "int": "s1", "tri": "s2", "tet": "s3", "quad": "b2", "hex": "b3", "tp2": "b2",
        "tp21": "s2xb1", "tp3": "b3", "tp(2)1": "b3"}


def shape_dim(shape):
    return sum(int(p[1:]) for p in shape.split("x"))


def gen_points(shape, n, seed, facet=None):
    """Deterministic points in a reference (sub-)cell, as a list of tuples.  Seed 4 gives vertices
    and the barycentre, seeds 5 and 6 points very close to those of seeds 0 and 1, seeds 7 to 9 variations of seed 0."""
    if facet is None and seed == 4:
        return special_points(shape)[:n]
    if facet is None and seed in (5, 6):
        eps = 1e-7 if seed == 5 else 6e-9
        return [tuple(x + eps for x in p) for p in gen_points(shape, n, seed - 5)]
    if seed in (7, 8, 9):                   # like seed 0: in another order, with another middle point, with a repetition
        base = gen_points(shape, n, 0, facet)
        if seed == 7:
            return base[::-1]
        if seed == 8:
            base[n // 2:n // 2 + 1] = gen_points(shape, n, 2, facet)[n // 2:n // 2 + 1]
            return base
        return base[:1] + base[:-1]
    r = random.Random("pts/%s/%d/%s/%s" % (shape, n, seed, facet))
    out = []
    for _ in range(n):
        p = []
        for part in shape.split("x"):
            d = int(part[1:])
            if part[0] == "b":
                p += [round(r.uniform(0.02, 0.98), 6) for _ in range(d)]
            else:
                e = [-math.log(1.0 - r.random()) for _ in range(d + 1)]
                s = sum(e)
                q = [round(0.97 * x / s + 0.01, 6) for x in e[:d]]
                p += q
        if facet is not None and p:
            p[facet % len(p)] = 0.0
        out.append(tuple(p))
    return out


def special_points(shape):
    d = shape_dim(shape)
    vs = [()]
    for part in shape.split("x"):
        k = int(part[1:])
        if part[0] == "b":
            new = [tuple(float((i >> j) & 1) for j in range(k)) for i in range(1 << k)]
        else:
            new = [tuple([0.0] * k)] + [tuple(1.0 if i == j else 0.0 for i in range(k)) for j in range(k)]
        vs = [v + w for v in vs for w in new]
    mid = tuple(sum(v[i] for v in vs) / len(vs) for i in range(d))
    return [vs[-1], mid] + vs[:-1] + [mid] * 8


def make_points(ps):
    """ps: {"s": shape, "n": n, "seed": k, "as": kind, "facet": i|None} -> the caller's argument object."""
    pts = gen_points(ps["s"], ps["n"], ps["seed"], ps.get("facet"))
    k = ps.get("as", "tuples")
    if k == "tuples":
        return pts
    if k == "tuple":
        return tuple(pts)
    if k == "lists":
        return [list(p) for p in pts]
    if k == "array":
        return np.array(pts, dtype=float).reshape(len(pts), shape_dim(ps["s"]))
    if k == "arrays":
        return [np.array(p, dtype=float) for p in pts]
    if k == "ro":
        a = np.array(pts, dtype=float).reshape(len(pts), shape_dim(ps["s"]))
        a.flags.writeable = False
        return a
    if k == "fortran":
        return np.asfortranarray(np.array(pts, dtype=float).reshape(len(pts), shape_dim(ps["s"])))
    if k == "view":
        a = np.array(pts, dtype=float).reshape(len(pts), shape_dim(ps["s"]))
        b = np.zeros((2 * len(pts), a.shape[1]))
        b[::2] = a
        return b[::2]
    if k == "back":
        return np.array(pts[::-1], dtype=float).reshape(len(pts), shape_dim(ps["s"]))[::-1]
    if k == "f32":
        return np.array(pts, dtype=np.float32).reshape(len(pts), shape_dim(ps["s"]))
    if k == "ints":
        return [tuple(int(round(x)) for x in p) for p in pts]
    raise ValueError(k)


def tup(x):
    return tuple(tup(y) for y in x) if isinstance(x, (list, tuple)) else x


# --------------------------------------------------------------------------
# catalogue of objects.  entry: name -> {"spec", "kind", "tags"}
# --------------------------------------------------------------------------
CAT = {}


def entry(name, spec, kind, *tags):
    CAT[name] = {"spec": spec, "kind": kind, "tags": set(tags)}


def el(cls, cell, *a, **k):
    return cname(cls, cell, *a, **k)


def _catalogue():
    for cn, c, kd in (("I", I, "int"), ("T", T, "tri"), ("S", S, "tet")):
        entry("P0" + cn, el("P0", c), kd, "nodal")
        for d in {"int": (1, 2, 3, 5), "tri": (1, 2, 3), "tet": (1, 2)}[kd]:
            entry("CG%d%s" % (d, cn), el("Lagrange", c, d), kd, "nodal", "h1")
            entry("DG%d%s" % (d, cn), el("DiscontinuousLagrange", c, d), kd, "nodal", "l2")
        for d in {"int": (1, 2), "tri": (1, 2), "tet": (1,)}[kd]:
            entry("Taylor%d%s" % (d, cn), el("DiscontinuousTaylor", c, d), kd, "nodal")
        for d in {"int": (2, 3), "tri": (3,), "tet": ()}[kd]:
            entry("B%d%s" % (d, cn), el("Bubble", c, d), kd, "nodal", "sub")
        for d in {"int": (1, 2, 3), "tri": (1, 2, 3), "tet": (1, 2)}[kd]:
            entry("Bern%d%s" % (d, cn), el("Bernstein", c, d), kd)
    entry("DG0I", el("DiscontinuousLagrange", I, 0), "int", "nodal", "l2")
    entry("DG0T", el("DiscontinuousLagrange", T, 0), "tri", "nodal", "l2")
    for d in (1, 2, 4):
        entry("GLL%dI" % d, el("GaussLobattoLegendre", I, d), "int", "nodal", "h1")
        entry("GL%dI" % d, el("GaussLegendre", I, d), "int", "nodal", "l2")
    for d in (1, 2, 3):
        entry("GR%dI" % d, el("GaussRadau", I, d), "int", "nodal")
    entry("Herm3I", el("CubicHermite", I), "int", "nodal", "deriv")
    entry("Herm3T", el("CubicHermite", T), "tri", "nodal", "deriv")
    entry("Herm3S", el("CubicHermite", S), "tet", "nodal", "deriv", "slow")
    entry("Morley", el("Morley", T), "tri", "nodal", "deriv")
    entry("Bell", el("Bell", T), "tri", "nodal", "deriv", "slow")
    entry("Argyris5", el("QuinticArgyris", T), "tri", "nodal", "deriv", "slow")
    for cn, c, kd in (("T", T, "tri"), ("S", S, "tet")):
        entry("FB3" + cn, el("FacetBubble", c, 3 if kd == "tet" else 2), kd, "nodal", "sub")
        entry("CR1" + cn, el("CrouzeixRaviart", c, 1), kd, "nodal")
        for v in ("point", "integral"):
            for fam, ab in (("RaviartThomas", "RT"), ("Nedelec", "N1"), ("BrezziDouglasMarini", "BDM"),
                            ("NedelecSecondKind", "N2")):
                for d in ((1, 2) if kd == "tri" else (1,)):
                    slow = ("slow",) if (kd == "tet" and v == "integral") else ()
                    entry("%s%d%s%s" % (ab, d, cn, v[0]), el(fam, c, d, variant=v), kd, "nodal", "vec", *slow)
        entry("RT2S", el("RaviartThomas", S, 2, variant="point"), "tet", "nodal", "vec", "slow")
        entry("DRT1" + cn, el("DiscontinuousRaviartThomas", c, 1), kd, "nodal", "vec")
        entry("Regge0" + cn, el("Regge", c, 0), kd, "nodal", "ten")
        entry("Tr1" + cn, el("HDivTrace", c, 1), kd, "trace")
        entry("Tr2" + cn, el("HDivTrace", c, 2), kd, "trace")
        entry("KMV1" + cn, el("KongMulderVeldhuizen", c, 1), kd, "nodal")
    entry("RT1Tn", el("RaviartThomas", T, 1), "tri", "nodal", "vec", "novar")
    entry("N11Tn", el("Nedelec", T, 1), "tri", "nodal", "vec", "novar")
    entry("RT3Tp", el("RaviartThomas", T, 3, variant="point"), "tri", "nodal", "vec", "slow")
    entry("RT1Ti4", el("RaviartThomas", T, 1, variant="integral(4)"), "tri", "nodal", "vec")
    entry("RT1Ti5", el("RaviartThomas", T, 1, variant="integral(5)"), "tri", "nodal", "vec")
    entry("Regge1T", el("Regge", T, 1), "tri", "nodal", "ten")
    entry("KMV2T", el("KongMulderVeldhuizen", T, 2), "tri", "nodal")
    entry("KMV3T", el("KongMulderVeldhuizen", T, 3), "tri", "nodal", "slow")
    entry("BDFM2", el("BrezziDouglasFortinMarini", T, 2), "tri", "nodal", "vec")
    entry("HHJ0", el("HellanHerrmannJohnson", T, 0), "tri", "nodal", "ten")
    entry("HHJ1", el("HellanHerrmannJohnson", T, 1), "tri", "nodal", "ten")
    entry("AWnc", el("ArnoldWintherNC", T, 2), "tri", "nodal", "ten")
    entry("AW", el("ArnoldWinther", T, 3), "tri", "nodal", "ten", "slow")
    entry("MTW", el("MardalTaiWinther", T, 3), "tri", "nodal", "vec")
    for cn, c, kd in (("Q", Q, "quad"), ("H", H, "hex")):
        for d in ((1, 2, 3) if kd == "quad" else (1, 2)):
            slow = ("slow",) if (kd == "hex" or d == 3) else ()
            entry("Ser%d%s" % (d, cn), el("Serendipity", c, d), kd, "lazy", *slow)
            entry("DPC%d%s" % (d, cn), el("DPC", c, d), kd, "nodal")
    entry("DPC0Q", el("DPC", Q, 0), "quad", "nodal")
    entry("SerI2", el("Serendipity", I, 2), "int", "nodal")
    entry("TrQ", el("HDivTrace", QTP, 1), "tp2", "trace")
    entry("TrQ12", el("HDivTrace", QTP, {"t": [1, 2]}), "tp2", "trace")
    entry("TrW", el("HDivTrace", WTP, {"t": [1, 2]}), "tp21", "trace")
    # higher degrees, and families too slow for more than a look
    for d in (7,):
        entry("CG%dI" % d, el("Lagrange", I, d), "int", "nodal", "h1", "high")
        entry("DG%dI" % (d + 1), el("DiscontinuousLagrange", I, d + 1), "int", "nodal", "l2", "high")
        entry("GLL%dI" % d, el("GaussLobattoLegendre", I, d), "int", "nodal", "h1", "high")
        entry("GL%dI" % d, el("GaussLegendre", I, d), "int", "nodal", "l2", "high")
    entry("CG11I", el("Lagrange", I, 11), "int", "nodal", "h1", "high")
    entry("GLL12I", el("GaussLobattoLegendre", I, 12), "int", "nodal", "h1", "high")
    entry("GL10I", el("GaussLegendre", I, 10), "int", "nodal", "l2", "high")
    entry("GR9I", el("GaussRadau", I, 9), "int", "nodal", "high")
    entry("Taylor7I", el("DiscontinuousTaylor", I, 7), "int", "nodal", "high")
    entry("Bern10I", el("Bernstein", I, 10), "int", "high")
    entry("RT4T", el("RaviartThomas", T, 4), "tri", "nodal", "vec", "slow", "high")
    entry("N14T", el("Nedelec", T, 4), "tri", "nodal", "vec", "slow", "high")
    entry("Bern6T", el("Bernstein", T, 6), "tri", "slow", "high")
    entry("GR5I", el("GaussRadau", I, 5), "int", "nodal", "high")
    entry("Bern6I", el("Bernstein", I, 6), "int", "high")
    entry("Taylor4I", el("DiscontinuousTaylor", I, 4), "int", "nodal", "high")
    entry("B5I", el("Bubble", I, 5), "int", "nodal", "sub", "high")
    entry("CG4T", el("Lagrange", T, 4), "tri", "nodal", "h1", "high")
    entry("CG5T", el("Lagrange", T, 5), "tri", "nodal", "h1", "high", "slow")
    entry("DG4T", el("DiscontinuousLagrange", T, 4), "tri", "nodal", "l2", "high")
    entry("Tr4T", el("HDivTrace", T, 4), "tri", "trace", "high")
    entry("RT3Ti", el("RaviartThomas", T, 3, variant="integral"), "tri", "nodal", "vec", "high")
    entry("N13Ti", el("Nedelec", T, 3, variant="integral"), "tri", "nodal", "vec", "high")
    entry("N13Tp", el("Nedelec", T, 3, variant="point"), "tri", "nodal", "vec", "high")
    entry("BDM3Tp", el("BrezziDouglasMarini", T, 3, variant="point"), "tri", "nodal", "vec", "high")
    entry("N23Tp", el("NedelecSecondKind", T, 3, variant="point"), "tri", "nodal", "vec", "high")
    entry("DRT2T", el("DiscontinuousRaviartThomas", T, 2), "tri", "nodal", "vec", "high")
    entry("Regge2T", el("Regge", T, 2), "tri", "nodal", "ten", "high")
    entry("HHJ2", el("HellanHerrmannJohnson", T, 2), "tri", "nodal", "ten", "high")
    entry("Taylor3T", el("DiscontinuousTaylor", T, 3), "tri", "nodal", "high")
    entry("Bern5T", el("Bernstein", T, 5), "tri", "high")
    entry("B4T", el("Bubble", T, 4), "tri", "nodal", "sub", "high")
    entry("FB3Tc", el("FacetBubble", T, 3), "tri", "nodal", "sub", "high")
    entry("CdB", el("CodimBubble", T, 3, 1), "tri", "nodal", "sub", "high")
    entry("KMV4T", el("KongMulderVeldhuizen", T, 4), "tri", "nodal", "slow", "high")
    entry("KMV2S", el("KongMulderVeldhuizen", S, 2), "tet", "nodal", "slow", "high")
    entry("CG3S", el("Lagrange", S, 3), "tet", "nodal", "h1", "slow", "high")
    entry("Tr3S", el("HDivTrace", S, 3), "tet", "trace", "high")
    entry("N12Sp", el("Nedelec", S, 2, variant="point"), "tet", "nodal", "vec", "high", "slow")
    entry("BDM2Sp", el("BrezziDouglasMarini", S, 2, variant="point"), "tet", "nodal", "vec", "high", "slow")
    entry("N22Sp", el("NedelecSecondKind", S, 2, variant="point"), "tet", "nodal", "vec", "high", "slow")
    entry("Regge1S", el("Regge", S, 1), "tet", "nodal", "ten", "high")
    entry("Taylor2S", el("DiscontinuousTaylor", S, 2), "tet", "nodal", "high")
    entry("Bern3S", el("Bernstein", S, 3), "tet", "high")
    entry("B4S", el("Bubble", S, 4), "tet", "nodal", "sub", "slow", "high")
    entry("Ser4Q", el("Serendipity", Q, 4), "quad", "lazy", "slow", "high")
    entry("Ser5Q", el("Serendipity", Q, 5), "quad", "lazy", "slow", "high")
    entry("Ser3H", el("Serendipity", H, 3), "hex", "lazy", "slow", "high")
    entry("DPC4Q", el("DPC", Q, 4), "quad", "nodal", "high")
    entry("DPC3H", el("DPC", H, 3), "hex", "nodal", "slow", "high")
    entry("Arg5", el("Argyris", T, 5), "tri", "nodal", "deriv", "slow")
    # near-colliding geometry
    entry("CG2T2", el("Lagrange", T2, 2), "tri", "nodal", "h1", "geo")
    entry("CG2T3", el("Lagrange", T3, 2), "tri", "nodal", "h1", "geo")
    entry("RT1T2", el("RaviartThomas", T2, 1, variant="point"), "tri", "nodal", "vec", "geo")
    entry("MorleyT2", el("Morley", T2), "tri", "nodal", "deriv", "geo")
    entry("DG1T2", el("DiscontinuousLagrange", T2, 1), "tri", "nodal", "geo")
    entry("N11T3", el("Nedelec", T3, 1, variant="point"), "tri", "nodal", "vec", "geo")
    entry("CG1S2", el("Lagrange", S2, 1), "tet", "nodal", "geo")
    entry("CG2I2", el("Lagrange", I2, 2), "int", "nodal", "geo")
    entry("AWncT2", el("ArnoldWintherNC", T2, 2), "tri", "nodal", "ten", "geo")
    entry("MTWT3", el("MardalTaiWinther", T3, 3), "tri", "nodal", "vec", "geo")
    entry("CG2DT", el("Lagrange", DT, 2), "tri", "nodal", "geo")
    entry("CG2IT", el("Lagrange", IT, 2), "tri", "nodal", "geo")
    entry("DG1DI", el("DiscontinuousLagrange", DI, 1), "int", "nodal", "geo")
    entry("CG1DS", el("Lagrange", DS, 1), "tet", "nodal", "geo")
    # composites
    def C(n):
        return CAT[n]["spec"]
    tp = lambda a, b: cname("TensorProductElement", a, b)
    fl = lambda a: cname("FlattenedDimensions", a)
    entry("TPcc", tp(C("CG1I"), C("CG2I")), "tp2", "comp")
    entry("TPdc", tp(C("DG1I"), C("CG2I")), "tp2", "comp")
    entry("TPgg", tp(C("GLL2I"), C("GL1I")), "tp2", "comp")
    entry("TPtc", tp(C("CG2T"), C("CG1I")), "tp21", "comp")
    entry("TPrt", tp(C("RT1Tp"), C("DG1I")), "tp21", "comp", "vec")
    entry("TPn1", tp(C("N11Tp"), C("CG1I")), "tp21", "comp", "vec")
    entry("TPhex", tp(fl(tp(C("CG1I"), C("CG1I"))), C("CG2I")), None, "comp", "notab")
    entry("TP(2)1", tp(tp(C("CG1I"), C("CG1I")), C("CG2I")), "tp(2)1", "comp")
    entry("FlQ2", fl(tp(C("CG2I"), C("CG2I"))), "quad", "comp")
    entry("FlDG", fl(tp(C("DG1I"), C("DG2I"))), "quad", "comp")
    entry("FlHex", fl(tp(fl(tp(C("CG1I"), C("CG1I"))), C("CG1I"))), "hex", "comp")
    entry("HdivQ", cname("Hdiv", tp(C("CG1I"), C("DG0I"))), "tp2", "comp", "vec")
    entry("HdivQ2", cname("Hdiv", tp(C("DG1I"), C("CG2I"))), "tp2", "comp", "vec")
    entry("HcurlQ", cname("Hcurl", tp(C("CG1I"), C("DG0I"))), "tp2", "comp", "vec")
    entry("HcurlQ2", cname("Hcurl", tp(C("DG1I"), C("CG2I"))), "tp2", "comp", "vec")
    entry("HdivW", cname("Hdiv", tp(C("RT1Tp"), C("DG1I"))), "tp21", "comp", "vec")
    entry("HdivWdg", cname("Hdiv", tp(C("DG1T"), C("CG1I"))), "tp21", "comp", "vec")
    entry("HcurlW", cname("Hcurl", tp(C("CG2T"), C("DG0I"))), "tp21", "comp", "vec")
    entry("HcurlWrt", cname("Hcurl", tp(C("RT1Tp"), C("CG1I"))), "tp21", "comp", "vec")
    entry("HcurlWn1", cname("Hcurl", tp(C("N11Tp"), C("CG1I"))), "tp21", "comp", "vec")
    entry("FlHdiv", fl(cname("Hdiv", tp(C("CG1I"), C("DG0I")))), "quad", "comp", "vec")
    entry("RTCF", cname("EnrichedElement", cname("Hdiv", tp(C("CG1I"), C("DG0I"))),
                        cname("Hdiv", tp(C("DG0I"), C("CG1I")))), "tp2", "comp", "vec")
    entry("RTCE", cname("EnrichedElement", cname("Hcurl", tp(C("CG1I"), C("DG0I"))),
                        cname("Hcurl", tp(C("DG0I"), C("CG1I")))), "tp2", "comp", "vec")
    entry("EnrT", cname("EnrichedElement", C("CG1T"), C("B3T")), "tri", "comp")
    entry("EnrI", cname("EnrichedElement", C("CG1I"), C("B2I")), "int", "comp")
    entry("EnrRT", cname("EnrichedElement", cname("RestrictedElement", C("RT2Tp"), restriction_domain="facet"),
                         cname("RestrictedElement", C("RT2Tp"), restriction_domain="interior")), "tri", "comp", "vec")
    entry("NEnrI", cname("NodalEnrichedElement", C("CG1I"), C("B2I")), "int", "comp", "nodal")
    entry("NEnrT", cname("NodalEnrichedElement", C("CG1T"), C("B3T")), "tri", "comp", "nodal")
    entry("NEnrRT", cname("NodalEnrichedElement", cname("RestrictedElement", C("RT2Tp"), restriction_domain="facet"),
                          cname("RestrictedElement", C("RT2Tp"), restriction_domain="interior")), "tri", "comp", "nodal", "vec")
    for nm, b, rd in (("RstCGf", "CG3T", "facet"), ("RstCGv", "CG2T", "vertex"), ("RstCGi", "CG3T", "interior"),
                      ("RstRTf", "RT2Tp", "facet"), ("RstRTi", "RT2Tp", "interior"), ("RstI", "CG3I", "interior"),
                      ("RstCGe", "CG2S", "edge")):
        entry(nm, cname("RestrictedElement", C(b), restriction_domain=rd), CAT[b]["kind"], "comp", "nodal", "sub")
    entry("RstIdx", cname("RestrictedElement", C("CG2T"), {"l": [0, 2, 4]}), "tri", "comp", "nodal", "sub")
    for b in ("CG2I", "CG2T", "RT1Tp", "CG1S"):
        entry("Disc" + b, cname("DiscontinuousElement", C(b)), CAT[b]["kind"], "comp", "nodal", "disc")
    entry("DiscRst", cname("DiscontinuousElement", cname("RestrictedElement", C("CG3T"), restriction_domain="facet")), "tri", "comp", "disc")
    # built over a space and a dual set that the caller holds
    dual = lambda n: {"m": "get_dual_set", "of": C(n)}
    on = lambda c, d, *a: cname("ONPolynomialSet", c, d, *a)
    take = lambda ps, idx: {"m": "take", "of": ps, "a": [{"l": list(idx)}]}
    entry("CE2T", cname("CiarletElement", on(T, 2), dual("CG2T"), 2), "tri", "comp", "nodal")
    entry("CE3I", cname("CiarletElement", on(I, 3), dual("CG3I"), 3), "int", "comp", "nodal")
    entry("CEtT", cname("CiarletElement", take(on(T, 3), range(6)), dual("CG2T"), 2), "tri", "comp", "nodal", "disc")
    entry("CEtI", cname("CiarletElement", take(on(I, 4), range(3)), dual("CG2I"), 2), "int", "comp", "nodal", "disc")
    entry("CEnb", cname("CiarletElement", {"m": "get_nodal_basis", "of": C("CG2T")}, dual("DG2T"), 2), "tri", "comp", "nodal", "disc")
    entry("CEvT", cname("CiarletElement", on(T, 1, {"t": [2]}), dual("BDM1Tp"), 1, {"l": [1]}), "tri", "comp", "nodal", "vec", "disc")
    entry("MixT", cname("MixedElement", {"l": [C("CG2T"), C("CG1T")]}), "tri", "comp", "mix")
    entry("MixRT", cname("MixedElement", {"l": [C("RT1Tp"), C("DG0T")]}), "tri", "comp", "mix", "vec")
    entry("MixN", cname("MixedElement", {"l": [cname("EnrichedElement", C("CG1T"), C("B3T")), C("CG1T")]}), "tri", "comp", "mix")
    entry("MixQ", cname("MixedElement", {"l": [tp(C("CG1I"), C("CG1I")), tp(C("DG0I"), C("DG0I"))]}), "tp2", "comp", "mix")
    # deeper composites
    entry("TP33", tp(C("CG3I"), C("GLL4I")), "tp2", "comp", "high")
    entry("TPb", tp(C("DG2I"), C("GR2I")), "tp2", "comp", "high")
    entry("FlQ3", fl(tp(C("CG3I"), C("DG3I"))), "quad", "comp", "high")
    entry("Enr3", cname("EnrichedElement", C("CG1T"), C("B3T"), C("FB3T")), "tri", "comp")
    entry("EnrEnr", cname("EnrichedElement", cname("EnrichedElement", C("CG1I"), C("B2I")), C("B3I")), "int", "comp")
    entry("NEnr3", cname("NodalEnrichedElement", C("CG1T"), C("FB3T"), C("B3T")), "tri", "comp", "nodal")
    entry("RstN1S", cname("RestrictedElement", C("N11Sp"), restriction_domain="edge"), "tet", "comp", "nodal", "sub", "vec")
    entry("RstN1f", cname("RestrictedElement", C("N12Tp"), restriction_domain="facet"), "tri", "comp", "nodal", "sub", "vec")
    entry("RstRst", cname("RestrictedElement", cname("RestrictedElement", C("CG3T"), restriction_domain="facet"), {"l": [0, 3, 4, 7]}), "tri", "comp", "nodal", "sub")
    entry("DiscHHJ", cname("DiscontinuousElement", C("HHJ1")), "tri", "comp", "nodal", "disc")
    entry("DiscDisc", cname("DiscontinuousElement", cname("DiscontinuousElement", C("CG2T"))), "tri", "comp", "disc")
    entry("MixS", cname("MixedElement", {"l": [C("CG2S"), C("CG1S")]}), "tet", "comp", "mix")
    entry("MixMix", cname("MixedElement", {"l": [cname("MixedElement", {"l": [C("CG1T"), C("DG0T")]}), C("CG2T")]}), "tri", "comp", "mix")
    entry("MixVV", cname("MixedElement", {"l": [C("RT1Tp"), C("N11Tp")]}), "tri", "comp", "mix", "vec")
    entry("FlRTCF", fl(C("RTCF")), "quad", "comp", "vec")
    entry("FlEnr", fl(cname("EnrichedElement", cname("Hcurl", tp(C("CG1I"), C("DG0I"))), cname("Hcurl", tp(C("DG0I"), C("CG1I"))))), "quad", "comp", "vec")
    entry("RstTPf", cname("RestrictedElement", C("RT3Tp"), restriction_domain="facet"), "tri", "comp", "nodal", "sub", "vec", "slow")
    entry("QuadT", cname("QuadratureElement", T, {"m": "get_points", "of": cname("create_quadrature", T, 2)}), "tri", "qel")
    entry("QuadI", cname("QuadratureElement", I, {"m": "get_points", "of": cname("create_quadrature", I, 3)}), "int", "qel")


_catalogue()

# objects that are not elements
RULES = {}
for _n, _c in (("I", I), ("T", T), ("S", S), ("DT", DT), ("T2", T2), ("IT", IT), ("Q", Q), ("QTP", QTP), ("WTP", WTP), ("H", H), ("DI", DI), ("I2", I2)):
    for _d in (1, 2, 3, 5) if _n in ("I", "T", "Q") else (1, 3):
        RULES["cq%s%d" % (_n, _d)] = cname("create_quadrature", _c, _d)
    RULES["cc%s" % _n] = cname("create_quadrature", _c, 2, "canonical")
for _n, _c in (("I", I), ("T", T), ("S", S), ("I2", I2), ("T2", T2), ("DS", DS)):
    for _m in (1, 2, 3):
        RULES["mq%s%d" % (_n, _m)] = cname("make_quadrature", _c, _m)
for _m in (2, 3, 4):
    RULES["gll%d" % _m] = cname("GaussLobattoLegendreQuadratureLineRule", I, _m)
    RULES["gl%d" % _m] = cname("GaussLegendreQuadratureLineRule", I, _m)
    RULES["gr%d" % _m] = cname("RadauQuadratureLineRule", I, _m)
    RULES["grl%d" % _m] = cname("RadauQuadratureLineRule", I, _m, False)
RULES["cqT6"] = cname("create_quadrature", T, 6)
RULES["cqS4"] = cname("create_quadrature", S, 4)
for _n, _c, _ds in (("I", I, (9, 16)), ("T", T, (8, 10, 13)), ("S", S, (6, 8)), ("Q", Q, (7,)), ("DT", DT, (6,))):
    for _d in _ds:
        RULES["cq%s%d" % (_n, _d)] = cname("create_quadrature", _c, _d)
RULES["ccT10"] = cname("create_quadrature", T, 9, "canonical")
for _n, _c, _m in (("I", I, 7), ("T", T, 6), ("S", S, 5), ("DT", DT, 3)):
    RULES["mq%s%d" % (_n, _m)] = cname("make_quadrature", _c, _m)
RULES["gll7"] = cname("GaussLobattoLegendreQuadratureLineRule", I, 7)
RULES["gl7"] = cname("GaussLegendreQuadratureLineRule", I, 7)
RULES["gr6"] = cname("RadauQuadratureLineRule", I, 6)
RULES["gl5D"] = cname("GaussLegendreQuadratureLineRule", DI, 5)
RULES["gjlDI4"] = cname("GaussJacobiQuadratureLineRule", DI, 4)
RULES["gjlI3"] = cname("GaussJacobiQuadratureLineRule", I, 3)
RULES["clT3"] = cname("CollapsedQuadratureTriangleRule", T, 3)
RULES["clS2"] = cname("CollapsedQuadratureTetrahedronRule", S, 2)
RULES["kmvT4"] = cname("create_quadrature", T, 4, "KMV")
RULES["kmvT1"] = cname("create_quadrature", T, 1, "KMV")
RULES["kmvT2"] = cname("create_quadrature", T, 2, "KMV")
RULES["kmvT3"] = cname("create_quadrature", T, 3, "KMV")
RULES["kmvS1"] = cname("create_quadrature", S, 1, "KMV")
RULES["kmvS2"] = cname("create_quadrature", S, 2, "KMV")
RULES["face0"] = cname("UFCTetrahedronFaceQuadratureRule", 0, 2)
RULES["face3"] = cname("UFCTetrahedronFaceQuadratureRule", 3, 2)
RULES["cqWTP12"] = cname("create_quadrature", WTP, {"t": [1, 2]})
RULE_KIND = {}
for _k in RULES:
    for _p, _kd in (("T2", "tri"), ("DT", "tri"), ("IT", "tri"), ("I2", "int"), ("DI", "int"), ("DS", "tet"), ("QTP", "tp2"), ("WTP", "tp21"),
                    ("Q", "quad"), ("H", "hex"), ("S", "tet"), ("T", "tri"), ("I", "int")):
        if _p in _k[2:]:
            RULE_KIND[_k] = _kd
            break
    else:
        RULE_KIND[_k] = "tet" if _k.startswith("face") else "int"

CELLS = {"I": (I, "int"), "T": (T, "tri"), "S": (S, "tet"), "DI": (DI, "int"), "DT": (DT, "tri"), "DS": (DS, "tet"),
         "IT": (IT, "tri"), "IS": (IS, "tet"), "Q": (Q, "quad"), "H": (H, "hex"), "QTP": (QTP, "tp2"),
         "WTP": (WTP, "tp21"), "HTP": (HTP, "tp3"), "I2": (I2, "int"), "T2": (T2, "tri"), "T3": (T3, "tri"),
         "S2": (S2, "tet"), "DT2": (DT2, "tri"), "T4": (T4, "tri"), "T5": (T5, "tri"), "S3": (S3, "tet"), "I3": (I3, "int"), "S4": (S4, "tet")}

EXPANSIONS = {"exI": (cname("get_expansion_set", I), "int"), "exT": (cname("get_expansion_set", T), "tri"),
              "exS": (cname("get_expansion_set", S), "tet"), "exT2": (cname("get_expansion_set", T2), "tri"),
              "exDI": (cname("get_expansion_set", DI), "int"), "exDT": (cname("get_expansion_set", DT), "tri")}

POLYSETS = {"onI3": (cname("ONPolynomialSet", I, 3), "int"), "onT2": (cname("ONPolynomialSet", T, 2), "tri"),
            "onT2v": (cname("ONPolynomialSet", T, 2, {"t": [2]}), "tri"), "onS1": (cname("ONPolynomialSet", S, 1), "tet"),
            "onS1v": (cname("ONPolynomialSet", S, 1, {"t": [3]}), "tet"), "onT2g": (cname("ONPolynomialSet", T2, 2), "tri"),
            "symT1": (cname("ONSymTensorPolynomialSet", T, 1), "tri"), "onT3": (cname("ONPolynomialSet", T, 3), "tri"),
            "onT0": (cname("ONPolynomialSet", T, 0), "tri")}

# --------------------------------------------------------------------------
# operations
# --------------------------------------------------------------------------
# {"o": kind, "x": object name, ...}; executed by OPS[kind](obj, op, args) where args are the
# caller-owned argument objects made by op_args (so that they can be watched).


def poly(coefs, sd):
    """A caller's function: a fixed polynomial in the coordinates (which may be symbolic)."""
    def f(x):
        s = coefs[0]
        for i in range(sd):
            xi = x[i]
            s = s + coefs[(i + 1) % len(coefs)] * xi + coefs[(i + 2) % len(coefs)] * xi * xi
        return s
    return f


def caller_fn(op):
    """The caller's function of a call, scalar or (`vec`) vector valued."""
    if not op.get("vec"):
        return poly(op["coefs"], op["sd"])
    fs = [poly(op["coefs"][i % 3:] + op["coefs"][:i % 3], op["sd"]) for i in range(op["vec"])]
    return lambda x: np.array([f(x) for f in fs])


def op_args(op, bufs=None):
    a = {}
    if "pts" in op:
        a["pts"] = make_points(op["pts"])
        if bufs is not None and op.get("buf"):
            a["pts"] = refill(bufs, op["buf"], a["pts"])
    if "arr" in op:
        a["arr"] = [(np.array(x, dtype=float) if not op.get("aslist") else copy.deepcopy(x)) for x in op["arr"]]
    for f in ("idx", "al"):
        if f in op:
            a[f] = {"list": list, "tuple": tuple, "array": lambda v: np.array(v, dtype=int)}[op.get("idxas", "list")](op[f])
    if "ids" in op:
        a["ids"] = intkeys(op["ids"])
    if "ptd" in op:
        a["ptd"] = {tuple(p): [tuple(map(tup, w)) for w in ws] for p, ws in op["ptd"]}
    if "dptd" in op:
        a["dptd"] = {tuple(p): [tuple(map(tup, w)) for w in ws] for p, ws in op["dptd"]}
    return a


def intkeys(d):
    """JSON turned the integer keys of a table into strings."""
    if isinstance(d, dict):
        return {int(k): intkeys(v) for k, v in d.items()}
    return list(d)


def refill(bufs, name, new):
    """A caller who keeps one buffer and fills it anew for each call."""
    name = (name, str(getattr(new, "dtype", "")))
    old = bufs.get(name)
    if isinstance(new, np.ndarray) and isinstance(old, np.ndarray) and old.shape == new.shape and old.flags.writeable:
        old[...] = new
        return old
    if type(new) is list and type(old) is list and len(old) == len(new) and new and type(old[0]) is type(new[0]):
        for i, q in enumerate(new):
            if isinstance(q, np.ndarray) and q.shape == old[i].shape:
                old[i][...] = q
            elif type(q) is list and len(q) == len(old[i]):
                old[i][:] = q
            else:
                old[i] = q
        return old
    bufs[name] = new
    return new


def _ent(op):
    e = op.get("entity")
    return None if e is None else tup(e)


def o_tab(x, op, a):
    e = _ent(op)
    if e is None:
        return x.tabulate(op["order"], a["pts"])
    return x.tabulate(op["order"], a["pts"], e)


def o_meta(x, op, a):
    out = {}
    for n in ("space_dimension", "value_shape", "degree", "get_order", "mapping", "get_formdegree",
              "num_sub_elements", "is_nodal", "entity_dofs", "entity_closure_dofs"):
        try:
            out[n] = copy.deepcopy(getattr(x, n)())
        except (NotImplementedError, TypeError, AttributeError) as e:
            out[n] = "!" + type(e).__name__
    return out


def o_coeffs(x, op, a):
    return {"c": x.get_coeffs(), "d": x.dmats()}


def o_support(x, op, a):
    return copy.deepcopy(boot.REGISTRY["entity_support_dofs"](x, tup(op["dim"])))


def o_closure(x, op, a):
    return boot.REGISTRY["make_entity_closure_ids"](x.get_reference_element(), x.entity_dofs())


def o_nodes(x, op, a):
    return [n for n in x.dual_basis()]


def o_riesz(x, op, a):
    return x.get_dual_set().to_riesz(x.get_nodal_basis())


def o_noderiesz(x, op, a):
    nb = x.dual_basis()
    return nb[op["i"] % len(nb)].to_riesz(x.get_nodal_basis())


def o_nbtab(x, op, a):
    return x.get_nodal_basis().tabulate(a["pts"], op["order"])


def o_nbnew(x, op, a):
    return x.get_nodal_basis().tabulate_new(a["pts"])


def o_nbtake(x, op, a):
    n = x.space_dimension()
    return x.get_nodal_basis().take(a["idx"] if max(a["idx"]) < n else [i % n for i in a["idx"]])


def o_extab(x, op, a):
    return x.tabulate(op["n"], a["pts"])


def o_exder(x, op, a):
    return x.tabulate_derivatives(op["n"], a["pts"])


def o_exjet(x, op, a):
    return x.tabulate_jet(op["n"], a["pts"], op["order"])


def o_pstab(x, op, a):
    return x.tabulate(a["pts"], op["order"])


def o_pstake(x, op, a):
    n = x.get_num_members()
    return x.take(a["idx"] if max(a["idx"]) < n else [i % n for i in a["idx"]])


def o_psmeta(x, op, a):
    return [x.get_coeffs(), x.get_dmats(), x.get_degree(), x.get_embedded_degree(), x.get_num_members(), x.get_shape()]


def o_union(x, op, a):
    # singular vectors are fixed only up to rotation: compare the projector on the span
    u = boot.REGISTRY["polynomial_set_union_normalized"](x, x.take([0]))
    c = u.get_coeffs().reshape(u.get_coeffs().shape[0], -1)
    return c.T.dot(c)


def o_project(x, op, a):
    rule = boot.REGISTRY["make_quadrature"](x.get_reference_element(), 3)
    return boot.REGISTRY["project"](a.get("f") or caller_fn(op), x, rule)


def o_points(x, op, a):
    return x.get_points()


def o_weights(x, op, a):
    return x.get_weights()


def o_integrate(x, op, a):
    return x.integrate(a.get("f") or caller_fn(op))


def o_rule(x, op, a):
    return [x.get_points(), x.get_weights()]


def o_call(x, op, a):
    """Evaluate a point-evaluation functional of an element on the caller's function."""
    nb = x.dual_basis()
    n = nb[op["i"] % len(nb)]
    return n(a.get("f") or caller_fn(op))


def _m(name, *fields):
    def f(x, op, a):
        return getattr(x, name)(*[tup(op[q]) for q in fields])
    return f


HANDED = None        # transforms handed out in this run, to be applied again at its end


def o_celltrans(x, op, a):
    t = x.get_entity_transform(tup(op["dim"]), op["i"])
    if HANDED is None or len(HANDED) > 60 or "id" not in op:
        return [np.array(t(p), dtype=float) for p in a["pts"]]
    seen, res = [], []
    for p in a["pts"]:
        seen.append(copy.deepcopy(p))
        res.append(np.array(t(p), dtype=float))
    HANDED.append((op, t, seen, copy.deepcopy(res)))
    return res


def o_cellinfo(x, op, a):
    return [x.get_shape(), x.get_vertices(), x.get_topology(), x.get_spatial_dimension(), tup(x.get_dimension()),
            x.get_connectivity() if hasattr(x, "connectivity") else None]


def o_contains(x, op, a):
    return [bool(x.contains_point(p, 1e-12)) for p in a["pts"]]


def o_subel(x, op, a):
    c = x.construct_subelement(tup(op["dim"]))
    return [type(c).__name__, c.get_vertices(), c.get_topology()]


def o_fun(x, op, a):
    """Module-level functions on caller arrays."""
    R = boot.REGISTRY
    n = op["fn"]
    A = a.get("arr")
    if n == "jacobi":
        return R["eval_jacobi_batch"](op["a"], op["b"], op["n"], A[0])
    if n == "jacobid":
        return R["eval_jacobi_deriv_batch"](op["a"], op["b"], op["n"], A[0])
    if n == "jacobi1":
        return [R["eval_jacobi"](op["a"], op["b"], op["n"], float(x)) for x in A[0].ravel()]
    if n == "gjrule":
        return R["compute_gauss_jacobi_rule"](op["a"], op["b"], op["n"])
    if n == "affine":
        return R["make_affine_mapping"](A[0], A[1])
    if n == "lattice":
        return R["make_lattice"](A[0], op["n"], op["a"])
    if n == "mis":
        return R["mis"](op["a"], op["n"])
    if n == "bary":
        return R["barycentric_interpolation"](A[0], A[1], op["n"])
    if n == "lobatto":
        al, be = R["rec_jacobi"](op["n"], 0, 0)
        return R["lobatto"](al, be, -1.0, 1.0)
    if n == "gauss":
        al, be = R["rec_jacobi"](op["n"], op["a"], op["b"])
        return R["gauss"](al, be)
    if n == "rec01":
        return R["rec_jacobi01"](op["n"], op["a"], op["b"])
    if n == "fmp":
        return R["form_matrix_product"](A[:2], (op["a"], op["b"]))
    if n == "volume":
        return R["volume"]([tuple(v) for v in A[0]])
    if n == "opjac":
        return R["jacobi"](op["n"], op["a"], op["b"], A[0].ravel())
    if n == "opjacd":
        return R["jacobiD"](op["n"], op["a"], op["b"], A[0].ravel())
    if n == "baryc":
        return R["barycentric_coordinates"](A[0], A[1])
    if n == "ptdual":
        e = R["Lagrange"](R["UFCTriangle"](), op["n"])
        return R["compute_pointwise_dual"](e, [tuple(p) for p in A[0]])
    if n == "moment":
        return moment(op, A, a)
    if n == "qrule":
        rule = R["QuadratureRule"](build(op["cell"]), A[0], A[1])
        return [rule.integrate(poly([0.5, -1.0, 0.25], len(A[0][0]))), rule.get_points(), rule.get_weights()]
    if n == "polyset":
        cell = build(op["cell"])
        es = R["get_expansion_set"](cell)
        on = R["ONPolynomialSet"](cell, op["n"])
        ps = R["PolynomialSet"](cell, op["n"], op["n"], es, A[0], on.get_dmats())
        return [ps.tabulate([tuple(p) for p in A[1]], 1), ps.tabulate_new([tuple(p) for p in A[1]]), ps.take([1, 0])]
    if n == "span":
        # the intersection of two spans: compare the projector on it
        U = R["linalg_subspace_intersection"](A[0], A[1])
        return U.dot(U.T)
    if n == "usercell":
        # a cell of the caller's own, numbered as the caller likes
        c = R["UFCSimplex"](len(A[0]) - 1, [tuple(v) for v in A[0]], a["ids"])
        d = 4 - len(A[0]) + 1
        rule = R["make_quadrature"](c, 2)
        return [c.get_vertices(), copy.deepcopy(c.get_topology()), copy.deepcopy(c.sub_entities), c.get_connectivity(), c.volume(),
                [c.compute_edge_tangent(e) for e in sorted(c.get_topology()[1])],
                [c.make_points(k, e, 3) for k in sorted(c.get_topology()) for e in sorted(c.get_topology()[k])],
                [np.array(c.get_entity_transform(1, e)([0.25]), dtype=float) for e in sorted(c.get_topology()[1])],
                R["ONPolynomialSet"](c, 2).tabulate([tuple(p) for p in A[1]], 1), rule.get_points(), rule.get_weights(),
                R["Lagrange"](c, d).tabulate(1, A[1])]
    if n == "dualset":
        cell = build(op["cell"])
        nodes = [R["PointEvaluation"](cell, tuple(p)) for p in A[0]]
        dual = R["DualSet"](nodes, cell, a["ids"])
        on = R["ONPolynomialSet"](cell, 1)
        el = R["CiarletElement"](on, dual, 1)
        return [dual.to_riesz(on), dual.get_entity_closure_ids(), el.tabulate(1, A[1]), el.entity_dofs(), el.entity_closure_dofs()]
    if n == "genfn":
        cell = build(op["cell"])
        f = R["Functional"](cell, (), a["ptd"], a.get("dptd", {}), "user")
        return [f, f.to_riesz(R["ONPolynomialSet"](cell, op["n"]))]
    if n == "fmap":
        return R["map_to_reference_facet"](A[0], A[1], op["n"])
    if n == "frfmap":
        return R["map_from_reference_facet"](A[0], A[1])
    if n == "ufacet":
        return R["extract_unique_facet"](A[0])
    if n == "bernb":
        return R["bernstein_db"](A[0], a["idx"], a["al"])
    if n == "bernx":
        return R["bernstein_Dx"](A[0], a["idx"], op["n"], A[1])
    if n == "modcheb":
        return R["mod_chebyshev"](op["n"], A[0], A[1], A[2])
    if n == "polyval":
        return R["polyval"](A[0], A[1], A[2])
    if n == "gauss2":
        return R["gauss"](A[0], A[1])
    if n == "lobatto2":
        return R["lobatto"](A[0], A[1], -1.0, 1.0)
    if n == "jaclog":
        return R["rec_jaclog"](op["n"], op["a"])
    if n == "restrict":
        e = R["RestrictedElement"](R["Lagrange"](R["UFCTriangle"](), op["n"]), indices=a["idx"])
        return [e.tabulate(1, A[0]), e.entity_dofs()]
    if n == "qel":
        e = R["QuadratureElement"](R["UFCTriangle"](), A[0], A[1])
        return [e.tabulate(0, A[0]), e.entity_dofs(), [list(x.pt_dict) for x in e.dual_basis()]]
    if n == "mix":
        c = R["UFCTriangle"]()
        return R["concatenate_entity_dofs"](c, [R["Lagrange"](c, op["n"]), R["DiscontinuousLagrange"](c, op["a"])])
    if n == "flatent":
        return R["flatten_entities"](boot.REGISTRY["TensorProductCell"](R["UFCInterval"](), R["UFCInterval"]()).get_topology())
    if n == "unflat":
        return R["compute_unflattening_map"](boot.REGISTRY["TensorProductCell"](R["UFCInterval"](), R["UFCInterval"]()).get_topology())
    if n == "cellof":
        return R["ufc_cell"](("interval", "triangle", "tetrahedron", "quadrilateral", "hexahedron", "interval * interval")[op["n"]])
    if n == "tfq":
        r = R["UFCTetrahedronFaceQuadratureRule"](op["a"], op["n"])
        return [r.get_points(), r.get_weights(), r.jacobian()]
    if n == "tpq":
        i = R["UFCInterval"]()
        return R["make_tensor_product_quadrature"](*map(a.get("q") or (lambda q: q), (R["make_quadrature"](i, op["n"]), R["make_quadrature"](i, op["a"]))))
    if n == "polydim":
        return [R["polynomial_dimension"](R["ufc_simplex"](d), op["n"]) for d in (1, 2, 3)]
    if n == "xi":
        return [R["xi_triangle"](A[0]), R["xi_tetrahedron"](A[1])]
    if n == "jacd1":
        return [R["eval_jacobi_deriv"](op["a"], op["b"], op["n"], float(x)) for x in A[0].ravel()]
    if n == "gjpts":
        return R["compute_gauss_jacobi_points"](op["a"], op["b"], op["n"])
    if n == "defsimp":
        c = R["default_simplex"](op["n"])
        return [type(c).__name__, c.get_vertices(), c.get_topology(), c.make_points(op["n"], 0, op["n"] + 2)]
    if n == "cube":
        t = R["TensorProductCell"](*[R["UFCInterval"]()] * op["n"])
        c = R["flatten_reference_cube"](t)
        return [R["is_hypercube"](t), R["is_hypercube"](R["UFCTriangle"]()), type(c).__name__, c.get_topology(), c.get_vertices()]
    if n == "latiter":
        return [list(map(list, R["lattice_iter"](op["a"], op["n"], d))) for d in (1, 2, 3)]
    if n == "mmlog":
        return R["mm_log"](op["n"], op["a"])
    if n == "known":
        import FIAT
        return [sorted((k, v.__name__) for k, v in getattr(FIAT, t).items()) for t in ("supported_elements", "extra_elements")]
    if n == "fmt":
        return list(R["check_format_variant"](("integral", "integral(3)", "point")[op["a"]], op["n"], "RaviartThomas"))
    raise KeyError(n)


def moment(op, A, a):
    """A functional constructed from caller-owned weights."""
    R = boot.REGISTRY
    cell = build(op["cell"])
    F = R[op["cls"]]
    sd = cell.get_spatial_dimension()
    facet = op.get("facet")
    Q = R["make_quadrature"](cell if facet is None else R["ufc_simplex"](op.get("fdim", sd - 1)), op["n"])
    if "q" in a:
        Q = a["q"](Q)
    if op["cls"] == "PointwiseInnerProductEvaluation":
        f = F(cell, A[0], A[1], tuple(op["pt"]))
    elif op["cls"] in ("IntegralMomentOfNormalDerivative",):
        f = F(cell, facet, Q, A[0])
    elif facet is not None:
        f = F(cell, Q, A[0], facet)
    elif "comp" in op:
        f = F(cell, Q, A[0], comp=tup(op["comp"]), shp=(sd,))
    else:
        f = F(cell, Q, A[0])
    out = [f]
    if op.get("riesz"):
        shape = {"s": (), "v": (sd,)}[op["riesz"]]
        out.append(f.to_riesz(R["ONPolynomialSet"](cell, 2, shape)))
    return out


MOMENTS = [
    {"cls": "IntegralMoment", "cell": T, "n": 2, "arr": [(4,)], "riesz": "s"},
    {"cls": "IntegralMoment", "cell": T, "n": 2, "arr": [(4,)], "comp": [1], "riesz": "v"},
    {"cls": "IntegralMoment", "cell": I, "n": 3, "arr": [(3,)], "riesz": "s"},
    {"cls": "FrobeniusIntegralMoment", "cell": T, "n": 2, "arr": [(2, 4)], "riesz": "v"},
    {"cls": "FrobeniusIntegralMoment", "cell": T, "n": 2, "arr": [(2, 2, 4)]},
    {"cls": "IntegralMomentOfDivergence", "cell": T, "n": 2, "arr": [(4,)]},
    {"cls": "IntegralMomentOfTensorDivergence", "cell": T, "n": 2, "arr": [(2, 4)]},
    {"cls": "IntegralMomentOfNormalDerivative", "cell": T, "n": 2, "facet": 1, "arr": [(2,)], "riesz": "s"},
    {"cls": "IntegralMomentOfEdgeTangentEvaluation", "cell": T, "n": 3, "facet": 2, "arr": [(3,)], "riesz": "v"},
    {"cls": "IntegralMomentOfEdgeTangentEvaluation", "cell": S, "n": 2, "facet": 4, "fdim": 1, "arr": [(2,)], "riesz": "v"},
    {"cls": "IntegralMomentOfScaledNormalEvaluation", "cell": T, "n": 3, "facet": 0, "arr": [(3,)], "riesz": "v"},
    {"cls": "IntegralMomentOfNormalEvaluation", "cell": T, "n": 3, "facet": 0, "arr": [(3,)], "riesz": "v"},
    {"cls": "IntegralMomentOfTangentialEvaluation", "cell": T, "n": 3, "facet": 1, "arr": [(3,)], "riesz": "v"},
    {"cls": "IntegralMomentOfNormalNormalEvaluation", "cell": T, "n": 3, "facet": 1, "arr": [(3,)], "riesz": "v"},
    {"cls": "IntegralMomentOfFaceTangentEvaluation", "cell": S, "n": 2, "facet": 1, "arr": [(3, 4)], "riesz": "v"},
    {"cls": "MonkIntegralMoment", "cell": S, "n": 2, "facet": 3, "arr": [(4, 3)], "riesz": "v"},
    {"cls": "PointwiseInnerProductEvaluation", "cell": T, "n": 1, "arr": [(2,), (2,)], "pt": [0.25, 0.5]},
]


FUNS = [
    {"fn": "jacobi", "a": 0, "b": 0, "n": 4}, {"fn": "jacobi", "a": 1, "b": 0, "n": 4}, {"fn": "jacobi", "a": 0, "b": 0, "n": 2},
    {"fn": "jacobid", "a": 0, "b": 0, "n": 3}, {"fn": "jacobid", "a": 2, "b": 1, "n": 3}, {"fn": "jacobi1", "a": 1, "b": 1, "n": 3},
    {"fn": "gjrule", "a": 0.0, "b": 0.0, "n": 3}, {"fn": "gjrule", "a": 1.0, "b": 0.0, "n": 3}, {"fn": "gjrule", "a": 0.0, "b": 0.0, "n": 5},
    {"fn": "affine", "shape": "aff"}, {"fn": "lattice", "shape": "tri", "n": 3, "a": 0}, {"fn": "lattice", "shape": "tri", "n": 3, "a": 1},
    {"fn": "mis", "a": 2, "n": 3}, {"fn": "mis", "a": 3, "n": 2}, {"fn": "bary", "shape": "two", "n": 0}, {"fn": "bary", "shape": "two", "n": 2},
    {"fn": "lobatto", "n": 4}, {"fn": "lobatto", "n": 5}, {"fn": "gauss", "n": 4, "a": 0, "b": 0}, {"fn": "gauss", "n": 3, "a": 1, "b": 0},
    {"fn": "rec01", "n": 4, "a": 1, "b": 0}, {"fn": "fmp", "shape": "mats", "a": 1, "b": 2}, {"fn": "fmp", "shape": "mats", "a": 2, "b": 0},
    {"fn": "volume", "shape": "tri"}, {"fn": "opjac", "n": 4, "a": 0, "b": 0}, {"fn": "opjacd", "n": 3, "a": 1, "b": 0},
    {"fn": "baryc", "shape": "baryc"}, {"fn": "ptdual", "shape": "pts3", "n": 1},
    {"fn": "qrule", "cell": T, "shape": "rule", "aslist": 1}, {"fn": "qrule", "cell": T, "shape": "rule"},
    {"fn": "polyset", "cell": T, "n": 1, "shape": "coefs"}, {"fn": "polyset", "cell": T2, "n": 1, "shape": "coefs"},
    {"fn": "span", "shape": "span"},
    {"fn": "usercell", "shape": "topo", "n": 2, "aslist": 1}, {"fn": "usercell", "shape": "topo", "n": 3, "aslist": 1},
    {"fn": "usercell", "shape": "topo", "n": 2, "aslist": 1}, {"fn": "dualset", "cell": T, "shape": "dual"}, {"fn": "dualset", "cell": T3, "shape": "dual"},
    {"fn": "genfn", "cell": T, "shape": "ptd", "n": 2}, {"fn": "genfn", "cell": T, "shape": "dptd", "n": 2},
    {"fn": "fmap", "shape": "facet", "n": 0}, {"fn": "frfmap", "shape": "ffacet"}, {"fn": "ufacet", "shape": "bary"},
    {"fn": "bernb", "shape": "bary", "idx": [1, 2, 0], "al": [0, 1, 0]}, {"fn": "bernx", "shape": "bernx", "idx": [1, 1, 1], "n": 1},
    {"fn": "bernx", "shape": "bernx", "idx": [2, 0, 1], "n": 2},
    {"fn": "polyval", "shape": "rec", "aslist": 0}, {"fn": "gauss2", "shape": "rec"}, {"fn": "lobatto2", "shape": "rec"},
    {"fn": "modcheb", "shape": "cheb", "n": 3}, {"fn": "jaclog", "n": 3, "a": 1},
    {"fn": "restrict", "shape": "pts3", "n": 2, "idx": [0, 3, 5]}, {"fn": "restrict", "shape": "pts3", "n": 2, "idx": [4, 1]},
    {"fn": "qel", "shape": "rule", "aslist": 1}, {"fn": "mix", "n": 2, "a": 1}, {"fn": "mix", "n": 1, "a": 0},
    {"fn": "flatent"}, {"fn": "unflat"}, {"fn": "cellof", "n": 1}, {"fn": "cellof", "n": 3}, {"fn": "cellof", "n": 5},
    {"fn": "tfq", "a": 1, "n": 2}, {"fn": "tfq", "a": 2, "n": 1}, {"fn": "tpq", "n": 2, "a": 3}, {"fn": "fmt", "a": 0, "n": 2},
    {"fn": "fmt", "a": 1, "n": 2},
    {"fn": "polydim", "n": 3}, {"fn": "xi", "shape": "xi"}, {"fn": "jacd1", "a": 1, "b": 0, "n": 3}, {"fn": "gjpts", "a": 0, "b": 0, "n": 4},
    {"fn": "gjpts", "a": 1, "b": 0, "n": 6}, {"fn": "defsimp", "n": 2}, {"fn": "defsimp", "n": 3}, {"fn": "cube", "n": 2}, {"fn": "cube", "n": 3},
    {"fn": "latiter", "a": 0, "n": 4}, {"fn": "latiter", "a": 1, "n": 5}, {"fn": "mmlog", "n": 3, "a": 1}, {"fn": "known"},
    {"fn": "gjrule", "a": 0.0, "b": 0.0, "n": 12}, {"fn": "gjrule", "a": 2.0, "b": 0.0, "n": 7}, {"fn": "jacobi", "a": 0, "b": 0, "n": 9},
    {"fn": "jacobid", "a": 1, "b": 0, "n": 8}, {"fn": "gauss", "n": 9, "a": 0, "b": 0}, {"fn": "lobatto", "n": 9},
] + [dict(m, fn="moment", shape="moment") for m in MOMENTS]


RULEFUNS = [i for i, f in enumerate(FUNS) if f["fn"] in ("moment", "tpq") and f.get("cls") != "PointwiseInnerProductEvaluation"]


def fun_op(i, variant):
    """The i-th module-level call with caller arrays no. `variant`."""
    d = dict(FUNS[i % len(FUNS)])
    sh = d.pop("shape", None)
    r = random.Random("fun/%d/%d" % (i % len(FUNS), variant))
    u = lambda *s: np.round(np.array([r.uniform(-0.9, 0.9) for _ in range(int(np.prod(s)))]).reshape(s), 5).tolist()
    if sh == "aff":
        d["arr"] = [[[0.0, 0.0], [1.0, 0.0], [0.0, 1.0]], (np.array([[0, 0], [1, .1], [.2, 1.3]]) + 0.1 * variant).tolist()]
    elif sh == "tri":
        d["arr"] = [(np.array([[0, 0], [1, .1], [.2, 1.3]]) * (1 + variant)).tolist()]
    elif sh == "two":
        d["arr"] = [[-0.9 + 0.05 * variant, -0.1, 0.3, 0.8], u(2) + [0.3]]
    elif sh == "xi":
        d["arr"] = [u(2), u(3)]
    elif sh == "mats":
        d["arr"] = [u(3, 3), u(3, 3)]
    elif sh == "baryc":
        d["arr"] = [np.abs(u(3, 2)).tolist(), [[0.0, 0.0], [1.0, 0.0], [0.0, 1.0]]]
    elif sh == "rule":
        d["arr"] = [np.abs(u(3, 2)).tolist(), np.abs(u(3)).tolist()]
    elif sh == "coefs":
        d["arr"] = [u(2, 3), np.abs(u(2, 2)).tolist()]
    elif sh == "span":
        a, b, c = u(4), u(4), u(4)
        d["arr"] = [np.array([a, b]).T.tolist(), np.array([b, c]).T.tolist()]
    elif sh == "topo":
        k = d["n"]
        verts = [[0.0] * k] + [[float(i == j) for j in range(k)] for i in range(k)]
        d["arr"] = [[[round(x + 0.2 * y, 3) for x, y in zip(v, u(k))] for v in verts], [[round(0.1 + 0.2 * abs(x), 3) for x in u(k)] for _ in range(2)]]
        d["ids"] = {}
        for m in range(k + 1):
            subs = [list(c) for c in itertools.combinations(range(k + 1), m + 1)]
            if 0 < m < k:
                r.shuffle(subs)
                for c in subs:
                    r.shuffle(c)
            d["ids"][str(m)] = {str(i): c for i, c in enumerate(subs)}
    elif sh == "dual":
        d["arr"] = [[[0.1 + 0.02 * variant, 0.2], [0.7, 0.1], [0.15, 0.75]], np.abs(u(2, 2)).tolist()]
        ids = {"0": {"0": [], "1": [], "2": []}, "1": {"0": [], "1": [], "2": []}, "2": {"0": []}}
        ents = [ids[a][b] for a in ids for b in ids[a]]
        at = r.sample(range(len(ents)), r.choice((1, 1, 2, 3)))
        for i in r.sample(range(3), 3):
            ents[r.choice(at)].append(i)
        d["ids"] = ids
    elif sh == "ptd":
        d["ptd"] = [[u(2), [[0.5 + variant, []], [0.25, []]]], [u(2), [[1.5, []]]]]
    elif sh == "dptd":
        d["ptd"] = [[u(2), [[0.5 + variant, []]]]]
        d["dptd"] = [[u(2), [[0.75, [1, 0], []], [0.5, [0, 1], []]]], [u(2), [[-1.0, [0, 1], []]]]]
    elif sh == "facet":
        d["arr"] = [[[1.0 - t, t] for t in np.abs(u(3)).tolist()], [[0.0, 0.0], [1.0, 0.0], [0.0, 1.0]]]
    elif sh == "ffacet":
        d["arr"] = [[0.25 + 0.125 * variant], [[1.0, 0.25], [0.0, 1.0]]]
    elif sh == "bary":
        x = np.abs(u(3, 1))
        d["arr"] = [np.hstack([np.zeros_like(x), x, 1 - x]).tolist()]
    elif sh == "bernx":
        x = np.abs(u(3, 2)) * 0.5
        d["arr"] = [np.hstack([x, 1 - x.sum(axis=1, keepdims=True)]).tolist(), [[-1.0, -1.0], [1.0, 0.0], [0.0, 1.0]]]
    elif sh == "rec":
        d["arr"] = [[0.1 * variant, 0.05, -0.02, 0.01], [2.0, 0.33, 0.27, 0.25], u(4)]
        if d["fn"] == "polyval":
            d["arr"][2] = [0.1, 0.2, 0.3]
    elif sh == "cheb":
        d["arr"] = [[1.0, 0.1 + 0.05 * variant, 0.3, 0.02, 0.1, 0.01], [0.0] * 6, [1.0, 0.33, 0.26, 0.25, 0.25, 0.25]]
    elif sh == "moment":
        d["arr"] = [u(*q) for q in d["arr"]]
    elif sh == "pts3":
        d["arr"] = [[[0.1 + 0.02 * variant, 0.2], [0.7, 0.1], [0.15, 0.75]]]
    elif d["fn"] not in ("jacobi", "jacobid", "jacobi1", "jacd1", "gjrule", "mis", "lobatto", "gauss", "rec01", "opjac", "opjacd"):
        pass
    else:
        d["arr"] = [u(4, 1)] if d["fn"] in ("jacobi", "jacobid", "jacobi1", "jacd1") else [u(4)]
    d["o"] = "fun"
    return d


OPS = {
    "tab": o_tab, "meta": o_meta, "coeffs": o_coeffs, "support": o_support, "closure": o_closure, "nodes": o_nodes,
    "riesz": o_riesz, "noderiesz": o_noderiesz, "nbtab": o_nbtab, "nbnew": o_nbnew, "nbtake": o_nbtake,
    "extab": o_extab, "exder": o_exder, "exjet": o_exjet, "pstab": o_pstab, "pstake": o_pstake, "psmeta": o_psmeta,
    "union": o_union, "project": o_project, "points": o_points, "weights": o_weights, "integrate": o_integrate,
    "rule": o_rule, "call": o_call, "fun": o_fun,
    "cellinfo": o_cellinfo, "celltrans": o_celltrans, "contains": o_contains, "subel": o_subel,
    "normal": _m("compute_normal", "i"), "snormal": _m("compute_scaled_normal", "i"),
    "rnormal": _m("compute_reference_normal", "dim", "i"), "tangents": _m("compute_tangents", "dim", "i"),
    "ntangents": _m("compute_normalized_tangents", "dim", "i"), "etangent": _m("compute_edge_tangent", "i"),
    "netangent": _m("compute_normalized_edge_tangent", "i"), "ftangents": _m("compute_face_tangents", "i"),
    "fetangents": _m("compute_face_edge_tangents", "dim", "i"), "lattice": _m("make_points", "dim", "i", "n"),
    "volume": _m("volume"), "subvolume": _m("volume_of_subcomplex", "dim", "i"),
}


def build_digest(x):
    """Everything observable about a freshly built object, as one result."""
    R = boot.REGISTRY
    if isinstance(x, R["QuadratureRule"]):
        return [x.get_points(), x.get_weights()]
    if isinstance(x, R["PolynomialSet"]):
        return o_psmeta(x, None, None)
    if isinstance(x, R["Cell"]):
        return [x.get_vertices(), x.get_topology(), x.get_spatial_dimension()]
    if hasattr(x, "tabulate") and hasattr(x, "entity_dofs"):
        out = {"meta": o_meta(x, None, None)}
        try:
            out["nodes"] = list(x.dual_basis())
        except (AttributeError, NotImplementedError) as e:
            out["nodes"] = "!" + type(e).__name__
        try:
            out["coeffs"] = o_coeffs(x, None, None)
        except (AttributeError, NotImplementedError) as e:
            out["coeffs"] = "!" + type(e).__name__
        return out
    if isinstance(x, tuple):
        return list(x)
    if hasattr(x, "tabulate"):
        return type(x).__name__
    return x


# --------------------------------------------------------------------------
# normalisation and comparison
# --------------------------------------------------------------------------

def norm(v, depth=0):
    R = boot.REGISTRY
    if v is None or isinstance(v, (str, bool)):
        return v
    if isinstance(v, (int, float, np.integer, np.floating)):
        return float(v)
    if isinstance(v, np.bool_):
        return bool(v)
    if isinstance(v, (complex, np.complexfloating)):
        return [float(v.real), float(v.imag)]
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            try:
                return np.array(v, dtype=float)
            except (TypeError, ValueError):
                return norm(v.tolist(), depth + 1)
        if v.dtype.kind in "fiu":
            return np.array(v, dtype=float)
        if v.dtype.kind == "b":
            return np.array(v, dtype=float)
        return norm(v.tolist(), depth + 1)
    if isinstance(v, dict):
        return {"keys": [repr(norm_key(k)) for k in v], "map": {repr(norm_key(k)): norm(x, depth + 1) for k, x in v.items()}}
    if isinstance(v, (list, tuple)):
        return [norm(x, depth + 1) for x in v]
    if isinstance(v, (set, frozenset)):
        return sorted(repr(norm_key(x)) for x in v)
    if isinstance(v, BaseException):
        return ["exc", type(v).__name__]
    if isinstance(v, R["Functional"]):
        return ["functional", type(v).__name__, norm(v.target_shape), ptd(v.pt_dict), ptd(v.deriv_dict)]
    if isinstance(v, R["PolynomialSet"]):
        return ["polyset", norm(v.get_coeffs()), norm(v.get_dmats()), v.get_degree(), v.get_embedded_degree()]
    if isinstance(v, R["QuadratureRule"]):
        return ["rule", norm(v.get_points()), norm(v.get_weights())]
    if isinstance(v, R["Cell"]):
        return ["cell", type(v).__name__, norm(v.get_vertices()), norm(v.get_topology())]
    return ["obj", type(v).__name__]


def ptd(d):
    """Point dictionaries: floating-point keys become values."""
    if not d:
        return []
    return [[norm(np.array(k, dtype=float)), norm([list(map(lambda z: list(z) if isinstance(z, tuple) else z, w)) for w in v])]
            for k, v in d.items()]


def norm_key(k):
    if isinstance(k, tuple):
        return tuple(norm_key(x) for x in k)
    if isinstance(k, (np.integer, int)) and not isinstance(k, bool):
        return int(k)
    if isinstance(k, (float, np.floating)):
        return float("%.9g" % float(k))
    return str(k)


RTOL = 1e-9


def single(op):
    """Whether single precision numbers are among the arguments."""
    if isinstance(op, dict):
        return op.get("as") == "f32" or any(single(v) for v in op.values())
    return isinstance(op, (list, tuple)) and any(single(v) for v in op)


def differs(a, b, path="", rtol=None):
    """None if equal up to rounding, else a short description."""
    rtol = rtol or RTOL
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            # a list of numbers and an array with the same content are the same table
            try:
                a2, b2 = np.array(a, dtype=float), np.array(b, dtype=float)
            except (TypeError, ValueError):
                return "%s: %s instead of %s" % (path, short(b), short(a))
            return differs(a2, b2, path, rtol)
        if a.shape != b.shape:
            return "%s: shape %s instead of %s" % (path, b.shape, a.shape)
        if a.size == 0:
            return None
        na, nb = np.isnan(a), np.isnan(b)
        if (na != nb).any():
            return "%s: NaN pattern differs" % path
        aa, bb = np.where(na, 0.0, a), np.where(nb, 0.0, b)
        fin = np.isfinite(aa)
        if (fin != np.isfinite(bb)).any():
            return "%s: infinities differ" % path
        aa, bb = np.where(fin, aa, 0.0), np.where(fin, bb, 0.0)
        scale = max(1.0, float(np.abs(aa).max()))
        d = np.abs(aa - bb)
        if float(d.max()) > rtol * scale:
            i = int(d.argmax())
            return "%s[%d]: %.12g instead of %.12g" % (path, i, bb.ravel()[i], aa.ravel()[i])
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        if "map" in a and "keys" in a and "map" in b:
            a, b = a["map"], b["map"]
        if set(a) != set(b):
            return "%s: keys %s instead of %s" % (path, short(sorted(b)), short(sorted(a)))
        for k in a:
            d = differs(a[k], b[k], path + "/" + str(k), rtol)
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return "%s: length %d instead of %d" % (path, len(b), len(a))
        for i, (x, y) in enumerate(zip(a, b)):
            d = differs(x, y, "%s[%d]" % (path, i), rtol)
            if d:
                return d
        return None
    if isinstance(a, float) and isinstance(b, float):
        if a == b or (a != a and b != b) or abs(a - b) <= rtol * max(1.0, abs(a)):
            return None
        return "%s: %.12g instead of %.12g" % (path, b, a)
    if type(a) is type(b) and a == b:
        return None
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and float(a) == float(b):
        return None
    return "%s: %s instead of %s" % (path, short(b), short(a))


def short(x):
    s = repr(x)
    return s if len(s) < 120 else s[:117] + "..."


class Outcome:
    """What a caller saw: a value or an exception type."""
    __slots__ = ("ok", "val", "exc", "msg", "injected")

    def __init__(self, ok, val=None, exc=None, msg="", injected=False):
        self.ok, self.val, self.exc, self.msg, self.injected = ok, val, exc, msg, injected

    def diff(self, other, op=None):
        """other against self (the reference)."""
        if self.ok and other.ok:
            # single precision points: the order of the roundings is nobody's promise
            return differs(self.val, other.val, rtol=1e-3 if single(op) else None)
        if self.ok:
            return "raised %s (%s) instead of returning" % (other.exc, short(other.msg))
        if other.ok:
            return "returned a value instead of raising %s" % self.exc
        if self.exc != other.exc:
            return "raised %s instead of %s" % (other.exc, self.exc)
        return None


# --------------------------------------------------------------------------
# operation pools
# --------------------------------------------------------------------------

def rand_points(rng, shape, facet=None, n=None):
    r = rng.random()
    big = 40 if r < 0.04 else 0 if r < 0.05 else rng.choice((1, 2, 3, 3, 4, 4, 7, 12))
    return {"s": shape, "n": big if n is None else n, "seed": rng.choice((0, 0, 0, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9)),
            "as": rng.choice(("tuples", "tuples", "array", "array", "lists", "tuple", "arrays", "ro", "fortran", "view"))
            if rng.random() < 0.94 else rng.choice(("back", "f32", "ints")),
            **({"facet": facet} if facet is not None else {})}


def element_op(rng, name, x, small=False):
    """A random query of a catalogue entry (or of its name), on the object called x."""
    e = CAT[name] if isinstance(name, str) else name
    kind, tags = e["kind"], e["tags"]
    if kind is None:
        return {"o": "meta", "x": x}
    sd, ents = KIND[kind]
    full = FULL[kind]
    maxo = 2 if (sd == 1 or ("lazy" not in tags and "slow" not in tags) or ("lazy" in tags and "slow" not in tags and rng.random() < 0.15)) else 1
    kinds = ["tab"] * 6 + ["tabent"] * 3 + ["meta", "nodes", "support", "support"]
    if "trace" in tags:
        kinds = ["tabent"] * 6 + ["tab"] * 2 + ["meta", "nodes"]
    elif "qel" in tags:
        kinds = ["tabq"] * 4 + ["meta", "nodes", "tab"]
    elif "nodal" in tags and "disc" not in tags:
        kinds += ["coeffs", "riesz", "riesz", "noderiesz", "nbtab", "nbtab", "nbnew", "nbtake", "call", "extab", "exder"]
        if sd > 1:
            kinds += ["exjet"]
    if "lazy" in tags or "mix" in tags:
        kinds = ["tab"] * 6 + ["tabent"] * 3 + ["meta"] + (["support"] * 2 if "mix" not in tags else [])
    k = rng.choice(kinds)
    if rng.random() < 0.04:
        k = "bad"
    order = rng.choice([0, 0, 1, 1, maxo, maxo])
    if maxo == 2 and sd < 3 and not {"comp", "ten", "trace"} & tags and rng.random() < 0.04:
        order = 3
    # a small pool of points: same shape, different values
    if k == "tab":
        return {"o": "tab", "x": x, "order": order, "pts": rand_points(rng, full, 0 if "trace" in tags else None)}
    if k == "tabent":
        ent, sh = rng.choice(ents)
        return {"o": "tab", "x": x, "order": order, "pts": rand_points(rng, sh), "entity": ent}
    if k == "tabq":
        return {"o": "tabq", "x": x, "order": 0}
    if k == "support":
        dims = sorted({json.dumps(t[0][0]) for t in ents})
        return {"o": "support", "x": x, "dim": json.loads(rng.choice(dims))}
    if k in ("nbtab",):
        return {"o": k, "x": x, "order": order, "pts": rand_points(rng, full)}
    if k == "nbnew":
        return {"o": k, "x": x, "pts": rand_points(rng, full)}
    if k == "nbtake":
        return {"o": k, "x": x, "idx": rng.choice(([0], [1, 0], [2, 1]))}
    if k in ("noderiesz",):
        return {"o": k, "x": x, "i": rng.randrange(6)}
    if k == "call":
        return call_op(rng, x, sd, "vec" in tags)
    if k == "extab":
        return {"o": "nbex", "x": x, "w": "extab", "n": rng.choice((1, 2, 3)), "pts": rand_points(rng, full)}
    if k == "exder":
        return {"o": "nbex", "x": x, "w": "exder", "n": rng.choice((1, 2)), "pts": rand_points(rng, full)}
    if k == "exjet":
        return {"o": "nbex", "x": x, "w": "exjet", "n": rng.choice((1, 2)), "order": 1, "pts": rand_points(rng, full)}
    if k == "bad":
        return rng.choice((
            {"o": "tab", "x": x, "order": 1, "pts": rand_points(rng, full), "entity": [sd + 3, 0]},
            {"o": "tab", "x": x, "order": "one", "pts": rand_points(rng, full)},
            {"o": "tab", "x": x, "order": 1, "pts": {"s": "b1" if sd != 1 else "b3", "n": 2, "seed": 0, "as": "tuples"}},
            {"o": "support", "x": x, "dim": sd + 2}))
    return {"o": k, "x": x}


def o_nbex(x, op, a):
    return OPS[op["w"]](x.get_nodal_basis().get_expansion_set(), op, a)


def o_tabq(x, op, a):
    # at the element's own points (its constructor arguments), the only ones it accepts
    pts = [list(n.pt_dict)[0] for n in x.dual_basis()]
    return x.tabulate(op["order"], pts)


def o_refused(x, op, a):
    """A caller who keeps asking for entities that do not exist."""
    e = op["ent"]
    out = []
    for i in range(op["n"]):
        try:
            x.tabulate(0, a["pts"], (tup(e[0]), e[1] + i))
            out.append("answered")
            break
        except Exception as err:
            if type(err).__name__.startswith("Injected"):
                raise
            out.append(type(err).__name__)
    return [len(out), sorted(set(out))]


OPS["refused"] = o_refused
OPS["nbex"] = o_nbex
OPS["tabq"] = o_tabq


def call_op(rng, x, sd, vec):
    q = {"o": "call", "x": x, "i": rng.randrange(rng.choice((6, 6, 30))), "sd": sd, "coefs": [round(rng.uniform(-1, 1), 3) for _ in range(3)]}
    if vec and rng.random() < 0.7:
        q["vec"] = sd
    return q


def cell_op(rng, cell, x):
    kind = CELLS[cell][1]
    sd, ents = KIND[kind]
    simplex = kind in ("int", "tri", "tet")
    ent, sh = rng.choice(ents)
    ks = ["cellinfo", "celltrans", "celltrans", "volume", "subel"]
    if simplex:
        ks += ["normal", "snormal", "rnormal", "tangents", "ntangents", "etangent", "netangent", "lattice", "lattice", "subvolume", "fetangents"]
        if sd == 3:
            ks += ["ftangents"]
    else:
        ks += ["rnormal"]
    if cell in ("I", "T", "S", "Q", "H", "QTP", "WTP"):
        ks += ["contains"]
    k = rng.choice(ks)
    nf = sum(1 for e in ents if e[0][0] == sd - 1) or 2
    op = {"o": k, "x": x, "i": rng.randrange(nf)}
    if k == "celltrans":
        op.update(dim=ent[0], i=ent[1], pts=rand_points(rng, sh))
    elif k == "contains":
        op.update(pts=rand_points(rng, FULL[kind]))
    elif k == "subel":
        op.update(dim=ent[0])
    elif k == "rnormal":
        op.update(dim=sd - 1) if simplex or kind in ("quad", "hex") else op.update(dim=[0, 1] if kind == "tp2" else [2, 0], i=0)
    elif k in ("tangents", "ntangents", "fetangents", "subvolume"):
        c = [e for e in ents if e[0][0] >= 1]
        e = rng.choice(c)[0]
        op.update(dim=e[0], i=e[1])
    elif k in ("etangent", "netangent"):
        op.update(i=rng.randrange(sum(1 for e in ents if e[0][0] == 1)))
    elif k == "ftangents":
        op.update(i=rng.randrange(4))
    elif k == "lattice":
        op.update(dim=ent[0], i=ent[1], n=rng.choice((2, 3, 4)))
    return op


def rule_op(rng, rule, x):
    k = rng.choice(("points", "weights", "rule", "integrate", "integrate"))
    op = {"o": k, "x": x}
    if k == "integrate":
        op["sd"] = KIND[RULE_KIND[rule]][0]
        op["coefs"] = [round(rng.uniform(-1, 1), 3) for _ in range(3)]
    return op


def expansion_op(rng, ex, x):
    kind = EXPANSIONS[ex][1]
    ks = ["extab", "extab", "exder"] + (["exjet"] if kind != "int" else [])
    k = rng.choice(ks)
    op = {"o": k, "x": x, "n": rng.choice((0, 1, 2, 3) if k == "extab" else (1, 2)), "pts": rand_points(rng, FULL[kind])}
    if k == "exjet":
        op["order"] = 1
    return op


def polyset_op(rng, ps, x):
    kind = POLYSETS[ps][1]
    k = rng.choice(("pstab", "pstab", "pstab", "pstake", "psmeta", "project", "union"))
    if k == "project" and ps.endswith("v") or k == "project" and ps.startswith("sym"):
        k = "pstab"
    op = {"o": k, "x": x}
    if k == "pstab":
        op.update(order=rng.choice((0, 1, 2)), pts=rand_points(rng, FULL[kind]))
    elif k == "pstake":
        op.update(idx=rng.choice(([0], [1, 0], [2, 1])))
    elif k == "project":
        op["sd"] = KIND[kind][0]
        op["coefs"] = [round(rng.uniform(-1, 1), 3) for _ in range(3)]
    return op


# --------------------------------------------------------------------------
# sweeps: a whole family of questions to one object, asked as one operation (in any order)
# --------------------------------------------------------------------------

def sweep_ops(op):
    """[(label, question)] of a sweep."""
    what, kind, tags, v = op["w"], op["kind"], set(op.get("tags", ())), op["v"]
    q = []

    def pts(shape, n=2, facet=None):
        p = {"s": shape, "n": n, "seed": v, "as": ("array", "tuples", "lists")[v % 3]}
        if facet is not None:
            p["facet"] = facet
        return p
    sd, ents = KIND[kind] if kind else (0, [])
    full = FULL[kind] if kind else None
    if what == "el":
        q += [{"o": "meta"}, {"o": "nodes"}, {"o": "celldig"}]
        if kind is None:
            pass
        elif "qel" in tags:
            q += [{"o": "tabq", "order": 0}]
        else:
            lazy = "lazy" in tags or "slow" in tags
            f = 0 if "trace" in tags else None
            two = not lazy or ("lazy" in tags and v % (3 if "slow" in tags else 2) == 0)
            for o in (0, 1, 2) if two else (0, 1):
                q.append({"o": "tab", "order": o, "pts": pts(full, 3, f)})
            seen = {}
            for i, (e, sh) in enumerate(ents):
                k = json.dumps(e[0])
                seen[k] = seen.get(k, 0) + 1
                if seen[k] > (2 if lazy or len(ents) > 12 else 6):
                    continue
                q.append({"o": "tab", "order": (i + v) % 2 if not lazy else 0, "pts": pts(sh), "entity": e})
            q += [{"o": "support", "dim": json.loads(k)} for k in sorted(seen)][-3 if not lazy else -1:]
            if "nodal" in tags and "disc" not in tags:
                q += [{"o": "coeffs"}, {"o": "riesz"}] + [{"o": "noderiesz", "i": i} for i in (0, 1, 4)]
                q += [{"o": "nbtab", "order": 1, "pts": pts(full)}, {"o": "nbnew", "pts": pts(full)}, {"o": "nbtake", "idx": [1, 0]}]
                q += [{"o": "call", "i": 1, "sd": sd, "coefs": [0.5, -1.25, 0.75]}]
    elif what == "cell":
        q += [{"o": "cellinfo"}, {"o": "celldig"}, {"o": "volume"}]
        simplex = kind in ("int", "tri", "tet")
        for e, sh in ents:
            q.append({"o": "celltrans", "dim": e[0], "i": e[1], "pts": pts(sh)})
            if simplex:
                for n in (2, 3):
                    q.append({"o": "lattice", "dim": e[0], "i": e[1], "n": n + v})
                q.append({"o": "subvolume", "dim": e[0], "i": e[1]})
                if e[0] >= 1:
                    q += [{"o": k, "dim": e[0], "i": e[1]} for k in ("tangents", "ntangents", "fetangents")]
                if e[0] == 1:
                    q += [{"o": k, "i": e[1]} for k in ("etangent", "netangent")]
                if e[0] == 2 and sd == 3:
                    q.append({"o": "ftangents", "i": e[1]})
                if e[0] == sd - 1:
                    q += [{"o": "normal", "i": e[1]}, {"o": "snormal", "i": e[1]}]
            if simplex and e[0] == sd - 1:
                q.append({"o": "rnormal", "dim": e[0], "i": e[1]})
        for k in sorted({json.dumps(e[0]) for e, sh in ents}):
            q.append({"o": "subel", "dim": json.loads(k)})
        if op.get("contains"):
            q.append({"o": "contains", "pts": pts(full)})
    elif what == "rule":
        q += [{"o": "points"}, {"o": "weights"}, {"o": "rule"}]
        q += [{"o": "integrate", "sd": sd, "coefs": [0.5 + v, -1.25, 0.75 * i]} for i in (0, 1)]
    elif what == "exp":
        q += [{"o": "extab", "n": n, "pts": pts(full)} for n in (0, 1, 2, 3)]
        q += [{"o": "exder", "n": n, "pts": pts(full)} for n in (1, 2)]
        if sd > 1:
            q += [{"o": "exjet", "n": n, "order": 1, "pts": pts(full)} for n in (1, 2)]
    elif what == "ps":
        q += [{"o": "pstab", "order": o, "pts": pts(full)} for o in (0, 1, 2)]
        q += [{"o": "psmeta"}, {"o": "pstake", "idx": [1, 0]}, {"o": "pstake", "idx": [0]}]
    return [(json.dumps({a: b for a, b in d.items() if a not in ("pts", "coefs")}, sort_keys=True) + "#%d" % i, d) for i, d in enumerate(q)]


def o_sweep(x, op, a):
    qs = sweep_ops(op)
    if op.get("perm"):
        random.Random("perm/%s" % op["perm"]).shuffle(qs)
    out = {}
    for label, q in qs:
        try:
            out[label] = OPS[q["o"]](x, q, op_args(q))
        except (MemoryError, RecursionError):
            raise
        except Exception as e:
            if type(e).__name__.startswith("Injected"):
                raise
            e.__traceback__ = None
            out[label] = e
    return out


def o_celldig(x, op, a):
    c = x if isinstance(x, boot.REGISTRY["Cell"]) else x.get_reference_element()
    return [type(c).__name__, c.get_vertices(), c.get_topology(), copy.deepcopy(getattr(c, "sub_entities", None)),
            copy.deepcopy(getattr(c, "connectivity", None)), tup(c.get_dimension()), c.get_shape()]


OPS["sweep"] = o_sweep
OPS["celldig"] = o_celldig


POINTFNS = {"int": ("PointEvaluation", "PointDerivative"),
            "tri": ("PointEvaluation", "PointDerivative", "ComponentPointEvaluation", "PointNormalDerivative", "PointNormalSecondDerivative",
                    "PointNormalEvaluation", "PointScaledNormalEvaluation", "PointEdgeTangentEvaluation", "IntegralLegendreNormalMoment",
                    "IntegralLegendreTangentialMoment", "IntegralLegendreNormalNormalMoment", "IntegralLegendreNormalTangentialMoment"),
            "tet": ("PointEvaluation", "PointDerivative", "ComponentPointEvaluation", "PointNormalEvaluation", "PointScaledNormalEvaluation",
                    "PointEdgeTangentEvaluation", "PointFaceTangentEvaluation", "PointNormalDerivative")}


def cellfn_op(rng, kind, x):
    """Something made over the cell of x (or x itself) by its user."""
    sd = KIND[kind][0]
    op = {"o": "cellfn", "x": x, "i": rng.randrange(sd + 1)}
    r = rng.random()
    if r < 0.5:
        f = rng.choice(POINTFNS[kind])
        op.update(fn=f, n=rng.choice((0, 1, 1, 2)))
        if f.startswith("Point") or f.startswith("Comp"):
            op["pts"] = rand_points(rng, FULL[kind], n=1)
    elif r < 0.65:
        op.update(fn=rng.choice(("make_quadrature", "create_quadrature")), n=rng.choice((1, 2, 3, 4)))
    elif r < 0.8:
        op.update(fn="onset", n=rng.choice((0, 1, 2, 3) if sd < 3 else (0, 1)), pts=rand_points(rng, FULL[kind]), order=rng.choice((0, 1)))
        op["shape"] = rng.choice(((), (), (sd,), (sd, sd)))
    elif r < 0.9:
        op.update(fn="expset", n=rng.choice((1, 2, 3, 4, 6)), pts=rand_points(rng, FULL[kind]))
    else:
        op.update(fn=rng.choice(("polydim", "closure", "subcell")), n=rng.choice((0, 1, 2, 5)))
    return op


def o_cellfn(x, op, a):
    R = boot.REGISTRY
    c = x if isinstance(x, R["Cell"]) else x.get_reference_element()
    sd = c.get_spatial_dimension()
    fn, n, i = op["fn"], op["n"], op["i"]
    pt = tuple(float(t) for t in a["pts"][0]) if "pts" in a else None
    if fn in ("make_quadrature", "create_quadrature"):
        return R[fn](c, n)
    if fn == "onset":
        p = R["ONPolynomialSet"](c, n, tuple(op["shape"]))
        return [p.tabulate(a["pts"], op["order"]), p.get_coeffs()]
    if fn == "expset":
        return R["get_expansion_set"](c).tabulate(n, a["pts"])
    if fn == "polydim":
        return R["polynomial_dimension"](c, n)
    if fn == "closure":
        return R["make_entity_closure_ids"](c, {d: {e: [d, e] for e in t} for d, t in c.get_topology().items()})
    if fn == "subcell":
        s = c.get_facet_element() if hasattr(c, "get_facet_element") else c
        return [type(s).__name__, s.get_vertices(), s.get_topology()]
    F = R[fn]
    if fn == "PointEvaluation":
        f = F(c, pt)
    elif fn == "ComponentPointEvaluation":
        f = F(c, i % sd, (sd,), pt)
    elif fn == "PointDerivative":
        f = F(c, pt, tuple(int(j == i % sd) * (1 + n % 2) for j in range(sd)))
    elif fn == "PointFaceTangentEvaluation":
        f = F(c, i, n % 2, pt)
    elif fn.startswith("IntegralLegendre"):
        f = F(c, i, n % 3, 3)
    else:
        f = F(c, i, pt)
    out = [f]
    if n == 1:
        shp = tuple(f.target_shape)
        out.append(f.to_riesz(R["ONPolynomialSet"](c, 1, shp)))
    return out


OPS["cellfn"] = o_cellfn


class Gen:
    """Draws questions to objects of one recipe."""

    def __init__(self, draw, what, kind, tags=(), **k):
        self.draw, self.what, self.kind, self.tags, self.k = draw, what, kind, sorted(tags), k
        self.cellfn = what in ("el", "cell") and kind in POINTFNS and not {"disc", "qel"} & set(tags)

    def __call__(self, rng, x):
        r = rng.random()
        if r < 0.05:
            return self.sweep(rng, x)
        if r < 0.12 and self.cellfn:
            return cellfn_op(rng, self.kind, x)
        return self.draw(rng, x)

    def sweep(self, rng, x, perm=True):
        return dict({"o": "sweep", "x": x, "w": self.what, "kind": self.kind, "tags": self.tags, "v": rng.randrange(2)},
                    **({"perm": rng.randrange(1, 10 ** 6)} if perm and rng.random() < 0.8 else {}), **self.k)


def element_gen(e):
    return Gen(lambda rng, x: element_op(rng, e, x), "el", e["kind"], e["tags"])


def plain_gen(spec):
    """For components of which no more is known than their class."""
    c = boot.REGISTRY.get(spec.get("c"))
    if isinstance(c, type) and issubclass(c, boot.REGISTRY["FiniteElement"]):
        return Gen(lambda rng, x: {"o": rng.choice(("meta", "nodes", "celldig")), "x": x}, "el", None)
    return None


# the whole pool of objects: name -> (spec, op generator)
def pool():
    out = {}
    for n, e in CAT.items():
        out["el:" + n] = (e["spec"], element_gen(e))
    for n, s in RULES.items():
        out["rule:" + n] = (s, Gen(lambda rng, x, n=n: rule_op(rng, n, x), "rule", RULE_KIND[n]))
    for n, (s, k) in CELLS.items():
        out["cell:" + n] = (s, Gen(lambda rng, x, n=n: cell_op(rng, n, x), "cell", k, contains=n in ("I", "T", "S", "Q", "H", "QTP", "WTP")))
    for n, (s, k) in EXPANSIONS.items():
        out["exp:" + n] = (s, Gen(lambda rng, x, n=n: expansion_op(rng, n, x), "exp", k))
    for n, (s, k) in POLYSETS.items():
        out["ps:" + n] = (s, Gen(lambda rng, x, n=n: polyset_op(rng, n, x), "ps", k))
    return out


POOL = pool()
BASEPOOL = sorted(POOL)

GEO = {"int": [I2, I3, DI], "tri": [T2, T3, T4, T5, DT, IT], "tet": [S2, S3, S4, DS]}
BASE = {"int": I, "tri": T, "tet": S}


def _pick_cell(r, kind, geo=0.3):
    return r.choice(GEO[kind]) if r.random() < geo else BASE[kind]


def _wild_simple(r, kinds=("int", "tri", "tet"), scalar=False, geo=0.3, big=False):
    """A random element of a family on a simplex: (spec, kind, tags)."""
    kd = r.choice(kinds)
    c = _pick_cell(r, kd, geo)
    fams = {"int": ["Lagrange"] * 3 + ["DiscontinuousLagrange"] * 3 + ["GLL", "GL", "GR", "Taylor", "Bernstein", "Bubble", "Hermite", "P0"],
            "tri": ["Lagrange"] * 3 + ["DiscontinuousLagrange"] * 2 + ["Taylor", "Bernstein", "Bubble", "FacetBubble", "CR", "KMV", "P0", "Morley", "Hermite"],
            "tet": ["Lagrange"] * 2 + ["DiscontinuousLagrange"] * 2 + ["Taylor", "Bernstein", "Bubble", "FacetBubble", "CR", "KMV", "P0"]}[kd]
    if not scalar:
        fams = fams + {"int": [], "tri": ["RT", "N1", "BDM", "N2"] * 3 + ["DRT", "Regge", "HHJ", "Trace", "BDFM", "AWnc", "MTW"],
                       "tet": ["RT", "N1", "BDM", "N2"] + ["Regge", "Trace", "DRT"]}[kd]
    f = r.choice(fams)
    hi = {"int": 8, "tri": 5, "tet": 3}[kd] if big else {"int": 6, "tri": 3, "tet": 2}[kd]
    if kd == "tet" and f in ("Bubble", "FacetBubble") and not big:
        f = "Lagrange"
    if f == "Lagrange":
        return el(f, c, r.randint(1, hi)), kd, {"nodal"}
    if f == "DiscontinuousLagrange":
        return el(f, c, r.randint(0, hi)), kd, {"nodal"}
    if f == "GLL":
        return el("GaussLobattoLegendre", c, r.randint(1, 7)), kd, {"nodal"}
    if f == "GL":
        return el("GaussLegendre", c, r.randint(0, 7)), kd, {"nodal"}
    if f == "GR":
        return el("GaussRadau", c, r.randint(0, 5)), kd, {"nodal"}
    if f == "Taylor":
        return el("DiscontinuousTaylor", c, r.randint(0, {"int": 4, "tri": 3, "tet": 2}[kd])), kd, {"nodal"}
    if f == "Bernstein":
        return el(f, c, r.randint(0, {"int": 5, "tri": 4, "tet": 3}[kd])), kd, set()
    if f == "Bubble":
        return el(f, c, r.randint({"int": 2, "tri": 3, "tet": 4}[kd], {"int": 5, "tri": 4 if big else 3, "tet": 4}[kd])), kd, {"nodal", "sub"}
    if f == "FacetBubble":
        return el(f, c, {"tri": r.randint(2, 3), "tet": 3}[kd]), kd, {"nodal", "sub"}
    if f == "CR":
        return el("CrouzeixRaviart", c, 1), kd, {"nodal"}
    if f == "P0":
        return el("P0", c), kd, {"nodal"}
    if f == "KMV":
        return el("KongMulderVeldhuizen", BASE[kd], r.randint(1, {"tri": 4 if big else 3, "tet": 2}[kd])), kd, {"nodal"}
    if f == "Morley":
        return el("Morley", c), kd, {"nodal"}
    if f == "Hermite":
        return el("CubicHermite", c), kd, {"nodal"}
    if f == "Regge":
        return el("Regge", c, r.randint(0, 1 if kd == "tri" else 0)), kd, {"nodal", "ten"}
    if f == "HHJ":
        return el("HellanHerrmannJohnson", c, r.randint(0, 2)), kd, {"nodal", "ten"}
    if f == "Trace":
        return el("HDivTrace", c, r.randint(0, 3)), kd, {"trace"}
    if f == "BDFM":
        return el("BrezziDouglasFortinMarini", c, 2), kd, {"nodal", "vec"}
    if f == "AWnc":
        return el("ArnoldWintherNC", c, 2), kd, {"nodal", "ten"}
    if f == "MTW":
        return el("MardalTaiWinther", c, 3), kd, {"nodal", "vec"}
    d = r.randint(1, 3 if kd == "tri" else 1)
    if f == "DRT":
        return el("DiscontinuousRaviartThomas", c, min(d, 2)), kd, {"nodal", "vec"}
    name = {"RT": "RaviartThomas", "N1": "Nedelec", "BDM": "BrezziDouglasMarini", "N2": "NedelecSecondKind"}[f]
    v = r.choice(["point", "point", "integral", "integral(%d)" % (d + r.randint(1, 3))])
    return el(name, c, d, variant=v), kd, {"nodal", "vec"}


def any_rule(r):
    """Recipe of a quadrature rule of any degree, cell and kind."""
    k = r.random()
    if k < 0.55:
        c, hi = r.choice(((I, 25), (DI, 15), (I2, 15), (T, 20), (T, 20), (DT, 12), (IT, 12), (S, 10), (S, 10), (DS, 7), (Q, 12), (QTP, 12), (WTP, 7), (H, 5)))
        return cname("create_quadrature", c, r.randint(0, hi), *(["canonical"] if c not in (Q, QTP, WTP, H) and r.random() < 0.2 else []))
    if k < 0.8:
        c, hi = r.choice(((I, 14), (DI, 9), (I2, 9), (T, 9), (T2, 7), (DT, 7), (IT, 7), (S, 5), (S2, 4), (DS, 4)))
        return cname("make_quadrature", c, r.randint(1, hi))
    c = r.choice((I, DI, I2))
    f = r.choice(("GaussLobattoLegendreQuadratureLineRule", "GaussLegendreQuadratureLineRule", "RadauQuadratureLineRule"))
    return cname(f, c, r.randint(2, 13), *([False] if f.startswith("Radau") and r.random() < 0.5 else []))


def wild(seed):
    """A random object recipe beyond the catalogue: entry dict with spec, kind, tags."""
    r = random.Random("wild/%s" % seed)
    big = str(seed).startswith("big")
    k = r.choice(["simple"] * 8 + ["tp", "tp", "flat", "hdiv", "hcurl", "rst", "enr", "nenr", "disc", "mix", "dpc", "ser"])
    T1 = lambda: _wild_simple(r, ("int",), True, 0.0)[0]
    if k == "simple":
        s, kd, tags = _wild_simple(r, big=big)
    elif k == "tp":
        if r.random() < 0.6:
            s, kd, tags = cname("TensorProductElement", T1(), T1()), "tp2", {"comp"}
        else:
            a = _wild_simple(r, ("tri",), False, 0.0)
            while "ten" in a[2] or "trace" in a[2] or "HellanHerrmannJohnson" in key(a[0]):
                a = _wild_simple(r, ("tri",), False, 0.0)
            s, kd, tags = cname("TensorProductElement", a[0], T1()), "tp21", {"comp"}
    elif k == "flat":
        s, kd, tags = cname("FlattenedDimensions", cname("TensorProductElement", T1(), T1())), "quad", {"comp"}
    elif k in ("hdiv", "hcurl"):
        a, b = r.choice(((el("Lagrange", I, r.randint(1, 3)), el("DiscontinuousLagrange", I, r.randint(0, 3))),
                         (el("DiscontinuousLagrange", I, r.randint(0, 3)), el("Lagrange", I, r.randint(1, 3)))))
        s, kd, tags = cname("Hdiv" if k == "hdiv" else "Hcurl", cname("TensorProductElement", a, b)), "tp2", {"comp", "vec"}
    elif k == "rst":
        d = r.randint(3, 4 if big else 3)
        s, kd, tags = cname("RestrictedElement", el("Lagrange", _pick_cell(r, "tri"), d),
                            restriction_domain=r.choice(("vertex", "facet", "interior"))), "tri", {"comp", "nodal", "sub"}
    elif k in ("enr", "nenr"):
        kd = r.choice(("int", "tri"))
        c = _pick_cell(r, kd)
        a = el(r.choice(("Lagrange", "DiscontinuousLagrange")), c, 1)
        b = el("Bubble", c, 2 if kd == "int" else 3)
        s = cname("EnrichedElement" if k == "enr" else "NodalEnrichedElement", a, b)
        tags = {"comp"} | ({"nodal"} if k == "nenr" else set())
    elif k == "disc":
        a, kd, tags = _wild_simple(r, ("int", "tri"))
        while "trace" in tags or "Bernstein" in key(a):
            a, kd, tags = _wild_simple(r, ("int", "tri"))
        s, tags = cname("DiscontinuousElement", a), tags | {"comp", "disc"}
    elif k == "mix":
        c = _pick_cell(r, "tri")
        s = cname("MixedElement", {"l": [el("Lagrange", c, r.randint(1, 3)), el("DiscontinuousLagrange", c, r.randint(0, 2))]})
        kd, tags = "tri", {"comp", "mix"}
    elif k == "dpc":
        kd = r.choice(("quad", "hex"))
        s, tags = el("DPC", Q if kd == "quad" else H, r.randint(0, 4 if kd == "quad" else 2)), {"nodal"}
    else:
        kd = "quad"
        s, tags = el("Serendipity", Q, r.randint(1, 4)), {"lazy"}
    return {"spec": s, "kind": kd, "tags": set(tags) | {"wild"}}


def lookup(poolname):
    """(spec, op generator) of a pool name; "wild:<seed>" names random recipes."""
    if poolname in POOL:
        return POOL[poolname]
    assert poolname.startswith("wild:"), poolname
    e = wild(poolname[5:])
    POOL[poolname] = (e["spec"], element_gen(e))
    return POOL[poolname]


def object_op(rng, poolname, x):
    return lookup(poolname)[1](rng, x)


def run_op(x, op, args):
    """Execute one operation (no comparison).  Returns the raw result."""
    return OPS[op["o"]](x, op, args)
