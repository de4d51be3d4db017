"""The mathematical contract of elements and quadrature rules, evaluated on live objects.

Independent of any reference run: the oracle is the definition itself.
  nodal      published degrees of freedom applied to the tabulated basis give the identity
  partition  the degrees of freedom are partitioned over the entities of the cell
  slope      first (second) derivatives agree with central differences of values (first derivatives)
  trace      tabulation on a sub-entity is tabulation at the mapped points
  exact      quadrature rules integrate the polynomials of their degree exactly
"""
import itertools
import math
import random

import numpy as np

from . import boot
from . import catalog as C

# classes whose dual basis is published by point dictionaries that refer to values of the
# element itself (not: trace spaces, whose values live on facets only; serendipity and Bernstein,
# which publish no degrees of freedom; wrappers that keep the dual of what they wrap)
NODAL_SKIP = {"HDivTrace", "Serendipity", "Bernstein", "TensorProductElement", "FlattenedDimensions", "EnrichedElement",
              "MixedElement", "QuadratureElement"}
VALUE_SKIP = {"HDivTrace", "QuadratureElement"}


def _flat(tab, nbf):
    """table -> (nbf, ncomp, npts)"""
    t = np.array(tab, dtype=float)
    return t.reshape(nbf, -1, t.shape[-1])


def _comp_index(comp, shape):
    if not shape:
        return 0
    if isinstance(comp, (int, np.integer)):
        comp = (comp,)
    comp = tuple(comp)
    if comp == ():
        return 0
    return int(np.ravel_multi_index(comp, shape))


def _inner_points(el, n, seed):
    """Points inside the reference cell of el."""
    ref = el.get_reference_element()
    sd = ref.get_spatial_dimension()
    v = np.array(ref.get_vertices(), dtype=float).reshape(-1, max(sd, 1))
    r = random.Random("contract/%s" % seed)
    out = []
    for _ in range(n):
        w = np.array([0.15 + r.random() for _ in range(len(v))])
        w /= w.sum()
        out.append(tuple(float(x) for x in w.dot(v)))
    return out


def nodality(el):
    try:
        nodes = el.dual_basis()
        el.get_nodal_basis
    except (AttributeError, NotImplementedError):
        return None
    n = el.space_dimension()
    if len(nodes) != n or any(x is None for x in nodes):
        return None
    ref = el.get_reference_element()
    sd = ref.get_spatial_dimension()
    shape = el.value_shape()
    pts = {}
    order = 0
    for nd in nodes:
        if not hasattr(nd, "pt_dict"):
            return None
        for p in nd.pt_dict:
            pts.setdefault(tuple(p), len(pts))
        for p, ws in nd.deriv_dict.items():
            pts.setdefault(tuple(p), len(pts))
            for w, a, c in ws:
                order = max(order, sum(a))
    if not pts:
        return None
    tab = el.tabulate(order, list(pts))
    tab = {k: _flat(v, n) for k, v in tab.items()}
    zero = (0,) * sd
    M = np.zeros((n, n))
    mag = np.ones(n)
    for i, nd in enumerate(nodes):
        s = np.zeros(n)
        m = 0.0
        for p, ws in nd.pt_dict.items():
            for w, c in ws:
                col = tab[zero][:, _comp_index(c, shape), pts[tuple(p)]]
                s += w * col
                m += abs(w) * float(np.abs(col).max())
        for p, ws in nd.deriv_dict.items():
            for w, a, c in ws:
                col = tab[tuple(a)][:, _comp_index(c, shape), pts[tuple(p)]]
                s += w * col
                m += abs(w) * float(np.abs(col).max())
        M[i] = s
        mag[i] = max(1.0, m)
    D = np.abs(M - np.eye(n)) / mag[:, None]
    if not (D < 1e-6).all():
        i, j = np.unravel_index(int(np.nanargmax(np.where(np.isnan(D), np.inf, D))), D.shape)
        return "nodal: degree of freedom %d of basis function %d is %.9g" % (i, j, M[i, j])
    return False


def partition(el):
    n = el.space_dimension()
    ed = el.entity_dofs()
    got = sorted(d for dim in ed for e in ed[dim] for d in ed[dim][e])
    if got != list(range(n)):
        return "partition: entity degrees of freedom are %s for a space of dimension %d" % (C.short(got), n)
    top = el.get_reference_element().get_topology()
    if set(ed) != set(top) or any(set(ed[d]) != set(top[d]) for d in top):
        return "partition: entities do not match the cell"
    cd = el.entity_closure_dofs()
    try:
        conn = el.get_reference_element().sub_entities
    except AttributeError:
        return False
    for dim in ed:
        for e in ed[dim]:
            want = set()
            for d2, e2 in conn[dim][e]:
                want |= set(ed[d2][e2])
            if sorted(cd[dim][e]) != sorted(want):
                return "partition: closure of entity (%s, %s) has degrees of freedom %s, not %s" % (dim, e, C.short(sorted(cd[dim][e])), C.short(sorted(want)))
    return False


def slope(el, seed=0, order=1):
    ref = el.get_reference_element()
    sd = ref.get_spatial_dimension()
    if sd == 0:
        return None
    n = el.space_dimension()
    pts = _inner_points(el, 2, seed)
    h = 1e-4
    moved = []
    for d in range(sd):
        for s in (h, -h):
            for p in pts:
                q = list(p)
                q[d] += s
                moved.append(tuple(q))
    lo = {k: _flat(v, n) for k, v in el.tabulate(order - 1, moved).items()}
    hi = {k: _flat(v, n) for k, v in el.tabulate(order, pts).items()}
    np_ = len(pts)
    for a in lo:
        if sum(a) != order - 1:
            continue
        for d in range(sd):
            b = list(a)
            b[d] += 1
            b = tuple(b)
            if b not in hi:
                return "slope: derivative %s is missing" % (b,)
            up = lo[a][:, :, (2 * d) * np_:(2 * d + 1) * np_]
            dn = lo[a][:, :, (2 * d + 1) * np_:(2 * d + 2) * np_]
            fd = (up - dn) / (2 * h)
            # central differences of a polynomial: error bounded by h^2 times its third derivative
            scale = max(1.0, float(np.abs(fd).max()), float(np.abs(up).max()))
            tol = 2e-4 * scale
            err = np.abs(fd - hi[b])
            if not (err <= tol).all():
                i = int(np.argmax(err))
                return "slope: derivative %s is %.8g, differences of values give %.8g" % (b, hi[b].ravel()[i], fd.ravel()[i])
    return False


def _leaves(dim):
    return [y for x in dim for y in _leaves(x)] if isinstance(dim, tuple) else [dim]


def trace(el, seed=0):
    ref = el.get_reference_element()
    top = ref.get_topology()
    n = el.space_dimension()
    r = random.Random("trace/%s" % seed)
    for dim in top:
        ents = sorted(top[dim])
        e = ents[r.randrange(len(ents))]
        if isinstance(dim, tuple) and any(isinstance(x, tuple) for x in dim):
            continue               # entities of nested products are not tabulated on by FIAT
        d = sum(_leaves(dim))
        try:
            sub = ref.construct_subelement(dim)
            tr = ref.get_entity_transform(dim, e)
            sv = np.array(sub.get_vertices(), dtype=float).reshape(-1, d) if d else None
        except (NotImplementedError, AttributeError):
            continue
        pts = []
        for _ in range(2):
            if d == 0:
                pts.append(())
            else:
                w = np.array([0.2 + r.random() for _ in range(len(sv))])
                pts.append(tuple(float(x) for x in (w / w.sum()).dot(sv)))
        a = el.tabulate(1, pts, (dim, e))
        b = el.tabulate(1, [tuple(np.array(tr(p), dtype=float).ravel()) for p in pts])
        if set(a) != set(b):
            return "trace: tables for entity (%s, %d) have other derivatives" % (dim, e)
        for k in a:
            x, y = _flat(a[k], n), _flat(b[k], n)
            if x.shape != y.shape or not (np.abs(x - y) <= 1e-9 * max(1.0, float(np.abs(y).max()))).all():
                return "trace: table %s on entity (%s, %d) differs from the table at the mapped points" % (k, dim, e)
    return False


def exactness(spec, q):
    """spec of a rule built by a public function with a known degree of exactness."""
    name = spec.get("c")
    a = spec.get("a", [])
    if name == "create_quadrature":
        if len(a) > 2 and a[2] == "KMV":
            return None
        deg = a[1]
    elif name in ("make_quadrature", "CollapsedQuadratureTriangleRule", "CollapsedQuadratureTetrahedronRule"):
        deg = 2 * a[1] - 1
    elif name == "GaussLobattoLegendreQuadratureLineRule":
        deg = 2 * a[1] - 3
    elif name == "GaussLegendreQuadratureLineRule":
        deg = 2 * a[1] - 1
    elif name == "RadauQuadratureLineRule":
        deg = 2 * a[1] - 2
    else:
        return None
    cell = a[0]
    if name == "create_quadrature" and "verts" in C.key(cell) and ("UFCT" in C.key(cell)) and len(a) < 3:
        return None                    # table of the reference cell, by definition
    pts = np.array(q.get_points(), dtype=float)
    wts = np.array(q.get_weights(), dtype=float)
    pts = pts.reshape(len(wts), -1)
    factors = _factors(cell)
    if factors is None:
        return None
    degs = C.tup(deg["t"]) if isinstance(deg, dict) else (deg,) * len(factors)
    if len(degs) != len(factors):
        return None
    # tables of barycentric monomials per factor
    off = 0
    tabs = []
    for f, dg in zip(factors, degs):
        d = len(f[0])
        V = np.array(f, dtype=float)
        A = np.vstack([V.T, np.ones(len(V))])
        lam = np.linalg.solve(A, np.vstack([pts[:, off:off + d].T, np.ones(len(pts))]))
        off += d
        vol = abs(np.linalg.det(V[1:] - V[0])) / math.factorial(d)
        lst = []
        for alpha in itertools.product(range(dg + 1), repeat=d):
            if sum(alpha) > dg:
                continue
            val = np.ones(len(pts))
            num = 1
            for i, k in enumerate(alpha):
                val = val * lam[i + 1] ** k
                num *= math.factorial(k)
            lst.append((alpha, val, vol * math.factorial(d) * num / math.factorial(sum(alpha) + d)))
        tabs.append(lst)
    if off != pts.shape[1]:
        return "exact: points have %d coordinates, the cell has %d" % (pts.shape[1], off)
    for combo in itertools.product(*tabs):
        val = wts.copy()
        ex = 1.0
        for alpha, v, e in combo:
            val = val * v
            ex *= e
        got = float(val.sum())
        if not abs(got - ex) <= 1e-8 * max(1.0, float(np.abs(wts).sum())):
            return "exact: monomial %s integrates to %.12g instead of %.12g" % ([c[0] for c in combo], got, ex)
    return False


def _factors(cell):
    """The simplices whose product the cell is, as vertex lists."""
    if "c" not in cell:
        return None
    n = cell["c"]
    if n == "TensorProductCell":
        out = []
        for x in cell["a"]:
            f = _factors(x)
            if f is None:
                return None
            out += f
        return out
    if "verts" in cell:
        return [cell["verts"]]
    U = {"UFCInterval": [[0.], [1.]], "UFCTriangle": [[0., 0.], [1., 0.], [0., 1.]],
         "UFCTetrahedron": [[0., 0., 0.], [1., 0., 0.], [0., 1., 0.], [0., 0., 1.]],
         "DefaultLine": [[-1.], [1.]], "DefaultTriangle": [[-1., -1.], [1., -1.], [-1., 1.]],
         "DefaultTetrahedron": [[-1., -1., -1.], [1., -1., -1.], [-1., 1., -1.], [-1., -1., 1.]],
         "IntrepidTriangle": [[0., 0.], [1., 0.], [0., 1.]],
         "IntrepidTetrahedron": [[0., 0., 0.], [1., 0., 0.], [0., 1., 0.], [0., 0., 1.]]}
    if n in U:
        return [U[n]]
    if n == "UFCQuadrilateral":
        return [U["UFCInterval"]] * 2
    if n == "UFCHexahedron":
        return [U["UFCInterval"]] * 3
    return None


def displaced(text):
    """Not on the UFC reference cells."""
    return "verts" in text or "Default" in text or "Intrepid" in text


def unfit(text):
    """Constructible, but with a singular or nearly singular generalised Vandermonde matrix: the moments over facets
    of these families presume the facets of the UFC cells."""
    return ("Default" in text or "Intrepid" in text) and any(x in text for x in (
        "integral", "MardalTaiWinther", "Bell", "ArnoldWinther", "BrezziDouglasFortinMarini"))


def dependent(spec):
    """A nodally enriched element over components whose spaces intersect: its documentation excludes it, its
    constructor does not (the generalised Vandermonde matrix is singular)."""
    if isinstance(spec, dict):
        if spec.get("c") == "NodalEnrichedElement":
            try:
                els = [C.build(a) for a in spec["a"]]
                n = sum(e.space_dimension() for e in els)
                pts = _inner_points(els[0], 2 * n + 5, 1)
                rows = []
                for e in els:
                    t = _flat(e.tabulate(0, pts)[(0,) * len(pts[0])], e.space_dimension())
                    rows += [r.ravel() for r in t]
                sv = np.linalg.svd(np.array(rows), compute_uv=False)
                if sv[-1] < 1e-9 * sv[0]:
                    return True
            except Exception:
                return False
        return any(dependent(v) for v in spec.values())
    if isinstance(spec, (list, tuple)):
        return any(dependent(v) for v in spec)
    return False


def check(spec, obj, probes, seed=0, deep=False):
    """None, or a description of the broken fact."""
    R = boot.REGISTRY
    text = C.key(spec)
    todo = []
    if isinstance(obj, R["QuadratureRule"]):
        todo = [("exact", lambda: exactness(spec, obj))]
    elif hasattr(obj, "tabulate") and hasattr(obj, "entity_dofs"):
        cls = type(obj).__name__
        if cls not in ("QuadratureElement",):
            todo.append(("partition", lambda: partition(obj)))
        if cls not in NODAL_SKIP and not unfit(text) and not ("NodalEnriched" in text and dependent(spec)):
            todo.append(("nodal", lambda: nodality(obj)))
        if cls not in VALUE_SKIP:
            todo.append(("slope", lambda: slope(obj, seed)))
            if deep:
                todo.append(("slope2", lambda: slope(obj, seed, 2)))
            if not ("FlattenedDimensions" in text and displaced(text)):
                todo.append(("trace", lambda: trace(obj, seed)))
    for fact, fn in todo:
        try:
            res = fn()
        except NotImplementedError:
            continue
        except Exception as e:
            res = "%s: raised %s: %s" % (fact, type(e).__name__, str(e)[:200])
        if res is None:
            continue
        probes["contract:" + fact] = probes.get("contract:" + fact, 0) + 1
        if res:
            return res
    return None
