"""Contracts of domain/geometrics, written from the property statements G01..G11."""
import z3, math, fractions
from verify import *


def d(x):
    """double value of a Coord"""
    return x.val if isinstance(x, W) else (x.f["val"] if isinstance(x, Struct) else x)


def ceq(a, b):
    """Coord equality: closer than the tolerance"""
    t = d(a) - d(b)
    return And(t < TOL, -t < TOL)


def peq(a, b):
    return And(ceq(a.x, b.x), ceq(a.y, b.y))


def zmin(a, b): return If(a <= b, a, b)
def zmax(a, b): return If(a >= b, a, b)


# ---- G04 ---------------------------------------------------------------------------
P4 = ["G04"]
C = "domain::"
spec("domain::Coord::value", props=P4)(lambda c: d(c.this))
spec("domain::Coord::operator double", props=P4)(lambda c: d(c.this))
spec("domain::operator==", ["Coord&", "Coord&"], props=P4)(lambda c, a, b: ceq(a, b))
spec("domain::operator!=", ["Coord&", "Coord&"], props=P4)(lambda c, a, b: Not(ceq(a, b)))
spec("domain::operator<=", ["Coord&", "Coord&"], props=P4)(lambda c, a, b: d(a) <= d(b))
spec("domain::operator>=", ["Coord&", "Coord&"], props=P4)(lambda c, a, b: d(a) >= d(b))
spec("domain::operator<", ["Coord&", "Coord&"], props=P4)(lambda c, a, b: d(a) < d(b))
spec("domain::operator>", ["Coord&", "Coord&"], props=P4)(lambda c, a, b: d(a) > d(b))
spec("domain::operator+", ["Coord&", "Coord&"], props=P4)(lambda c, a, b: c.coord(d(a) + d(b)))
spec("domain::operator-", ["Coord&", "Coord&"], props=P4)(lambda c, a, b: c.coord(d(a) - d(b)))
spec("domain::operator*", ["Coord&", "Coord&"], props=P4)(lambda c, a, b: c.coord(d(a) * d(b)))
spec("domain::operator/", ["Coord&", "Coord&"], props=P4)(lambda c, a, b: c.coord(d(a) / d(b)))
spec("domain::mid", ["Coord&", "Coord&"], props=P4)(lambda c, a, b: c.coord((d(a) + d(b)) / 2))
spec("domain::distance", ["Coord&", "Coord&"], props=P4)(lambda c, a, b: c.coord(If(d(a) >= d(b), d(a) - d(b), d(b) - d(a))))
spec("domain::operator-", ["Point&", "Point&"], props=P4)(lambda c, a, b: c.point(d(a.x) - d(b.x), d(a.y) - d(b.y)))
spec("domain::operator+", ["Point&", "Point&"], props=P4)(lambda c, a, b: c.point(d(a.x) + d(b.x), d(a.y) + d(b.y)))
spec("domain::operator==", ["Point&", "Point&"], props=P4)(lambda c, a, b: peq(a, b))
spec("domain::operator*", ["double&", "Point&"], props=P4)(lambda c, n, p: c.point(d(p.x) * n, d(p.y) * n))
spec("domain::mid", ["Point&", "Point&"], props=P4)(lambda c, a, b: c.point((d(a.x) + d(b.x)) / 2, (d(a.y) + d(b.y)) / 2))

# ---- G03 ---------------------------------------------------------------------------
P3 = ["G03"]


def pick(c, *rows, dflt):
    """first matching row"""
    r = dflt
    for cond, v in reversed(rows): r = If(cond, v, r)
    return r


def hv(c, plane, which):
    """spatial axis of the plane's horizontal (0) / vertical (1) view axis: YZ -> (Y,Z), ZX -> (Z,X), XY -> (X,Y)"""
    X, Y, Z = (c.enum("Axis", n) for n in "XYZ")
    YZ, ZX = c.enum("Plane", "YZ"), c.enum("Plane", "ZX")
    t = ((Y, Z), (Z, X), (X, Y))
    return If(plane == YZ, t[0][which], If(plane == ZX, t[1][which], t[2][which]))


@spec("domain::transpose", ["Plane", "ViewAxis"], props=P3)
def _(c, plane, va):
    return If(va == c.enum("ViewAxis", "H"), hv(c, plane, 0), hv(c, plane, 1))


@spec("domain::transpose", ["Plane", "Axis"], props=P3)
def _(c, plane, ax):
    H, V = c.enum("ViewAxis", "H"), c.enum("ViewAxis", "V")
    return Opt(Or(ax == hv(c, plane, 0), ax == hv(c, plane, 1)), If(ax == hv(c, plane, 0), H, V))


@spec("domain::transpose", ["Plane", "Segment::Axis"], props=P3)
def _(c, plane, sa):
    H, V = c.enum("Segment::Axis", "H"), c.enum("Segment::Axis", "V")
    return Opt(Or(sa == H, sa == V), If(sa == H, hv(c, plane, 1), hv(c, plane, 0)))


@spec("domain::reverse", ["ViewAxis"], props=P3)
def _(c, a):
    H, V = c.enum("ViewAxis", "H"), c.enum("ViewAxis", "V")
    return If(a == H, V, H)


@spec("domain::reverse", ["Normal"], props=P3)
def _(c, a):
    N = lambda n: c.enum("Normal", n)
    r = a
    for x in "XYZ":
        r = If(a == N(x + "MIN"), N(x + "MAX"), If(a == N(x + "MAX"), N(x + "MIN"), r))
    return r


@spec("domain::cast", ["Segment::Axis"], props=P3)
def _(c, a):
    H, V = c.enum("Segment::Axis", "H"), c.enum("Segment::Axis", "V")
    return Opt(Or(a == H, a == V), If(a == H, c.enum("ViewAxis", "H"), c.enum("ViewAxis", "V")))


@spec("domain::cast", ["ViewAxis"], props=P3)
def _(c, a):
    return If(a == c.enum("ViewAxis", "H"), c.enum("Segment::Axis", "H"), c.enum("Segment::Axis", "V"))


@spec("domain::coord", ["Point&", "ViewAxis"], props=P3)
def _(c, p, a):
    return c.coord(If(a == c.enum("ViewAxis", "H"), d(p.x), d(p.y)))


@spec("domain::coord", ["Point&", "Segment::Axis"], props=P3)
def _(c, p, a):
    H, V = c.enum("Segment::Axis", "H"), c.enum("Segment::Axis", "V")
    return Opt(Or(a == H, a == V), c.coord(If(a == H, d(p.y), d(p.x))))


# ---- G02 ---------------------------------------------------------------------------
P2 = ["G02"]
B1, B2 = "array<Coord,2>&", "array<Coord,4>&"


def meet(a0, a1, b0, b1):
    """[a0,a1] and [b0,b1] share a point"""
    x = z3.Real("w")
    return And(a0 <= a1, b0 <= b1, a0 <= b1, b0 <= a1)


def ordered1(a): return d(a[0]) <= d(a[1])


def ordered2(a): return And(d(a[0]) <= d(a[1]), d(a[2]) <= d(a[3]))


@spec("domain::does_overlap", [B1, "Coord&"], props=P2)
def _(c, a, b): return And(d(a[0]) <= d(b), d(b) <= d(a[1]))


spec("domain::does_overlap", [B1, B1], props=P2, pre=lambda c, a, b: [ordered1(a), ordered1(b)])(
    lambda c, a, b: meet(d(a[0]), d(a[1]), d(b[0]), d(b[1])))
spec("domain::does_overlap", [B2, B2], props=P2, pre=lambda c, a, b: [ordered2(a), ordered2(b)])(
    lambda c, a, b: And(meet(d(a[0]), d(a[1]), d(b[0]), d(b[1])), meet(d(a[2]), d(a[3]), d(b[2]), d(b[3]))))


@spec("domain::does_overlap_strict", [B2, B2], props=P2, pre=lambda c, a, b: [ordered2(a), ordered2(b)])
def _(c, a, b):
    """the shared box has positive width and height"""
    w = zmin(d(a[1]), d(b[1])) - zmax(d(a[0]), d(b[0]))
    h = zmin(d(a[3]), d(b[3])) - zmax(d(a[2]), d(b[2]))
    return And(w > 0, h > 0)


@spec("domain::cast", ["ViewAxis", B2], props=P2 + P3)
def _(c, v, a):
    H = c.enum("ViewAxis", "H")
    return c.bnd(If(v == H, d(a[0]), d(a[2])), If(v == H, d(a[1]), d(a[3])))


spec("domain::does_overlap", ["Polygon::RangeZ&", "Polygon::RangeZ&"], props=P2, pre=lambda c, a, b: [d(a.min) <= d(a.max), d(b.min) <= d(b.max)])(
    lambda c, a, b: meet(d(a.min), d(a.max), d(b.min), d(b.max)))


@post("domain::Polygon::RangeZ::RangeZ", ["Coord&", "Coord&"], props=P2, at_call=False)
def _(c, r, a, b):
    lo, hi = d(c.this.min), d(c.this.max)
    return [("lower end", lo == zmin(d(a), d(b))), ("upper end", hi == zmax(d(a), d(b)))]


# ---- G01 ---------------------------------------------------------------------------
def seg_ends(s): return s._p0_, s._p1_


@spec("domain::bounding", ["Segment&"], props=["G01"])
def _(c, s):
    p, q = seg_ends(s)
    return c.bnd(zmin(d(p.x), d(q.x)), zmax(d(p.x), d(q.x)), zmin(d(p.y), d(q.y)), zmax(d(p.y), d(q.y)))


def bounding_inv(c, lc, pts):
    """for every array<Coord,4> the loop changes: bounds every vertex seen so far (Skolem vertex) and is attained by one of them"""
    out = {}
    if lc.seq is None: return out
    n = lc.seq[1]; k = lc.I.read(lc.ghost)
    m = z3.Int("m!vertex")
    for cid, t, v in lc.cells():
        if t is None or not t.s.startswith("std::array<domain::Coord,4"): continue
        b = [x.f["val"] for x in v.items]
        x, y = d(pts[m].x), d(pts[m].y)
        rng = And(m >= 0, m < k)
        out[f"b0{cid}"] = Implies(rng, b[0] <= x); out[f"b1{cid}"] = Implies(rng, b[1] >= x)
        out[f"b2{cid}"] = Implies(rng, b[2] <= y); out[f"b3{cid}"] = Implies(rng, b[3] >= y)
        # the first vertex is covered from the start
        out[f"f0{cid}"] = b[0] <= d(pts[0].x); out[f"f1{cid}"] = b[1] >= d(pts[0].x)
        out[f"f2{cid}"] = b[2] <= d(pts[0].y); out[f"f3{cid}"] = b[3] >= d(pts[0].y)
        for i, f in enumerate(("x", "x", "y", "y")):
            j = z3.Int("j!w")
            out[f"w{i}{cid}"] = z3.Exists([j], And(j >= 0, j < n, b[i] == d(getattr(pts[j], f))))
    return out


@post("domain::detect_bounding", None, props=["G01"], pre=lambda c, pts: pts.n >= 1, inv=bounding_inv)
def _(c, r, pts):
    b = [d(r[i]) for i in range(4)]
    j = z3.Int("j!w")
    if c.call_site:
        k = z3.Int("k!b")
        x, y = d(pts[k].x), d(pts[k].y)
        return [z3.ForAll([k], Implies(And(k >= 0, k < pts.n), And(b[0] <= x, x <= b[1], b[2] <= y, y <= b[3])))]
    k = z3.Int("m!vertex")
    c.I.assume(And(k >= 0, k < pts.n))
    x, y = d(pts[k].x), d(pts[k].y)
    return [("contains every vertex", And(b[0] <= x, x <= b[1], b[2] <= y, y <= b[3]))] + [
        (f"side {i} passes through a vertex", z3.Exists([j], And(j >= 0, j < pts.n, b[i] == d(getattr(pts[j], f))))) for i, f in enumerate(("x", "x", "y", "y"))]


# ---- G05 ---------------------------------------------------------------------------
P5 = ["G05"]


def axis_of(c, dx, dy):
    A = lambda n: c.enum("Segment::Axis", n)
    zx, zy = And(dx < TOL, -dx < TOL), And(dy < TOL, -dy < TOL)
    return If(And(zx, zy), A("POINT"), If(zx, A("V"), If(zy, A("H"), A("DIAGONAL"))))


spec("domain::axis", ["Point&"], props=P5)(lambda c, v: axis_of(c, d(v.x), d(v.y)))
spec("domain::axis", ["Point&", "Point&"], props=P5)(lambda c, a, b: axis_of(c, d(b.x) - d(a.x), d(b.y) - d(a.y)))


def same_span(a0, a1, b0, b1):
    return Or(And(peq(a0, b0), peq(a1, b1)), And(peq(a0, b1), peq(a1, b0)))


def ends(c, s):
    """endpoints of an Edge or a Range"""
    x, t = s.target()
    return s._p0, s._p1


for A in ("Range&", "Edge&"):
    for B in (("Range&", "Edge&") if A == "Range&" else ("Range&",)):
        spec("domain::operator==", [A, B], props=P5)(lambda c, a, b: same_span(*ends(c, a), *ends(c, b)))


@post("domain::Range::Range", ["Point", "Point"], props=P5, at_call=False)
def _(c, r, a, b):
    t = c.this
    I = c.I
    return [("endpoints", And(d(t._p0.x) == d(a.x), d(t._p0.y) == d(a.y), d(t._p1.x) == d(b.x), d(t._p1.y) == d(b.y))),
            ("axis", t.axis == axis_of(c, d(b.x) - d(a.x), d(b.y) - d(a.y)))]


def edge_direction(c, ax, dx, dy):
    A = lambda n: c.enum("Segment::Axis", n)
    D = lambda n: c.enum("Edge::Direction", n)
    return If(ax == A("H"), If(dx > 0, D("XMAX"), D("XMIN")), If(ax == A("V"), If(dy > 0, D("YMAX"), D("YMIN")), D("NONE")))


@post("domain::Edge::Edge", ["Plane", "Point*", "Point*", "TreeNode*"], props=P5, at_call=False)
def _(c, r, plane, a, b, t):
    e = c.this
    dx, dy = d(b.x) - d(a.x), d(b.y) - d(a.y)
    ax = axis_of(c, dx, dy)
    return [("endpoints", And(e._p0.raw == a.raw, e._p1.raw == b.raw)), ("vector", And(d(e.vec.x) == dx, d(e.vec.y) == dy)), ("plane", e.plane == plane),
            ("axis", e.axis == ax), ("direction", e.direction == edge_direction(c, ax, dx, dy)), ("no normal yet", e.normal == c.enum("Normal", "NONE"))]


for w in ("p0", "p1"):
    spec(f"domain::Edge::{w}", [], props=P5, at_call=False)(lambda c, w=w: ObjLoc(c.I.val(getattr(c.this, "_" + w)._x), c.ty("Point")))
    spec(f"domain::Range::{w}", [], props=P5, at_call=False)(lambda c, w=w: getattr(c.this, "_" + w)._x)

# ---- relation helpers (G09/G10) ----------------------------------------------------
P9 = ["G09", "G10"]
for A, B in (("PolygonPoint", "PolygonSegment"), ("PolygonSegment", "PolygonPoint")):
    @spec("domain::relation::cast", [f"relation::{A}"], props=P9)
    def _(c, a, A=A, B=B):
        e = lambda k, n: c.enum(f"relation::{k}", n)
        return If(a == e(A, "IN"), e(B, "IN"), If(a == e(A, "ON"), e(B, "ON"), e(B, "OUT")))

# ---- G06 ---------------------------------------------------------------------------
P6 = ["G06"]
AI, AR = z3.ArraySort(z3.IntSort(), z3.IntSort()), z3.ArraySort(z3.IntSort(), z3.RealSort())
# sum over m < i of  x_m y_(m+1) - x_(m+1) y_m  of the closed list (vertices, x of points, y of points, n)
SHOELACE = z3.Function("shoelace", AI, AR, AR, z3.IntSort(), z3.IntSort(), z3.RealSort())


def raw_vec(pts):
    I = pts._I
    x, t = pts.target()
    v = I.val(x)
    return v


def hx(c, f):
    """heap array of Point.x / Point.y"""
    t = c.ty("domain::Coord")
    return c.I.heap_arrays("domain::Point", f, t)[0]


def cross_at(pts, i, j):
    return d(pts[i].x) * d(pts[j].y) - d(pts[j].x) * d(pts[i].y)


def area2(c, pts):
    """twice the signed area"""
    v = raw_vec(pts)
    if isinstance(v, CVec):
        m = len(v.items)
        return sum((cross_at(pts, i, (i + 1) % m) for i in range(m)), z3.RealVal(0))
    n = S(v.n)
    return SHOELACE(v.arr[0], hx(c, "x"), hx(c, "y"), n, n)


def rot_of(c, a2):
    R = lambda n: c.enum("Polygon::Rotation", n)
    a = a2 / 2
    return If(And(a < TOL, -a < TOL), R("COLINEAR"), If(a > 0, R("CCW"), R("CW")))


def rotation_inv(c, lc, pts):
    out = {}
    v = raw_vec(pts)
    n = v.n
    X, Y = hx(c, "x"), hx(c, "y")
    sh = lambda i: SHOELACE(v.arr[0], X, Y, n, i)
    idx = [(i, k) for i, k in lc.idx()]
    lc.fact(sh(lit(0)) == 0)
    lc.fact(sh(n) == SHOELACE(v.arr[0], X, Y, S(n), S(n)))
    rs = lc.reals()
    for i, k in idx:
        nxt = If(k + 1 == n, lit(0), k + 1)
        # the defining equation of the shoelace sum, and arithmetic of the successor index
        lc.fact(Implies(And(k >= 0, k < n), And(sh(k + 1) == sh(k) + cross_at(pts, k, nxt), (k + 1) % n == nxt)))
        lc.fact(Implies(And(k >= 1, k <= n), And(sh(k) == sh(k - 1) + cross_at(pts, k - 1, If(k == n, lit(0), k)))))
        for a, x in rs:
            out[f"s{a}{i}"] = x == sh(k); out[f"h{a}{i}"] = 2 * x == sh(k); out[f"n{a}{i}"] = -x == sh(k)
            for b, y in rs:
                if a != b: out[f"d{a}{b}{i}"] = x - y == sh(k)
    return out


@spec("domain::detect_rotation", None, props=P6, inv=rotation_inv, pre=lambda c, pts: pts.n >= 1)
def _(c, pts): return rot_of(c, area2(c, pts))


def normal_of(c, rot, direc, old):
    R = lambda n: c.enum("Polygon::Rotation", n)
    D = lambda n: c.enum("Edge::Direction", n)
    N = lambda n: c.enum("Normal", n)
    # right-hand side of the direction of travel when counter-clockwise, left-hand side when clockwise
    ccw = If(direc == D("XMAX"), N("YMIN"), If(direc == D("XMIN"), N("YMAX"), If(direc == D("YMAX"), N("XMAX"), If(direc == D("YMIN"), N("XMIN"), N("NONE")))))
    cw = If(direc == D("XMAX"), N("YMAX"), If(direc == D("XMIN"), N("YMIN"), If(direc == D("YMAX"), N("XMIN"), If(direc == D("YMIN"), N("XMAX"), N("NONE")))))
    return If(rot == R("CCW"), ccw, If(rot == R("CW"), cw, old))


# any set of edges that contains those of the polygon
MEMBER = z3.Function("member", z3.IntSort(), z3.BoolSort())


def normals_inv(c, lc, *a):
    out = {}
    if lc.seq is None: return out
    k = lc.I.read(lc.ghost)
    m = z3.Int("m!edge"); r = z3.Int("frame!r"); j = z3.Int("j!e")
    es = c.this.edges
    with At(c.I, c.old): old = c.I.sel(c.I.heap_arrays("domain::Edge", "normal", c.ty("domain::Normal"))[0], es[m].ref)
    out["done"] = Implies(And(m >= 0, m < k), es[m].normal == normal_of(c, c.this.rotation, es[m].direction, old))
    H = c.I.heap_arrays("domain::Edge", "normal", c.ty("domain::Normal"))[0]
    with At(c.I, c.old): H0 = c.I.heap_arrays("domain::Edge", "normal", c.ty("domain::Normal"))[0]
    lc.fact(Implies(And(k >= 0, k < es.n), MEMBER(es[k].ref)))
    out["others"] = Implies(Not(MEMBER(r)), H[r] == H0[r])
    return out


@post("domain::Polygon::detect_edge_normal", [], props=P6, inv=normals_inv, modifies=lambda c: [("domain::Edge", "normal")])
def _(c, r):
    es = c.this.edges
    rot = c.this.rotation
    R = lambda n: c.enum("Polygon::Rotation", n)
    H = c.I.heap_arrays("domain::Edge", "normal", c.ty("domain::Normal"))[0]
    with At(c.I, c.old): H0 = c.I.heap_arrays("domain::Edge", "normal", c.ty("domain::Normal"))[0]
    N = lambda n: c.enum("Normal", n)
    m = z3.Int("m!edge"); q = z3.Int("frame!r"); j = z3.Int("j!e")
    f1 = Implies(And(m >= 0, m < es.n), H[es[m].ref] == normal_of(c, rot, es[m].direction, H0[es[m].ref]))
    f2 = Implies(Not(MEMBER(q)), H[q] == H0[q])
    if c.call_site: return [z3.ForAll([m], f1)]
    return [("normal points outside", f1), ("nothing else changes", f2)]


# ---- G07 ---------------------------------------------------------------------------
P7 = ["G07"]


def chain(c, pts, edges, plane, m):
    """edge m joins the cyclic predecessor of vertex m to vertex m, on the plane"""
    n = pts.n
    e = edges[m]
    pm = If(m == 0, n - 1, m - 1)
    return And(e._p0.raw == pts[pm].raw, e._p1.raw == pts[m].raw, e.plane == plane)


def edge_built(c, pts, edges, m):
    n = pts.n
    e = edges[m]
    a, b = pts[If(m == 0, n - 1, m - 1)], pts[m]
    dx, dy = d(b.x) - d(a.x), d(b.y) - d(a.y)
    ax = axis_of(c, dx, dy)
    return And(e.axis == ax, d(e.vec.x) == dx, d(e.vec.y) == dy, e.direction == edge_direction(c, ax, dx, dy), e.normal == c.enum("Normal", "NONE"))


def edges_inv(c, lc, pts, plane, t):
    out = {}
    I = c.I
    m = z3.Int("m!edge")
    ks = ([("g", I.read(lc.ghost))] if lc.seq is not None else []) + lc.idx()
    vs = [(cid, wrap(I, CellLoc(cid), I.st.ctys[cid])) for cid, v in lc.vecs() if cid in I.st.ctys and "Edge" in I.st.ctys[cid].s]
    n = pts.n
    for kn, k in ks:
        for cid, v in vs:
            out[f"len{kn}{cid}"] = v.n == k
            out[f"ch{kn}{cid}"] = Implies(And(m >= 0, m < k), And(chain(c, pts, v, plane, m), edge_built(c, pts, v, m)))
            out[f"new{kn}{cid}"] = Implies(And(m >= 0, m < k), And(v[m].raw >= I.st.alloc, v[m].raw < 0))
        for cid, t, v in lc.cells():
            if t is not None and t.k == "p" and z3.is_expr(v):
                out[f"prev{kn}{cid}"] = v == pts[If(k == 0, n - 1, k - 1)].raw
    return out


@post("domain::detect_edges", None, props=P7 + P5, inv=edges_inv, pre=lambda c, pts, plane, t: pts.n >= 1)
def _(c, r, pts, plane, t):
    m = z3.Int("m!edge")
    g = And(m >= 0, m < r.n)
    if c.call_site:
        return [r.n == pts.n, z3.ForAll([m], Implies(g, And(chain(c, pts, r, plane, m), edge_built(c, pts, r, m), r[m].ref < 0)))]
    return [("one edge per vertex", r.n == pts.n), ("closed chain in vertex order", Implies(g, chain(c, pts, r, plane, m))), ("edge contents", Implies(g, edge_built(c, pts, r, m)))]


# ---- G08 ---------------------------------------------------------------------------
P8 = ["G08"]


def box(c, s):
    p, q = seg_ends(s)
    return zmin(d(p.x), d(q.x)), zmax(d(p.x), d(q.x)), zmin(d(p.y), d(q.y)), zmax(d(p.y), d(q.y))


def colinear_aligned(c, a, b):
    A = lambda n: c.enum("Segment::Axis", n)
    (p, q), (r, s) = seg_ends(a), seg_ends(b)
    h = And(a.axis == A("H"), b.axis == A("H"), d(p.y) == d(q.y), d(p.y) == d(r.y), d(p.y) == d(s.y))
    v = And(a.axis == A("V"), b.axis == A("V"), d(p.x) == d(q.x), d(p.x) == d(r.x), d(p.x) == d(s.x))
    return Or(h, v)


def range_box(r):
    p, q = r._p0, r._p1
    return zmin(d(p.x), d(q.x)), zmax(d(p.x), d(q.x)), zmin(d(p.y), d(q.y)), zmax(d(p.y), d(q.y))


def extents_meet(A, B):
    return And(A[0] <= B[1], B[0] <= A[1], A[2] <= B[3], B[2] <= A[3])


def well_axis(c, s):
    p, q = seg_ends(s)
    return s.axis == axis_of(c, d(q.x) - d(p.x), d(q.y) - d(p.y))


def om(kind):
    def f(c, r, a, b):
        A, B = box(c, a), box(c, b)
        R = range_box(r.value)
        lo, hi = (zmax, zmin) if kind == "overlap" else (zmin, zmax)
        exact = And(r.has, R[0] == lo(A[0], B[0]), R[1] == hi(A[1], B[1]), R[2] == lo(A[2], B[2]), R[3] == hi(A[3], B[3]))
        q = r.value
        return [("exact on colinear axis-aligned segments that meet", Implies(And(colinear_aligned(c, a, b), extents_meet(A, B)), exact)),
                ("nothing when the extents do not meet", Implies(Not(extents_meet(A, B)), Not(r.has))),
                ("classified", Implies(r.has, q.axis == axis_of(c, d(q._p1.x) - d(q._p0.x), d(q._p1.y) - d(q._p0.y))))]
    return f


for kind in ("overlap", "merge"):
    post("domain::" + kind, ["Segment&", "Segment&"], props=P8, pre=lambda c, a, b: [well_axis(c, a), well_axis(c, b)], at_call=False)(om(kind))


@spec("domain::intersection", ["Segment&", "Segment&"], props=P8, pre=lambda c, a, b: [well_axis(c, a), well_axis(c, b)], at_call=False)
def _(c, a, b):
    A = lambda n: c.enum("Segment::Axis", n)
    (p, q), (r, s) = seg_ends(a), seg_ends(b)
    hvp = And(a.axis == A("H"), b.axis == A("V")); vh = And(a.axis == A("V"), b.axis == A("H"))
    dg = Or(a.axis == A("DIAGONAL"), b.axis == A("DIAGONAL"))
    ux, uy, vx, vy = d(q.x) - d(p.x), d(q.y) - d(p.y), d(s.x) - d(r.x), d(s.y) - d(r.y)
    den = ux * vy - uy * vx
    # parameter along b of the point of b's line that is on a's line
    m = (ux * (d(p.y) - d(r.y)) - uy * (d(p.x) - d(r.x))) / den
    has = Or(hvp, vh, And(dg, den != 0, m >= 0, m <= 1))
    return Opt(has, c.point(If(hvp, d(r.x), If(vh, d(p.x), d(r.x) + m * vx)), If(hvp, d(p.y), If(vh, d(r.y), d(r.y) + m * vy))))


@lemma("a reported intersection is on both supporting lines", props=P8)
def _(c):
    px, py, ux, uy, rx, ry, vx, vy = z3.Reals("px py ux uy rx ry vx vy")
    den = ux * vy - uy * vx
    m = z3.Real("m")
    h = [den != 0, m * den == ux * (py - ry) - uy * (px - rx)]
    X, Y = rx + m * vx, ry + m * vy
    return [("on the first line", h, ux * (Y - py) - uy * (X - px) == 0), ("on the second line", h, vx * (Y - ry) - vy * (X - rx) == 0)]


# ---- G09 ---------------------------------------------------------------------------
def tri(c, p, q, r):
    """rotation of the triangle p q r"""
    a2 = (d(p.x) * d(q.y) - d(q.x) * d(p.y)) + (d(q.x) * d(r.y) - d(r.x) * d(q.y)) + (d(r.x) * d(p.y) - d(p.x) * d(r.y))
    return rot_of(c, a2)


def on_segment(c, p, q, r):
    return And(tri(c, p, q, r) == c.enum("Polygon::Rotation", "COLINEAR"), d(r.x) >= zmin(d(p.x), d(q.x)), d(r.x) <= zmax(d(p.x), d(q.x)),
               d(r.y) >= zmin(d(p.y), d(q.y)), d(r.y) <= zmax(d(p.y), d(q.y)))


RS = z3.RealSort()
# opaque at call sites: "the point is on the segment", "relation of two segments" as functions of the coordinates
ON_SEG = z3.Function("on_segment", *[RS] * 6, z3.BoolSort())
SEG_REL = z3.Function("segment_relation", *[RS] * 8, z3.IntSort())


def xy(*ps): return [d(v) for p in ps for v in (p.x, p.y)]


def on_opaque(c, p, q, r): return ON_SEG(*xy(p, q, r))


def rel_point_opaque(c, pt):
    p, q = seg_ends(c.this)
    return If(on_opaque(c, p, q, pt), c.enum("relation::SegmentPoint", "ON"), c.enum("relation::SegmentPoint", "OUT"))


def rel_seg_opaque(c, s):
    (p, q), (r, t) = seg_ends(c.this), seg_ends(s)
    x = SEG_REL(*xy(p, q, r, t))
    vals = [c.enum("relation::SegmentSegment", n) for n in ("APART", "COLINEAR", "CROSSING", "OVERLAPPING")]
    c.I.assume(Or(*[x == v for v in vals]))
    # order-independent (lemma below)
    c.I.assume(x == SEG_REL(*xy(r, t, p, q)))
    return x


@spec("domain::Segment::relation_to", ["Point&"], props=["G09"], call=rel_point_opaque)
def _(c, pt):
    p, q = seg_ends(c.this)
    return If(on_segment(c, p, q, pt), c.enum("relation::SegmentPoint", "ON"), c.enum("relation::SegmentPoint", "OUT"))


def seg_relation(c, a, b):
    (p, q), (r, s) = seg_ends(a), seg_ends(b)
    col = c.enum("Polygon::Rotation", "COLINEAR")
    r1, r2, r3, r4 = tri(c, p, q, r), tri(c, p, q, s), tri(c, r, s, p), tri(c, r, s, q)
    E = lambda n: c.enum("relation::SegmentSegment", n)
    return If(And(r1 == col, r2 == col, r3 == col, r4 == col), If(extents_meet(box(c, a), box(c, b)), E("OVERLAPPING"), E("COLINEAR")),
              If(And(r1 != r2, r3 != r4), E("CROSSING"), E("APART")))


spec("domain::Segment::relation_to", ["Segment&"], props=["G09"], budget=90, tmo=20, call=rel_seg_opaque)(lambda c, s: seg_relation(c, c.this, s))


@lemma("the relation of two segments does not depend on their order", props=["G09"])
def _(c):
    t = c.ty("domain::Segment")
    a, b = (W(c.I, ObjLoc(z3.Int(n), t), t) for n in "ab")
    return [("symmetric", [], seg_relation(c, a, b) == seg_relation(c, b, a))]


# ---- G11 ---------------------------------------------------------------------------
PI_ = z3.Real("pi!")


@spec("domain::angle", ["Point&", "Point&"], props=["G11"])
def _(c, a, b):
    cr = d(a.x) * d(b.y) - d(a.y) * d(b.x)
    dt = d(a.x) * d(b.x) + d(a.y) * d(b.y)
    w = lib.ATAN2(If(cr >= 0, cr, -cr), dt)
    pi = z3.RealVal(fractions.Fraction(repr(math.pi)))
    # assumed of libm: the angle of a point of the upper half plane is in [0, pi]
    c.I.assume(And(w >= 0, w <= pi))
    return c.coord(w * 180 / pi)


@lemma("the angle does not depend on the order of the directions", props=["G11"])
def _(c):
    ax, ay, bx, by = z3.Reals("ax ay bx by")
    z = lambda x: If(x >= 0, x, -x)
    return [("symmetric", [], And(z(ax * by - ay * bx) == z(bx * ay - by * ax), ax * bx + ay * by == bx * ax + by * ay))]


def circle_step(n):
    return z3.RealVal(fractions.Fraction(repr(math.pi)) / 2) / z3.ToReal(n)


def circle_at(c, ctr, rad, n, r, m):
    a = circle_step(n) * z3.ToReal(m)
    return And(d(r[m].x) == d(ctr.x) + rad * lib.UF["cos"](a), d(r[m].y) == d(ctr.y) + rad * lib.UF["sin"](a))


def circle_inv(c, lc, ctr, rad, n0):
    out = {}
    I = c.I
    n = If(n0 == 0, lit(1), n0)
    m = z3.Int("m!v")
    for cid, v in lc.vecs():
        if cid not in I.st.ctys: continue
        w = wrap(I, CellLoc(cid), I.st.ctys[cid])
        for i, k in lc.idx():
            out[f"len{cid}{i}"] = w.n == k
            out[f"at{cid}{i}"] = Implies(And(m >= 0, m < k), And(circle_at(c, ctr, rad, n, w, m), w[m].raw < 0, w[m].raw >= I.st.alloc))
            out[f"top{i}"] = k <= 4 * n
    return out


@post("domain::circle_to_points", None, props=["G11"], inv=circle_inv)
def _(c, r, ctr, rad, n0):
    n = If(n0 == 0, lit(1), n0)
    m = z3.Int("m!v")
    g = And(m >= 0, m < r.n)
    f = Implies(g, circle_at(c, ctr, rad, n, r, m))
    return [("four vertices per slice", r.n == 4 * n), ("vertex m at angle m*(90 degrees)/slices and at the radius", z3.ForAll([m], f) if c.call_site else f)]


@post("domain::Angle::Angle", None, props=["G11"], at_call=False)
def _(c, r, p, e0, e1, t):
    a = c.this
    u, v = e0.vec, e1.vec
    cr = d(u.x) * d(v.y) - d(u.y) * d(v.x)
    dt = d(u.x) * d(v.x) + d(u.y) * d(v.y)
    w = lib.ATAN2(If(cr >= 0, cr, -cr), dt)
    return [("angle of the two edges", d(a.angle) == w * 180 / z3.RealVal(fractions.Fraction(repr(math.pi)))),
            ("vertex and edges kept", And(d(a.p.x) == d(p.x), d(a.p.y) == d(p.y), a.e0.raw == e0.raw, a.e1.raw == e1.raw, a.plane == e0.plane))]


def take_inv(c, lc, *a): return {}


@post("domain::Polygon::Polygon", None, props=P6 + P7 + ["G01"], at_call=False, pre=lambda c, plane, mat, name, prio, z, pts, t: pts.n >= 1,
      modifies=lambda c, plane, mat, name, prio, z, pts, t: [("domain::Edge", "normal"), ("Caretaker", "owned!"), pts])
def _(c, r, plane, mat, name, prio, z, pts, t):
    p = c.this
    with At(c.I, c.old):
        n0 = pts.n
        v0 = raw_vec(pts)
        a2 = area2(c, pts)
    vs, es, b = p.points, p.edges, p.bounding
    m = z3.Int("m!edge")
    k = z3.Int("k!w")
    g = And(m >= 0, m < n0)
    vv = raw_vec(vs)
    R = lambda n: c.enum("Polygon::Rotation", n)
    c.I.assume(g)
    return [("keeps its vertices", And(vv.n == n0, *[x[m] == y[m] for x, y in zip(vv.arr, v0.arr)])),
            ("rotation", p.rotation == rot_of(c, a2)),
            ("edges", And(es.n == n0, chain(c, vs, es, plane, m))),
            ("normals", es[m].normal == normal_of(c, p.rotation, es[m].direction, c.enum("Normal", "NONE"))),
            ("bounding contains every vertex", And(d(b[0]) <= d(vs[m].x), d(vs[m].x) <= d(b[1]), d(b[2]) <= d(vs[m].y), d(vs[m].y) <= d(b[3]))),
            ("plane, priority, height, name, material", And(p.plane == plane, p.priority == prio, d(p.z_placement.min) == d(z.min), d(p.z_placement.max) == d(z.max), p.name == name, p.material.raw == mat.raw))]


# ---- G10 ---------------------------------------------------------------------------
def poly_on(c, P, pt, m):
    """the point equals vertex m, or is on edge m"""
    e = P.edges[m]
    return Or(And(m >= 0, m < P.points.n, peq(P.points[m], pt)), And(m >= 0, m < P.edges.n, on_opaque(c, e._p0, e._p1, pt)))


def rel_inv(c, lc, pt):
    out = {}
    m = z3.Int("m!edge")
    I = c.I
    if lc.seq is not None:
        k = I.read(lc.ghost)
        P = c.this
        out["v"] = Implies(And(m >= 0, m < k, m < P.points.n, lc.seq[1] == P.points.n), Not(peq(P.points[m], pt)))
        e = P.edges[m]
        out["e"] = Implies(And(m >= 0, m < k, m < P.edges.n), Not(on_opaque(c, e._p0, e._p1, pt)))
    return out
