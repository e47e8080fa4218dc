"""Contracts of the diagonal zones: M15."""
import z3
from verify import *
from geometrics import d
from mesh import at_old, orig_mod, fa, same_fields, pattern_ok
from intervals import seq_of, OWNED

P15 = ["M15"]
LISTED = z3.Function("any_set_with_the_listed_ones", z3.IntSort(), z3.BoolSort())
# spatial axes of a plane: (horizontal, vertical)
PLANES = {"YZ": ("Y", "Z"), "ZX": ("Z", "X"), "XY": ("X", "Y")}


def in_plane(c, plane, axis):
    return Or(*[And(plane == c.enum("Plane", p), Or(*[axis == c.enum("Axis", a) for a in hv])) for p, hv in PLANES.items()])


def horizontal(c, plane, axis):
    """the spatial axis is the horizontal one of the plane"""
    return Or(*[And(plane == c.enum("Plane", p), axis == c.enum("Axis", h)) for p, (h, v) in PLANES.items()])


def along(c, p, plane, axis): return If(horizontal(c, plane, axis), d(p.x), d(p.y))


def ty_ptr(c, n): return c.I.prog.tys["domain::" + n + "*"]


def ptr_to(c, n, x): return wrap(c.I, x, ty_ptr(c, n))


def all_of(c, n):
    """states and times of every object of class n"""
    t = c.I.prog.tys["domain::" + n]
    return [(l.decl, l.name) for l in (lib.cur_field(c.I, ObjLoc(z3.Int("any!"), t)), lib.tp_field(c.I, ObjLoc(z3.Int("any!"), t)))]


def used_at(c, n, x, t):
    """object x of class n already has a state at t"""
    I = c.I
    b = lib.orig_ty(I, ObjLoc(x, I.prog.tys["domain::" + n]))
    return z3.Select(z3.Select(lib.used_arr(I, b), x), t)


def used_pat(c, n, x, t): return used_at(c, n, x, t)


def meshed(c, a, axis): return If(horizontal(c, a.plane, axis), a.state.to_mesh[c.enum("ViewAxis", "H")], a.state.to_mesh[c.enum("ViewAxis", "V")])


def unmeshed(c, a, axis): return If(horizontal(c, a.plane, axis), a.state.to_mesh[c.enum("ViewAxis", "V")], a.state.to_mesh[c.enum("ViewAxis", "H")])


def sharp(c, a):
    with At(c.I, c.old): m = c.this.global_params.state.consecutive_diagonal_minimal_angle
    return d(a.angle) >= m


def zone(c):
    with At(c.I, c.old): return wrap(c.I, c.this.state.raw, c.this.state._t)


def new_time(c, lc, n, t):
    """a point in time made by the function itself is no object's yet when the function starts"""
    if z3.is_int_value(S(t)) and S(t).as_long() < 0:
        p = z3.Int("p!nt")
        with At(c.I, c.old): u = used_at(c, n, p, t)
        lc.fact(fa([p], Not(u), u))


def the_time(c, lc):
    """the point in time the states are recorded at (first of the pair made by make_next_state)"""
    for cid, v in c.I.st.cells.items():
        if isinstance(v, Tup) and len(v.items) == 2 and isinstance(v.items[1], Struct) and z3.is_expr(v.items[0]): return v.items[0]
    return None


@post("domain::ConflictDiagonalOrCircularZone::bounding", None, props=P15, pre=lambda c: [c.this.state.angles.n >= 1], modifies=lambda c: [])
def _(c, r):
    z = c.this.state.angles
    out = []
    for i, a, w in ((0, z[0], "first"), (1, z[z.n - 1], "last")):
        out.append((f"one end at its {w} angle", Implies(in_plane(c, a.plane, c.this.axis), d(r[i]) == along(c, a.p, a.plane, c.this.axis))))
    return out


ANGLE_FIELDS = ("conflicts", "conflict", "meshline_policy")


def flat_same(c, a, b, names):
    I = c.I
    out = []
    for f in names:
        x, y = getattr(a, f), getattr(b, f)
        out += [p == q for p, q in zip(I.flat(x.raw), I.flat(y.raw))] if isinstance(x, W) else [x == y]
    return And(*out)


def names_of(c, st): return [f for _, f, _ in c.I.prog.fields(st._t)]


def sa_inv(c, lc):
    I = c.I
    z = zone(c)
    n, es = z.angles.n, seq_of(z.angles)
    t = the_time(c, lc)
    if lc.ghost is None or t is None or lc.seq is None: return {}
    k = I.read(lc.ghost)
    g = lc.seq[2]
    p, j = z3.Ints("p!sa j!sa")
    P = ptr_to(c, "Angle", p)
    axis = c.this.axis
    rest = [f for f in names_of(c, P.state) if f != "to_mesh"]
    first, last = z.angles[0].raw, z.angles[n - 1].raw
    isin = in_plane(c, P.plane, axis)
    po = at_old(c, P)
    out = {}
    lc.fact(fa([j], Implies(And(j >= 0, j < n), LISTED(z3.Select(es, j))), z3.Select(es, j)))
    U = used_at(c, "Angle", p, t)
    new_time(c, lc, "Angle", t)
    out["rest"] = fa([p], Implies(p > 0, flat_same(c, P.state, po, rest)))
    out["axis"] = fa([p], Implies(p > 0, If(isin, unmeshed(c, P, axis) == If(horizontal(c, P.plane, axis), po.to_mesh[1], po.to_mesh[0]), And(P.state.to_mesh[0] == po.to_mesh[0], P.state.to_mesh[1] == po.to_mesh[1]))))
    out["unlisted"] = fa([p], Implies(And(p > 0, Not(LISTED(p))), And(P.state.to_mesh[0] == po.to_mesh[0], P.state.to_mesh[1] == po.to_mesh[1])))
    seen = Or(p == first, p == last)
    out["ends"] = fa([p], Implies(And(p > 0, U, seen, isin), meshed(c, P, axis)))
    out["inner"] = fa([p], Implies(And(p > 0, U, Not(seen), isin), meshed(c, P, axis) == sharp(c, P)))
    out["endsused"] = And(*[Implies(in_plane(c, ptr_to(c, "Angle", x).plane, axis), used_at(c, "Angle", x, t)) for x in (first, last)])
    out["used"] = fa([j], Implies(And(j >= 1, j <= k, j < n - 1, in_plane(c, z.angles[j].plane, axis)), used_at(c, "Angle", z.angles[j].raw, t)), z3.Select(es, j))
    return out


@post("domain::ConflictDiagonalOrCircularZone::solve_angles", None, props=P15, pre=lambda c: [c.this.state.angles.n >= 1] + listed_valid(c), inv=sa_inv, modifies=lambda c: all_of(c, "Angle"))
def _(c, r):
    if c.call_site: return []
    I = c.I
    z = zone(c)
    n, es = z.angles.n, seq_of(z.angles)
    j, p = z3.Ints("j!sa p!sa")
    I.assume(fa([j], Implies(And(j >= 0, j < n), LISTED(z3.Select(es, j))), z3.Select(es, j)))
    axis = c.this.axis
    a = z.angles[j]
    ok = And(j >= 0, j < n, in_plane(c, a.plane, axis))
    end = Or(a.raw == z.angles[0].raw, a.raw == z.angles[n - 1].raw)
    P = ptr_to(c, "Angle", p)
    po = at_old(c, P)
    rest = [f for f in names_of(c, P.state) if f != "to_mesh"]
    return [("first and last angles are meshed along the axis", Implies(And(ok, end), meshed(c, a, axis))),
            ("an inner angle is meshed along the axis exactly when it is sharp enough", Implies(And(ok, Not(end)), meshed(c, a, axis) == sharp(c, a))),
            ("the other axis is left alone", Implies(And(p > 0, in_plane(c, P.plane, axis)), unmeshed(c, P, axis) == If(horizontal(c, P.plane, axis), po.to_mesh[1], po.to_mesh[0]))),
            ("an angle of another plane is left alone", Implies(And(p > 0, Not(in_plane(c, P.plane, axis))), And(P.state.to_mesh[0] == po.to_mesh[0], P.state.to_mesh[1] == po.to_mesh[1]))),
            ("other angles are left alone", Implies(And(p > 0, Not(LISTED(p))), And(P.state.to_mesh[0] == po.to_mesh[0], P.state.to_mesh[1] == po.to_mesh[1]))),
            ("nothing else of an angle changes", Implies(p > 0, flat_same(c, P.state, po, rest)))]


def listed_valid(c):
    """the angles listed are objects"""
    j = z3.Int("j!lv")
    es = c.this.state.angles
    return [fa([j], Implies(And(j >= 0, j < es.n), seq_of(es)[j] > 0), seq_of(es)[j])]


def si_inv(c, lc):
    I = c.I
    z = zone(c)
    n, es = z.intervals.n, seq_of(z.intervals)
    t = the_time(c, lc)
    if lc.ghost is None or t is None: return {}
    k = I.read(lc.ghost)
    p, j = z3.Ints("p!si j!si")
    X = ptr_to(c, "Interval", p)
    xo = at_old(c, X)
    rest = [f for f in names_of(c, X.state) if f != "dmax"]
    lc.fact(fa([j], Implies(And(j >= 0, j < n), LISTED(z3.Select(es, j))), z3.Select(es, j)))
    new_time(c, lc, "Interval", t)
    U = used_at(c, "Interval", p, t)
    return {"rest": fa([p], Implies(p > 0, flat_same(c, X.state, xo, rest))), "unlisted": fa([p], Implies(And(p > 0, Not(LISTED(p))), X.state.dmax == xo.dmax)),
            "set": fa([p], Implies(And(p > 0, U), X.state.dmax == z.dmax)), "used": fa([j], Implies(And(j >= 0, j < k, j < n), used_at(c, "Interval", z3.Select(es, j), t)), z3.Select(es, j))}


def intervals_valid(c):
    j = z3.Int("j!lv")
    es = c.this.state.intervals
    return [fa([j], Implies(And(j >= 0, j < es.n), seq_of(es)[j] > 0), seq_of(es)[j])]


@post("domain::ConflictDiagonalOrCircularZone::solve_intervals", None, props=P15, pre=intervals_valid, inv=si_inv, modifies=lambda c: all_of(c, "Interval"))
def _(c, r):
    if c.call_site: return []
    z = zone(c)
    n, es = z.intervals.n, seq_of(z.intervals)
    j, p = z3.Ints("j!si p!si")
    c.I.assume(fa([j], Implies(And(j >= 0, j < n), LISTED(z3.Select(es, j))), z3.Select(es, j)))
    X = ptr_to(c, "Interval", p)
    xo = at_old(c, X)
    return [("every attached interval gets the spacing of the zone", Implies(And(j >= 0, j < n), z.intervals[j].state.dmax == z.dmax)),
            ("other intervals keep theirs", Implies(And(p > 0, Not(LISTED(p))), X.state.dmax == xo.dmax)),
            ("nothing else of an interval changes", Implies(p > 0, flat_same(c, X.state, xo, [f for f in names_of(c, X.state) if f != "dmax"])))]


@post("domain::ConflictDiagonalOrCircularZone::ConflictDiagonalOrCircularZone", None, props=P15, modifies=lambda c, *a: [])
def _(c, r, axis, angles, gp, t):
    z = c.this
    s, g = z.state, gp.state
    return [("axis and parameters", And(z.axis == axis, z.global_params.raw == gp.raw)), ("spacing, line count and angle of the parameters", And(s.dmax == g.diagonal_dmax, s.lmin == g.lmin, s.minimal_angle == g.consecutive_diagonal_minimal_angle)),
            ("its angles as given", veq_list(c, s.angles, angles)), ("no interval yet", s.intervals.n == 0)]


def veq_list(c, a, b):
    j = z3.Int("j!vl")
    f = Implies(And(j >= 0, j < b.n), seq_of(a)[j] == seq_of(b)[j])
    return And(a.n == b.n, fa([j], f, seq_of(a)[j]) if c.call_site else f)


@post("domain::ConflictDiagonalOrCircularZone::append", None, props=P15, nullable=(1,), pre=lambda c, v, t: [Or(t.raw == 0, Not(lib.is_used(c.I, c.this.target()[0], t.raw)))], modifies=lambda c, *a: orig_mod(c, c.this))
def _(c, r, more, t):
    s, so = c.this.state, at_old(c, c.this)
    j = z3.Int("j!ap")
    q = (lambda f, p: fa([j], f, p)) if c.call_site else (lambda f, p: f)
    a, b, m = seq_of(s.intervals), seq_of(so.intervals), seq_of(more)
    return [("as many more", s.intervals.n == so.intervals.n + more.n), ("earlier ones kept", q(Implies(And(j >= 0, j < so.intervals.n), a[j] == b[j]), a[j])),
            ("the given ones follow", q(Implies(And(j >= 0, j < more.n), a[so.intervals.n + j] == m[j]), m[j])),
            ("nothing else changes", flat_same(c, s, so, [f for f in names_of(c, s) if f != "intervals"]))]


# ---- opening a zone ------------------------------------------------------------------
def adz_pre(c, axis, angles, gp):
    j = z3.Int("j!lv")
    return [fa([j], Implies(And(j >= 0, j < angles.n), seq_of(angles)[j] > 0), seq_of(angles)[j])]


@post("domain::ConflictManager::add_diagonal_or_circular_zone", None, props=P15, pre=adz_pre, modifies=lambda c, *a: orig_mod(c, c.this) + [OWNED])
def _(c, r, axis, angles, gp):
    if c.call_site: return []
    I = c.I
    with At(I, c.old): given = wrap(I, angles.raw, angles._t)
    n, es = given.n, seq_of(given)
    i, j, p = z3.Ints("i!az j!az p!az")
    plane = given[0].plane
    I.assume(fa([j], Implies(And(j >= 0, j < n), LISTED(z3.Select(es, j))), z3.Select(es, j)))
    same = z3.ForAll([j], Implies(And(j >= 0, j < n), given[j].plane == plane))
    ok = And(n >= 1, same, in_plane(c, plane, axis))
    new, old = c.this.state, at_old(c, c.this)
    nl, ol = new.all_diagonal_or_circular_zone, old.all_diagonal_or_circular_zone
    out = []
    for a in "XYZ":
        k = c.enum("Axis", a)
        out.append((f"one more zone on {a} exactly when due", nl[k].n == If(And(ok, axis == k), ol[k].n + 1, ol[k].n)))
        out.append((f"earlier zones on {a} kept", Implies(And(j >= 0, j < ol[k].n), nl[k][j].raw == ol[k][j].raw)))
    z = nl[axis][ol[axis].n]
    s, g = z.state, gp.state
    A = s.angles
    return out + [("parameters", Implies(ok, And(z.axis == axis, s.dmax == g.diagonal_dmax, s.lmin == g.lmin, s.minimal_angle == g.consecutive_diagonal_minimal_angle, z.global_params.raw == gp.raw))),
                  ("as many angles as given", Implies(ok, A.n == n)), ("its angles are given ones", Implies(And(ok, j >= 0, j < n), LISTED(A[j].raw))),
                  ("sorted along the axis", Implies(And(ok, i >= 0, i < j, j < n), along(c, A[i].p, plane, axis) <= along(c, A[j].p, plane, axis)))]


# ---- M16: an edge covered by other polygons ------------------------------------------
P16 = ["M16"]
R_ = z3.RealSort()
MERGE = [z3.Function(f"merge_{n}", *[z3.IntSort(), R_, R_, R_, R_] * 2, s) for n, s in (("has", z3.BoolSort()), ("axis", z3.IntSort()), ("x0", R_), ("y0", R_), ("x1", R_), ("y1", R_))]


def seg5(c, s):
    """axis and ends of a segment, as plain values"""
    p, q = s._p0_, s._p1_
    return [s.axis, d(p.x), d(p.y), d(q.x), d(q.y)]


def range_of(c, v):
    """a Range made of plain values (axis, x0, y0, x1, y1)"""
    t = c.I.prog.tys["domain::Range"]
    return c.I.rebuild_from(t, v)


# the merge of two segments depends on nothing but them; what it is, is decided by G08
@spec("domain::merge", ["Segment&", "Segment&"], props=[])
def _(c, a, b):
    v = [f(*seg5(c, a), *seg5(c, b)) for f in MERGE]
    rt = c.I.prog.ty(c.tu, c.fn["ret"])
    return Opt(v[0], unflat(c, rt.strip().a[0], v[1:]))


def unflat(c, t, v):
    x = c.I.fresh_val(t.strip(), "u")
    return c.I.rebuild(x, iter(v))


def OV(c, w): 
    """accessors of a list of overlaps: number, and element k as (polygon, axis, x0, y0, x1, y1, has edge, edge)"""
    v = w.raw
    v = c.I.tovec(v)
    return v.n, lambda k: [z3.Select(a, k) for a in v.arr]


def before(vx, vy, a, b):
    """overlap a starts strictly before b along the vector"""
    go = lambda v, p, q: And(Implies(v > 0, p < q), Implies(v < 0, p > q))
    return And(Or(vx != 0, vy != 0), go(vx, a[2], b[2]), go(vy, a[3], b[3]))


ANYOV = z3.Function("any_set_of_overlaps", z3.IntSort(), R_, R_, R_, R_, z3.BoolSort(), z3.IntSort(), z3.BoolSort())


def anyov(e): return ANYOV(e[0], *e[2:6], e[6], If(e[6], e[7], lit(0)))


def anyov_set(c, n, get):
    j = z3.Int("j!ov")
    return fa([j], Implies(And(j >= 0, j < n), anyov(get(j))), get(j)[0])


@post("domain::sort_overlaps_by_p0_by_vector_orientation", None, props=P16, modifies=lambda c, ov, v: [ov])
def _(c, r, ov, vec):
    I = c.I
    with At(I, c.old): n0, old_ = OV(c, wrap(I, ov.raw, ov._t))
    n, new = OV(c, ov)
    i, j, w = z3.Ints("i!so j!so w!so")
    vx, vy = d(vec.x), d(vec.y)
    same = lambda a, b: And(*[p == q for p, q in zip(a, b)])
    q = (lambda vs, f, *ps: fa(vs, f, *ps)) if c.call_site else (lambda vs, f, *ps: f)
    sign = lambda v: ((v > 0, "+"), (v == 0, "0"), (v < 0, "-"))
    ordered = [(f"sorted along the vector {a}{b}", q([i, j], Implies(And(p, r_, i >= 0, i < j, j < n), Not(before(vx, vy, new(j), new(i)))), z3.MultiPattern(new(i)[0], new(j)[0]))) for p, a in sign(vx) for r_, b in sign(vy)]
    if c.call_site: ordered = [("sorted along the vector", q([i, j], Implies(And(i >= 0, i < j, j < n), Not(before(vx, vy, new(j), new(i)))), z3.MultiPattern(new(i)[0], new(j)[0])))]
    return [("as many", n == n0), *ordered,
            ("every one was there", q([j], Implies(And(j >= 0, j < n), z3.Exists([w], And(w >= 0, w < n, same(new(j), old_(w))))), new(j)[0])),
            ("none is lost", q([j], Implies(And(j >= 0, j < n), z3.Exists([w], And(w >= 0, w < n, same(old_(j), new(w))))), old_(j)[0]))]


# the span from one point to another runs against a vector; opaque to callers
AGAINST = z3.Function("runs_against", *[R_] * 6, z3.BoolSort())


def against(a, vx, vy): return AGAINST(*a[1:5], vx, vy)


def against_def(a, vx, vy): return (a[3] - a[1]) * vx + (a[4] - a[2]) * vy < 0


def turned_back():
    """a span running against a vector does not when it is reversed"""
    x0, y0, x1, y1, vx, vy = z3.Reals("x0!tb y0!tb x1!tb y1!tb vx!tb vy!tb")
    return fa([x0, y0, x1, y1, vx, vy], Implies(AGAINST(x0, y0, x1, y1, vx, vy), Not(AGAINST(x1, y1, x0, y0, vx, vy))), AGAINST(x0, y0, x1, y1, vx, vy))


@lemma("a span running against a vector does not when it is reversed", props=P16)
def _(c):
    x0, y0, x1, y1, vx, vy = z3.Reals("x0 y0 x1 y1 vx vy")
    return [("reversed", [], Implies(against_def([0, x0, y0, x1, y1], vx, vy), Not(against_def([0, x1, y1, x0, y0], vx, vy))))]


# the axis of a segment as of its ends; opaque to callers
KIND = z3.Function("kind_of_span", *[R_] * 4, z3.IntSort())


@post("domain::orient_by_vector", None, props=P16, modifies=lambda c, *a: [])
def _(c, r, rg, vec):
    a, b = seg5(c, rg), seg5(c, r)
    vx, vy = d(vec.x), d(vec.y)
    ag = against(a, vx, vy) if c.call_site else against_def(a, vx, vy)
    kd = (lambda s: KIND(*s[1:])) if c.call_site else (lambda s: kind_of(c, s))
    return [("reversed exactly when it runs against the vector", And(*[p == q for p, q in zip(b[1:], [If(ag, x, y) for x, y in zip(a[3:] + a[1:3], a[1:])])])), ("same kind", Implies(a[0] == kd(a), b[0] == kd(b)))]


def kind_of(c, s):
    from geometrics import axis_of
    return axis_of(c, s[3] - s[1], s[4] - s[2])


class Fold:
    """the covering spans joined in order: has, axis, ends, still running, after k overlaps of a list"""
    def __init__(self, c, n, get):
        Z, B = z3.IntSort(), z3.BoolSort()
        self.c = c; self.n = n; self.get = get
        self.H, self.A, self.X0, self.Y0, self.X1, self.Y1, self.RUN = (z3.Function("joined_" + x, Z, s) for x, s in (("has", B), ("axis", Z), ("x0", R_), ("y0", R_), ("x1", R_), ("y1", R_), ("running", B)))

    def m(self, k): return [f(k) for f in (self.A, self.X0, self.Y0, self.X1, self.Y1)]

    def facing(self, e):
        """the overlapped edge, when there is one, faces the same way"""
        c = self.c
        with At(c.I, c.old): return And(e[6], ptr_to(c, "Edge", e[7]).normal == c.this.edge.normal)

    def defs(self, k):
        c, e = self.c, self.get(k)
        rg = e[1:6]
        mm = [f(*rg, *self.m(k)) for f in MERGE]
        run = And(self.RUN(k), Not(self.facing(e)))
        join = And(run, self.H(k), mm[0])
        first = And(run, Not(self.H(k)))
        nxt = [If(first, a, If(join, b, x)) for a, b, x in zip(rg, mm[1:], self.m(k))]
        eqs = [self.RUN(k + 1) == Or(first, join), self.H(k + 1) == Or(self.H(k), first)] + [f == x for f, x in zip(self.m(k + 1), nxt)]
        frozen = And(self.H(self.n) == self.H(k), *[a == b for a, b in zip(self.m(self.n), self.m(k))])
        nf = And(self.H(self.n) == self.H(k + 1), *[a == b for a, b in zip(self.m(self.n), self.m(k + 1))])
        return [Not(self.H(lit(0))), self.RUN(lit(0)), Implies(And(k >= 0, k < self.n), And(*eqs)), Implies(And(k >= 0, k <= self.n, Not(self.RUN(k))), frozen), Implies(And(k >= 0, k < self.n, Not(self.RUN(k + 1))), nf)]


def ovlist(c, lc):
    """the list of overlaps the function works on"""
    for cid, v in c.I.st.cells.items():
        if isinstance(v, Tup) and len(v.items) == 2 and isinstance(v.items[1], Struct) and "overlaps" in v.items[1].f:
            x = c.I.tovec(v.items[1].f["overlaps"])
            return x.n, lambda k: [z3.Select(a, k) for a in x.arr]
    return None


def reversed_or_not(a, b, vx, vy):
    """overlap b is a, its range oriented along the vector"""
    ag = against(a[1:6], vx, vy)
    return And(b[0] == a[0], b[6] == a[6], Implies(a[6], b[7] == a[7]), *[p == q for p, q in zip(b[2:6], [If(ag, x, y) for x, y in zip(a[4:6] + a[2:4], a[2:6])])])


def oriented(e, vx, vy): return Not(against(e[1:6], vx, vy))


def kinds_ok(c, n, get):
    """the axis of each span is that of its ends"""
    j = z3.Int("j!ko")
    return fa([j], Implies(And(j >= 0, j < n), get(j)[1] == KIND(*get(j)[2:6])), get(j)[1])


def reversible(c):
    """the set holds an overlap whatever way its range runs"""
    p, e = z3.Ints("p!rv e!rv"); h = z3.Bool("h!rv"); x0, y0, x1, y1 = z3.Reals("x0!rv y0!rv x1!rv y1!rv")
    return fa([p, x0, y0, x1, y1, h, e], ANYOV(p, x0, y0, x1, y1, h, e) == ANYOV(p, x1, y1, x0, y0, h, e), ANYOV(p, x0, y0, x1, y1, h, e))


def ep_inv(c, lc):
    I = c.I
    out = {}
    L = ovlist(c, lc)
    if L is None or lc.ghost is None: return {}
    k = I.read(lc.ghost)
    n, get = L
    with At(I, c.old): n0, g0 = OV(c, c.this.state.overlaps); v = c.this.edge.vec; vx, vy = d(v.x), d(v.y)
    j = z3.Int("j!ep")
    lc.fact(anyov_set(c, n0, g0)); lc.fact(reversible(c))
    changed = any(isinstance(v, Tup) for i, t, v in lc.cells())
    if changed:
        out["n"] = n == n0
        out["rest"] = fa([j], Implies(And(j >= k, j < n), And(*[a == b for a, b in zip(get(j), g0(j))])), get(j)[0])
        out["turned"] = fa([j], Implies(And(j >= 0, j < k, j < n), reversed_or_not(g0(j), get(j), vx, vy)), get(j)[0])
        out["kind"] = fa([j], Implies(And(j >= 0, j < k, j < n), get(j)[1] == KIND(*get(j)[2:6])), get(j)[1])
    else:
        F = Fold(c, n, get)
        for f in F.defs(k): lc.fact(f)
        out["run"] = Implies(k <= n, F.RUN(k))
        for cid, t, v in lc.cells():
            if not isinstance(v, Opt): continue
            out[f"has{cid}"] = Implies(k <= n, v.has == F.H(k))
            m = I.flat(v.val, t.strip().a[0]) if v.val is not None else F.m(k)
            out[f"val{cid}"] = Implies(And(k <= n, v.has), And(*[a == b for a, b in zip(m, F.m(k))]))
    return out


@post("domain::ConflictEdgeInPolygon::auto_solve", None, props=P16, pre=lambda c, mgr: [kinds_ok(c, *OV(c, c.this.state.overlaps))], inv=lambda c, lc, mgr: ep_inv(c, lc), tmo=20,
      modifies=lambda c, mgr: orig_mod(c, c.this) + orig_mod(c, c.this.edge))
def _(c, r, mgr):
    if c.call_site: return []
    I = c.I
    s = c.this.state
    n, get = OV(c, s.overlaps)
    with At(I, c.old):
        n0, g0 = OV(c, c.this.state.overlaps)
        e = c.this.edge; es, vx, vy = seg5(c, e), d(e.vec.x), d(e.vec.y); eref = e.raw
    I.assume(anyov_set(c, n0, g0)); I.assume(reversible(c)); I.assume(turned_back())
    F = Fold(c, n, get)
    i, j = z3.Ints("i!ep j!ep")
    for f in F.defs(lit(0)): I.assume(f)
    m = F.m(n)
    eq = lambda a, b: And(a - b < TOL, b - a < TOL)
    whole = Or(And(eq(m[1], es[1]), eq(m[2], es[2]), eq(m[3], es[3]), eq(m[4], es[4])), And(eq(m[1], es[3]), eq(m[2], es[4]), eq(m[3], es[1]), eq(m[4], es[2])))
    se, so = c.this.edge.state, at_old(c, c.this.edge)
    inn = And(j >= 0, j < n)
    return [("not meshed exactly when the spans join into the whole edge", se.to_mesh == Not(And(F.H(n), whole))),
            ("spans run along the edge", Implies(inn, oriented(get(j), vx, vy))), ("spans are taken in order along the edge", Implies(And(inn, i >= 0, i < j), Not(before(vx, vy, get(j), get(i))))),
            ("as many spans", n == n0), ("its spans are those given", Implies(inn, anyov(get(j)))),
            ("solved by the edge", And(s.is_solved, s.solution.raw == eref)), ("the edge refers to the conflict", se.conflict.raw == c.this.ref),
            ("nothing else of the edge changes", flat_same(c, se, so, [f for f in names_of(c, se) if f not in ("to_mesh", "conflict")]))]
