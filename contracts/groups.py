"""Contracts of the groups of colinear edges and of the edges in polygons: M11, M12."""
import z3
from verify import *
from geometrics import d, TOL
from mesh import at_old, orig_mod, fa, same_fields, pattern_ok, list_pushed, conflict_appended, owned
from intervals import seq_of, OWNED
from zones import ptr_to, all_of, flat_same, names_of, OV, seg5

P11 = ["M11"]


def rid(r): return r.raw


@post("domain::ConflictColinearEdges::ConflictColinearEdges", None, props=P11, modifies=lambda c, *a: [])
def _(c, r, axis, a, b, t):
    z, s = c.this, c.this.state
    return [("on its axis", z.axis == axis), ("holds both", And(s.edges.n == 2, s.edges[0].raw == a.raw, s.edges[1].raw == b.raw)), ("unsolved", And(Not(s.is_solved), s.meshline_policy.raw == 0))]


def free_time(c, t): return [Or(t.raw == 0, Not(lib.is_used(c.I, c.this.target()[0], t.raw)))]


@post("domain::ConflictColinearEdges::append", None, props=P11, nullable=(1,), pre=lambda c, e, t: free_time(c, t), modifies=lambda c, *a: orig_mod(c, c.this))
def _(c, r, e, t):
    s, so = c.this.state, at_old(c, c.this)
    return [("the edge follows the others", list_pushed(c, s.edges, so.edges, e.raw)), ("nothing else changes", flat_same(c, s, so, [f for f in names_of(c, s) if f != "edges"]))]


class First:
    """the first index below n where P holds, n when none does"""
    def __init__(self, c, name, P, n):
        self.k = z3.Int(name); self.P = P; self.n = n

    def facts(self):
        j = z3.Int("j!first")
        return [And(self.k >= 0, self.k <= self.n), fa([j], Implies(And(j >= 0, j < self.k), Not(self.P(j))), self.P(j)), Implies(self.k < self.n, self.P(self.k))]


def outer_index(c, lc):
    """counter of the enclosing range loop"""
    ks = sorted(k[1] for k in lc.I.st.ghost if isinstance(k, tuple) and k[0] == "k" and k[1] < lc.ghost.id)
    return lc.I.st.cells[ks[-1]] if ks else None


class Groups:
    """the groups on the axis of two colinear edges, as they are before the call"""
    def __init__(self, c, a, b):
        self.c = c; self.a = a; self.b = b
        with At(c.I, c.old):
            H, V = c.enum("Segment::Axis", "H"), c.enum("Segment::Axis", "V")
            from geometrics import hv
            self.ok = And(a.plane == b.plane, a.axis == b.axis, Or(a.axis == H, a.axis == V))
            self.axis = If(a.axis == H, hv(c, a.plane, 1), hv(c, a.plane, 0))
            self.list = wrap(c.I, c.this.state.all_colinear_edges[self.axis].raw, c.this.state.all_colinear_edges[self.axis]._t)
            self.n = self.list.n
            self.es = seq_of(self.list)
        Z, B = z3.IntSort(), z3.BoolSort()
        self.S = [z3.Function("first_edge_among", Z, Z, B), z3.Function("second_edge_among", Z, Z, B)]
        self.first = First(c, "first_group", lambda k: Or(self.holds(0, k), self.holds(1, k)), self.n)

    def group(self, k):
        with At(self.c.I, self.c.old): return ptr_to(self.c, "ConflictColinearEdges", z3.Select(self.es, k))

    def edges(self, k):
        """number and references of the edges of group k"""
        g = at_old(self.c, self.group(k))
        return g.edges.n, seq_of(g.edges)

    def holds(self, i, k): return self.S[i](k, self.edges(k)[0])

    def defs(self, k, j):
        """edge i is among the first j edges of group k"""
        n, es = self.edges(k)
        out = []
        for i, x in ((0, self.a), (1, self.b)):
            F = self.S[i]
            out += [Not(F(k, lit(0))), Implies(And(j >= 0, j < n), And(F(k, j + 1) == Or(F(k, j), es[j] == x.raw), Implies(F(k, j + 1), F(k, n)))), Implies(And(j >= 0, j <= n, F(k, j)), F(k, n))]
        return out


def ce_inv(c, lc, a, b):
    I = c.I
    if lc.seq is None or lc.ghost is None: return {}
    G = Groups(c, a, b)
    out = {}
    k = outer_index(c, lc)
    if k is None:
        k = I.read(lc.ghost)
        for f in G.first.facts() + G.defs(k, lit(0)): lc.fact(f)
        out["none before"] = Implies(k <= G.n, G.first.k >= k)
        return out
    j = I.read(lc.ghost)
    for f in G.defs(k, j): lc.fact(f)
    for cid, t, v in lc.cells():
        if z3.is_expr(v) and v.sort() == z3.BoolSort():
            for i in (0, 1): out[f"seen{i}{cid}"] = Implies(j <= G.edges(k)[0], v == G.S[i](k, j))
    return out


@post("domain::ConflictManager::add_colinear_edges", None, props=P11, pre=lambda c, a, b: [a.raw != b.raw], inv=ce_inv,
      modifies=lambda c, a, b: orig_mod(c, c.this) + orig_mod(c, a) + orig_mod(c, b) + all_of(c, "ConflictColinearEdges") + [OWNED])
def _(c, r, a, b):
    if c.call_site: return []
    I = c.I
    G = Groups(c, a, b)
    for f in G.first.facts(): I.assume(f)
    F = G.first.k
    found = And(G.ok, F < G.n)
    has = [G.holds(0, F), G.holds(1, F)]
    join = [And(found, Not(has[0]), has[1]), And(found, has[0], Not(has[1]))]       # the first / second edge joins
    open_ = And(G.ok, F == G.n)
    g = G.group(F)
    new = wrap(I, c.this.state.raw, c.this.state._t).all_colinear_edges[G.axis][G.n]
    out = conflict_appended(c, c.this, "all_colinear_edges", G.axis, new.raw, open_)
    out.append(("a new group holds both edges, on the perpendicular axis", Implies(open_, And(new.axis == G.axis, new.state.edges.n == 2, new.state.edges[0].raw == a.raw, new.state.edges[1].raw == b.raw))))
    joins = Or(*join)
    out.append(("the edge not yet grouped joins the first group", Implies(found, list_pushed(c, g.state.edges, at_old(c, g).edges, If(join[0], a.raw, b.raw), joins))))
    p = z3.Int("p!g")
    P = ptr_to(c, "ConflictColinearEdges", p)
    po = at_old(c, P)
    isnew = And(open_, p == new.raw)
    out.append(("other groups are left alone", Implies(And(p > 0, Not(isnew), Not(And(joins, p == g.raw))), flat_same(c, P.state, po, names_of(c, po)))))
    out.append(("nothing else of a group changes", Implies(And(p > 0, Not(isnew)), flat_same(c, P.state, po, [f for f in names_of(c, po) if f != "edges"]))))
    for i, (nm, x) in enumerate((("first", a), ("second", b))):
        s, so = x.state, at_old(c, x)
        told = Or(open_, join[i])
        out.append((f"the {nm} edge is told about its group", list_pushed(c, s.conflicts, so.conflicts, If(open_, new.raw, g.raw), told)))
        out.append((f"nothing else of the {nm} edge changes", flat_same(c, s, so, [f for f in names_of(c, s) if f != "conflicts"])))
    with At(I, c.old): own0 = owned(c)
    k = z3.Int("k!own")
    out.append(("taken care of by the history", I.sel(owned(c), k) == Or(I.sel(own0, k), And(open_, k == new.raw))))
    return out


# ---- M12: edges in polygons ------------------------------------------------------------
P12 = ["M12"]




def overlap_of(c, polygon, rng, b):
    """an overlap as plain values"""
    return [polygon.raw] + seg5(c, rng) + [b.has, If(b.has, opt_ref(b), lit(0))]


def whole(c, a):
    """the span of a whole edge; the kind of it follows from its ends"""
    return [None] + seg5(c, a)[1:]


def opt_ref(b):
    v = b.raw.val
    return v if v is not None else lit(0)


def same_overlap(a, b): return And(*[p == q for p, q in zip(a[:7], b[:7]) if q is not None], Implies(a[6], a[7] == b[7]))


def ov_pushed(c, new, old, x, ok=None):
    (n, g), (n0, g0) = OV(c, new), OV(c, old)
    ok = z3.BoolVal(True) if ok is None else ok
    m = z3.Int("m!ov")
    kept = Implies(And(m >= 0, m < n0), same_overlap(g(m), g0(m)))
    return And(n == If(ok, n0 + 1, n0), z3.ForAll([m], kept) if c.call_site else kept, Implies(ok, same_overlap(g(n0), x)))


@post("domain::ConflictEdgeInPolygon::ConflictEdgeInPolygon", None, props=P12, nullable=(), modifies=lambda c, *a: [])
def _(c, r, plane, a, polygon, rng, b, t):
    z, s = c.this, c.this.state
    n, g = OV(c, s.overlaps)
    return [("of the edge, on the plane", And(z.plane == plane, z.edge.raw == a.raw)), ("holds the overlap", And(n == 1, same_overlap(g(lit(0)), overlap_of(c, polygon, rng, b)))), ("unsolved", And(Not(s.is_solved), s.solution.raw == 0))]


@post("domain::ConflictEdgeInPolygon::append", None, props=P12, nullable=(3,), pre=lambda c, p, g, e, t: free_time(c, t), modifies=lambda c, *a: orig_mod(c, c.this))
def _(c, r, polygon, rng, e, t):
    s, so = c.this.state, at_old(c, c.this)
    return [("the overlap follows the others", ov_pushed(c, s.overlaps, so.overlaps, overlap_of(c, polygon, rng, e))), ("nothing else changes", flat_same(c, s, so, [f for f in names_of(c, s) if f != "overlaps"]))]


class Hidden:
    """the conflicts of the edge's plane as they are before the call"""
    def __init__(self, c, a, polygon, rng, b):
        self.c = c; self.a = a; self.polygon = polygon; self.b = b
        with At(c.I, c.old):
            self.ok = Or(a.plane == polygon.plane, And(b.has, ptr_to(c, "Edge", opt_ref(b)).plane == a.plane))
            self.plane = a.plane
            self.x = [polygon.raw] + (seg5(c, rng) if rng is not None else whole(c, a)) + [b.has, If(b.has, opt_ref(b), lit(0))]
            l = c.this.state.all_edge_in_polygons[self.plane]
            self.list = wrap(c.I, l.raw, l._t)
            self.n = self.list.n
            self.es = seq_of(self.list)
        Z, B = z3.IntSort(), z3.BoolSort()
        self.OVL, self.POL = z3.Function("overlap_among", Z, Z, B), z3.Function("polygon_among", Z, Z, B)
        self.first = First(c, "first_conflict", lambda k: self.conflict(k).edge.raw == a.raw, self.n)

    def conflict(self, k):
        with At(self.c.I, self.c.old): return ptr_to(self.c, "ConflictEdgeInPolygon", z3.Select(self.es, k))

    def overlaps(self, k): return OV(self.c, at_old(self.c, self.conflict(k)).overlaps)

    def eq(self, e):
        """overlap e is of the same polygon and span, with no facing edge or the same one"""
        x = self.x
        near = lambda p, q: And(p - q < TOL, q - p < TOL)
        r = lambda o: And(*[near(p, q) for p, q in zip(e[2:6], o)])
        return And(e[0] == x[0], Or(r(x[2:6]), r(x[4:6] + x[2:4])), Or(Not(e[6]), And(x[6], e[7] == x[7])))

    def defs(self, k, j):
        """the overlap / polygon is among the first j overlaps of conflict k"""
        n, g = self.overlaps(k)
        e = g(j)
        out = []
        for F, P in ((self.OVL, self.eq(e)), (self.POL, e[0] == self.x[0])):
            out += [Not(F(k, lit(0))), Implies(And(j >= 0, j < n), And(F(k, j + 1) == Or(F(k, j), P), Implies(F(k, j + 1), F(k, n)))), Implies(And(j >= 0, j <= n, F(k, j)), F(k, n))]
        return out

    def has(self, F, k): return F(k, self.overlaps(k)[0])


def ep2_inv(c, lc, a, polygon, rng, b):
    I = c.I
    if lc.seq is None or lc.ghost is None: return {}
    G = Hidden(c, a, polygon, rng, b)
    out = {}
    k = outer_index(c, lc)
    if k is None:
        k = I.read(lc.ghost)
        for f in G.first.facts() + G.defs(k, lit(0)): lc.fact(f)
        out["none before"] = Implies(k <= G.n, G.first.k >= k)
        return out
    j = I.read(lc.ghost)
    for f in G.defs(k, j): lc.fact(f)
    n = G.overlaps(k)[0]
    out["not yet"] = Implies(j <= n, Not(G.OVL(k, j)))
    for cid, t, v in lc.cells():
        if z3.is_expr(v) and v.sort() == z3.BoolSort():
            out[f"pol{cid}"] = Implies(j <= n, v == G.POL(k, j)); out[f"ovl{cid}"] = Implies(j <= n, v == G.OVL(k, j))
    return out


def registered(c, a, polygon, rng, b):
    I = c.I
    G = Hidden(c, a, polygon, rng, b)
    for f in G.first.facts(): I.assume(f)
    F = G.first.k
    found = And(G.ok, F < G.n)
    more = And(found, Not(G.has(G.OVL, F)))
    known = G.has(G.POL, F)
    open_ = And(G.ok, F == G.n)
    g = G.conflict(F)
    new = wrap(I, c.this.state.raw, c.this.state._t).all_edge_in_polygons[G.plane][G.n]
    out = conflict_appended(c, c.this, "all_edge_in_polygons", G.plane, new.raw, open_)
    n, ng = OV(c, new.state.overlaps)
    out.append(("a new conflict holds the overlap of the edge", Implies(open_, And(new.plane == G.plane, new.edge.raw == a.raw, n == 1, same_overlap(ng(lit(0)), G.x)))))
    out.append(("a further overlap joins the edge's conflict, once", Implies(found, ov_pushed(c, g.state.overlaps, at_old(c, g).overlaps, G.x, more))))
    p = z3.Int("p!g")
    P = ptr_to(c, "ConflictEdgeInPolygon", p)
    po = at_old(c, P)
    isnew = And(open_, p == new.raw)
    out.append(("other conflicts are left alone", Implies(And(p > 0, Not(isnew), Not(And(more, p == g.raw))), flat_same(c, P.state, po, names_of(c, po)))))
    out.append(("nothing else of a conflict changes", Implies(And(p > 0, Not(isnew)), flat_same(c, P.state, po, [f for f in names_of(c, po) if f != "overlaps"]))))
    for nm, x, told in (("edge", a, open_), ("polygon", polygon, Or(open_, And(more, Not(known))))):
        s, so = x.state, at_old(c, x)
        out.append((f"the {nm} is told about the conflict when due", list_pushed(c, s.conflicts, so.conflicts, If(open_, new.raw, g.raw), told)))
        out.append((f"nothing else of the {nm} changes", flat_same(c, s, so, [f for f in names_of(c, s) if f != "conflicts"])))
    with At(I, c.old): own0 = owned(c)
    k = z3.Int("k!own")
    out.append(("taken care of by the history", I.sel(owned(c), k) == Or(I.sel(own0, k), And(open_, k == new.raw))))
    return out


def aep_mod(c, a, polygon, *r): return orig_mod(c, c.this) + orig_mod(c, a) + orig_mod(c, polygon) + all_of(c, "ConflictEdgeInPolygon") + [OWNED]


@post("domain::ConflictManager::add_edge_in_polygon", ["*"] * 4, props=P12, inv=ep2_inv, at_call=False, modifies=aep_mod)
def _(c, r, a, polygon, rng, b): return registered(c, a, polygon, rng, b)


@post("domain::ConflictManager::add_edge_in_polygon", ["*"] * 3, props=P12, inv=lambda c, lc, a, polygon, b: ep2_inv(c, lc, a, polygon, None, b), at_call=False, modifies=aep_mod)
def _(c, r, a, polygon, b): return registered(c, a, polygon, None, b)
