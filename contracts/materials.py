"""Contracts of the surrounding material and the edges that yield to it: M13."""
import contextlib, z3
from verify import *
from geometrics import d, TOL, zmin, zmax, meet
from tables import rank
from mesh import at_old, orig_mod, fa
from intervals import seq_of
from zones import ptr_to, all_of, flat_same, names_of, seg5, R_

P13 = ["M13"]
Z, B = z3.IntSort(), z3.BoolSort()
ANYM = z3.Function("any_set_with_the_overlapping_ones", Z, Z, B)


class Around:
    """the polygons of a plane around a span (axis, x0, y0, x1, y1), seen from one of them (0: from none)"""
    def __init__(self, c, plane, s, me):
        self.c = c; self.s = s; self.me = me
        with (At(c.I, c.old) if getattr(c, "old", None) is not None else contextlib.nullcontext()):
            l = c.this.state.polygons[plane]
            self.n = l.n
            self.es = seq_of(wrap(c.I, l.raw, l._t))
        self.background = c.this.material.raw

    def poly(self, k): return ptr_to(self.c, "Polygon", z3.Select(self.es, k))

    def mat(self, k): return self.poly(k).material.raw

    def rank(self, m): return rank(self.c, ptr_to(self.c, "Material", m).type)

    def around(self, k):
        """polygon k has a material and overlaps"""
        p = self.poly(k)
        b = p.bounding
        x0, y0, x1, y1 = self.s[1:]
        box = And(meet(d(b[0]), d(b[1]), zmin(x0, x1), zmax(x0, x1)), meet(d(b[2]), d(b[3]), zmin(y0, y1), zmax(y0, y1)))
        if self.me is None: return And(self.mat(k) != 0, box)
        q = ptr_to(self.c, "Polygon", self.me)
        high = meet(d(p.z_placement.min), d(p.z_placement.max), d(q.z_placement.min), d(q.z_placement.max))
        return And(self.mat(k) != 0, Or(self.me == 0, And(p.raw != self.me, high)), box)

    def valid(self):
        """boundings and heights are in order"""
        k = z3.Int("k!av")
        p = self.poly(k)
        b = p.bounding
        ok = lambda p: And(d(p.bounding[0]) <= d(p.bounding[1]), d(p.bounding[2]) <= d(p.bounding[3]), d(p.z_placement.min) <= d(p.z_placement.max))
        out = [fa([k], Implies(And(k >= 0, k < self.n), And(self.es[k] > 0, ok(p))), self.es[k])]
        if self.me is not None: out.append(Implies(self.me != 0, ok(ptr_to(self.c, "Polygon", self.me))))
        return out


def pair_list(lc):
    """the list of materials gathered: number, material, priority"""
    for cid, t, v in lc.cells():
        if isinstance(v, (Vec, CVec)):
            x = lc.I.tovec(v) if isinstance(v, CVec) else v
            if len(x.arr) == 2: return x.n, x.arr[0], x.arr[1]
    return None


def am_inv(c, lc, A):
    I = c.I
    L = pair_list(lc)
    if L is None or lc.ghost is None: return {}
    n, ms, ps = L
    k = I.read(lc.ghost)
    j, w = z3.Ints("j!am w!am")
    W_ = z3.Function("gathered_at", Z, Z)
    lc.fact(listed(A))
    lc.fact(fa([j], Implies(And(j >= 0, j < A.n), W_(j + 1) == W_(j) + If(A.around(j), 1, 0)), W_(j + 1))); lc.fact(W_(lit(0)) == 0)
    lc.fact(Implies(And(k >= 0, k < A.n), W_(k + 1) == W_(k) + If(A.around(k), 1, 0)))
    return {"n": n == W_(k), "mem": fa([j], Implies(And(j >= 0, j < n), And(ANYM(ms[j], ps[j]), ms[j] != 0)), ms[j]),
            "all": fa([j], Implies(And(j >= 0, j < k, A.around(j)), And(W_(j) >= 0, W_(j) < n, ms[W_(j)] == A.mat(j), ps[W_(j)] == A.poly(j).priority)), A.es[j])}


def listed(A):
    j = z3.Int("j!ls")
    return fa([j], Implies(And(j >= 0, j < A.n, A.around(j)), And(ANYM(A.mat(j), A.poly(j).priority), A.mat(j) != 0)), A.es[j])


AMB = [z3.Function("surrounding_" + x, Z, R_, R_, R_, R_, Z, Z) for x in ("material", "priority")]


def am_post(c, r, plane, s, me):
    if c.call_site: return [("the same whenever asked", And(*[r[i].raw == AMB[i](plane, *s[1:], lit(0) if me is None else me) if hasattr(r[i], "raw") else r[i] == AMB[i](plane, *s[1:], lit(0) if me is None else me) for i in (0, 1)]))]
    A = Around(c, plane, s, me)
    c.I.assume(listed(A))
    k = z3.Int("k!am")
    m, p = r[0].raw, (r[1].raw if hasattr(r[1], "raw") else r[1])
    inn = And(k >= 0, k < A.n, A.around(k))
    pk = A.poly(k).priority
    none = And(m == A.background, p == 0)
    return [("that of an overlapping polygon, or the background", Or(And(ANYM(m, p), m != 0), none)),
            ("of highest priority, then of highest rank", Implies(inn, And(ANYM(m, p), Or(pk < p, And(pk == p, A.rank(A.mat(k)) <= A.rank(m))))))]


@post("domain::Board::find_ambient_material", ["*"] * 3, props=P13, nullable=(2,), pre=lambda c, plane, s, me: Around(c, plane, seg5(c, s), me.raw).valid(),
      inv=lambda c, lc, plane, s, me: am_inv(c, lc, Around(c, plane, seg5(c, s), me.raw)), modifies=lambda c, *a: [])
def _(c, r, plane, s, me): return am_post(c, r, plane, seg5(c, s), me.raw)


@post("domain::Board::find_ambient_material", ["*"] * 2, props=P13, pre=lambda c, plane, s: Around(c, plane, seg5(c, s), None).valid(), inv=lambda c, lc, plane, s: am_inv(c, lc, Around(c, plane, seg5(c, s), lit(0))), modifies=lambda c, *a: [])
def _(c, r, plane, s):
    if c.call_site: return []
    return [("the surrounding material from no polygon", r.raw == AMB[0](plane, *seg5(c, s)[1:], lit(0)))]


# ---- the edges that yield ---------------------------------------------------------------
YIELD = z3.Function("any_set_with_the_yielding_edges", Z, B)


class Yielding:
    def __init__(self, c, plane):
        self.c = c; self.plane = plane
        with (At(c.I, c.old) if getattr(c, "old", None) is not None else contextlib.nullcontext()):
            l = c.this.state.polygons[plane]
            self.n = l.n
            self.es = seq_of(wrap(c.I, l.raw, l._t))

    def poly(self, k): return ptr_to(self.c, "Polygon", self.es[k])

    def edges(self, k):
        l = self.poly(k).edges
        return l.n, seq_of(l)

    def yields(self, k, j, only=None):
        """edge j of polygon k faces a material that ranks above its own polygon's"""
        c = self.c
        q = self.poly(k)
        e = ptr_to(c, "Edge", self.edges(k)[1][j])
        x0, y0, x1, y1 = seg5(c, e)[1:]
        t = 2 * TOL
        rk = lambda x: rank(c, ptr_to(c, "Material", x).type)
        out = []
        for x, a in (("XMIN", (x0 - t, y0, x1 - t, y1)), ("XMAX", (x0 + t, y0, x1 + t, y1)), ("YMIN", (x0, y0 - t, x1, y1 - t)), ("YMAX", (x0, y0 + t, x1, y1 + t))):
            m = AMB[0](self.plane, *a, q.raw)
            if only in (None, x): out.append(And(e.normal == c.enum("Normal", x), m != 0, rk(m) > rk(q.material.raw)))
        return Or(*out)

    def edge(self, k, j): return self.edges(k)[1][j]

    def normal_known(self, k, j):
        n = ptr_to(self.c, "Edge", self.edge(k, j)).normal
        return Or(*[n == self.c.enum("Normal", x) for x in ("XMIN", "XMAX", "YMIN", "YMAX", "NONE")])

    def listed(self):
        k, j = z3.Ints("k!yl j!yl")
        return fa([k, j], Implies(And(k >= 0, k < self.n, j >= 0, j < self.edges(k)[0], self.yields(k, j)), YIELD(self.edge(k, j))), self.edge(k, j))

    def valid(self):
        k, j = z3.Ints("k!yv j!yv")
        return [fa([k], Implies(And(k >= 0, k < self.n), self.poly(k).material.raw > 0), self.es[k]), fa([k, j], Implies(And(k >= 0, k < self.n, j >= 0, j < self.edges(k)[0]), And(self.edge(k, j) > 0, self.normal_known(k, j))), self.edge(k, j))] + Around(self.c, self.plane, None, None).valid()


def ae_inv(c, lc, plane):
    from groups import outer_index
    I = c.I
    if lc.seq is None or lc.ghost is None: return {}
    Y = Yielding(c, plane)
    g = I.read(lc.ghost)
    ko = outer_index(c, lc)
    k, j, p = z3.Ints("k!ae j!ae p!ae")
    P = ptr_to(c, "Edge", p)
    po = at_old(c, P)
    lc.fact(Y.listed())
    kk, jj = (g, lit(0)) if ko is None else (ko, g)
    done = And(k >= 0, k < Y.n, j >= 0, j < Y.edges(k)[0], Or(k < kk, And(k == kk, j < jj)))
    return {"rest": fa([p], Implies(p > 0, flat_same(c, P.state, po, [f for f in names_of(c, po) if f != "to_reverse"]))),
            "kept": fa([p], Implies(And(p > 0, po.to_reverse), P.state.to_reverse)), "only": fa([p], Implies(And(p > 0, P.state.to_reverse), Or(po.to_reverse, YIELD(p)))),
            **{"done" + x: fa([k, j], Implies(And(done, Y.yields(k, j, x)), ptr_to(c, "Edge", Y.edge(k, j)).state.to_reverse), Y.edge(k, j)) for x in ("XMIN", "XMAX", "YMIN", "YMAX")}}


def ae_post(c, r, plane):
    Y = Yielding(c, plane)
    c.I.assume(Y.listed())
    k, j, p = z3.Ints("k!ae j!ae p!ae")
    P = ptr_to(c, "Edge", p)
    po = at_old(c, P)
    inn = And(k >= 0, k < Y.n, j >= 0, j < Y.edges(k)[0])
    return [("an edge facing a stronger material is flagged", Implies(And(inn, Y.yields(k, j)), ptr_to(c, "Edge", Y.edge(k, j)).state.to_reverse)),
            ("an edge is flagged only then, or was before", Implies(And(p > 0, P.state.to_reverse), Or(po.to_reverse, YIELD(p)))), ("a flagged edge stays flagged", Implies(And(p > 0, po.to_reverse), P.state.to_reverse)),
            ("nothing else of an edge changes", Implies(p > 0, flat_same(c, P.state, po, [f for f in names_of(c, po) if f != "to_reverse"])))]


for a in ("XY", "YZ", "ZX"):
    post("domain::Board::adjust_edges_to_materials", ["*"], props=P13, fix={0: ("Plane", a)}, label="Board::adjust_edges_to_materials[" + a + "]", budget=140, at_call=False, pre=lambda c, plane: Yielding(c, plane).valid(), inv=ae_inv, modifies=lambda c, plane: all_of(c, "Edge"))(ae_post)
