"""What the steps of one plane or axis go through: every conflict solved once, in order (M02, M15, M16); every pair of colinear edges handed over once (M11)."""
import z3
from verify import *
import lib
from geometrics import d, hv
from mesh import fa
from zones import ptr_to, all_of
from intervals import seq_of
from app import ref, emit, made, TRACE
from meshing import forget

Z, B = z3.IntSort(), z3.BoolSort()
SOLVED, PAIR = 31, 32


def solved(c, o, a, argument):
    """a conflict's own solving, as its contract's frame states: it may change anything but which conflicts there are"""
    I = c.I
    if argument: I.oblige("with the design's policies", ref(I, a[0]) == c.this.line_policy_manager.raw)
    emit(I, SOLVED, ref(I, o))
    forget(c, "Edge", "Angle", "Interval", "MeshlinePolicy", "MeshlinePolicyManager", "ConflictColinearEdges", "ConflictEdgeInPolygon", "ConflictDiagonalOrCircularZone")
    return UNIT


def conflicts(c, field, x):
    l = getattr(c.this.state, field)[x]
    return wrap(c.I, l.raw, l._t)


def conflicts_at(c, field, x):
    with At(c.I, c.old): return conflicts(c, field, x).n


def kept(c, lc):
    """the calls made before the loop stay"""
    I = c.I
    with At(I, lc.S0): N0, f0, a0, b0 = made(I)
    N, f, a, b = made(I)
    k = z3.Int("k!ls")
    return N0, N, f, a, b, {"old": fa([k], Implies(k < N0, f[k] == f0[k]), f[k]), "olda": fa([k], Implies(k < N0, a[k] == a0[k]), a[k]), "oldb": fa([k], Implies(k < N0, b[k] == b0[k]), b[k])}


def each(name, field, callee, sort, values, props, argument=False):
    def inv(c, lc, x):
        N0, N, f, a, b, out = kept(c, lc)
        with At(c.I, c.old): es = seq_of(conflicts(c, field, x))
        k = z3.Int("k!ls")
        at = ([("", c.I.read(lc.ghost))] if lc.ghost is not None else []) + lc.idx()   # where the loop is: in a range-for, an index or an iterator
        for i, g in at: out.update({f"n{i}": N == N0 + g, f"up{i}": g >= 0, f"most{i}": g <= conflicts_at(c, field, x), f"each{i}": fa([k], Implies(And(k >= 0, k < g), And(f[N0 + k] == SOLVED, a[N0 + k] == es[k])), es[k])})
        return out

    for v in values:
        @post("domain::ConflictManager::" + name, ["*"], props=props, fix={0: (sort, v)}, label=f"ConflictManager::{name}[{v}]", at_call=False, frame_inv=True, inv=inv, mocks={callee: lambda c, o, a: solved(c, o, a, argument)},
              pre=lambda c, x: [c.this.line_policy_manager.raw > 0],
              modifies=lambda c, x: TRACE + [y for n in ("Edge", "Angle", "Interval", "MeshlinePolicy", "MeshlinePolicyManager", "ConflictColinearEdges", "ConflictEdgeInPolygon", "ConflictDiagonalOrCircularZone") for y in all_of(c, n)])
        def _(c, r, x):
            I = c.I
            with At(I, c.old): N0 = made(I)[0]; l = conflicts(c, field, x)
            N, f, a, b = made(I)
            k = z3.Int("k!ls")
            return [("as many as there are", N == N0 + l.n), ("each once, in order", Implies(And(k >= 0, k < l.n), And(f[N0 + k] == SOLVED, a[N0 + k] == seq_of(l)[k])))]


each("auto_solve_all_colinear_edges", "all_colinear_edges", "domain::ConflictColinearEdges::auto_solve", "Axis", "XYZ", ["M02"], True)
each("auto_solve_all_edge_in_polygon", "all_edge_in_polygons", "domain::ConflictEdgeInPolygon::auto_solve", "Plane", ("YZ", "ZX", "XY"), ["M16"], True)
each("auto_solve_all_diagonal_angles", "all_diagonal_or_circular_zone", "domain::ConflictDiagonalOrCircularZone::solve_angles", "Axis", "XYZ", ["M15"])
each("auto_solve_all_diagonal_zones", "all_diagonal_or_circular_zone", "domain::ConflictDiagonalOrCircularZone::solve_intervals", "Axis", "XYZ", ["M15"])


# ---- M11: every pair of colinear edges of a plane is handed over once, in order --------------------------
FROM = z3.Function("pairs_before_row", Z, Z)
UPTO = z3.Function("pairs_before", Z, Z, Z)


class Pairs:
    def __init__(self, c, plane):
        self.c = c
        with At(c.I, c.old if getattr(c, "old", None) is not None else c.I.st):
            l = c.this.state.edges[plane]
            self.l = wrap(c.I, l.raw, l._t)
        self.n, self.es = self.l.n, seq_of(self.l)

    def edge(self, k): return ptr_to(self.c, "Edge", self.es[k])

    def diagonal(self, i): return self.edge(i).axis == self.c.enum("Segment::Axis", "DIAGONAL")

    def match(self, i, j):
        from geometrics import ceq
        a, b, c = self.edge(i), self.edge(j), self.c
        h, v = And(a.axis == c.enum("Segment::Axis", "H"), ceq(a._p0_.y, b._p0_.y)), And(a.axis == c.enum("Segment::Axis", "V"), ceq(a._p0_.x, b._p0_.x))
        return And(a.axis == b.axis, Or(h, v))

    def row(self, i):
        return [FROM(lit(0)) == 0, UPTO(i, i + 1) == FROM(i), Implies(And(i >= 0, i < self.n), FROM(i + 1) == If(self.diagonal(i), FROM(i), UPTO(i, self.n)))]

    def step(self, i, j): return [Implies(And(i >= 0, i < j, j < self.n), UPTO(i, j + 1) == If(self.diagonal(i), FROM(i), UPTO(i, j) + If(self.match(i, j), 1, 0)))]


def m_pair(c, o, a):
    I = c.I
    I.oblige("in the design's conflicts", ref(I, o) == c.this.conflict_manager.raw)
    emit(I, PAIR, ref(I, a[0]), ref(I, a[1]))
    forget(c, "Edge", "ConflictManager", "ConflictColinearEdges")
    return UNIT


def handed(P, N, N0, f, a, b, i, j):
    at = N0 + UPTO(i, j)
    return And(UPTO(i, j) >= 0, at < N, f[at] == PAIR, a[at] == P.es[i], b[at] == P.es[j])


def counter(c, lc, x, v): return z3.is_expr(v) and v.sort() == z3.IntSort() and c.I.st.ctys.get(x) is not None and c.I.st.ctys[x].k == "b"


def dc_inv(c, lc, plane):
    I = c.I
    P = Pairs(c, plane)
    with At(I, c.old): N0 = made(I)[0]
    N, f, a, b = made(I)
    mine = {x: v for x, t, v in lc.cells() if counter(c, lc, x, v)}
    outer = {x: v for x, v in I.st.cells.items() if x not in mine and counter(c, lc, x, v)}
    p, q = z3.Ints("p!dc q!dc")
    done = lambda before: fa([p, q], Implies(And(p >= 0, p < q, q < P.n, before, P.match(p, q)), handed(P, N, N0, f, a, b, p, q)), z3.MultiPattern(P.es[p], P.es[q]))
    out = {"grow": N >= N0}
    for x, i in mine.items():
        for w in P.row(i): lc.fact(w)
        out[f"n{x}"] = N == N0 + FROM(i)
        out[f"le{x}"] = And(i >= 0, i <= P.n)
        out[f"done{x}"] = done(p < i)
        for y, o in outer.items():
            for w in P.row(o) + P.step(o, i): lc.fact(w)
            out[f"n{y},{x}"] = N == N0 + UPTO(o, i)
            out[f"done{y},{x}"] = done(Or(p < o, And(p == o, q < i)))
            out[f"after{y},{x}"] = i > o
            out[f"base{y},{x}"] = UPTO(o, i) >= FROM(o)
    return out


for pl in ("YZ", "ZX", "XY"):
    @post("domain::Board::detect_colinear_edges", ["*"], props=["M11"], fix={0: ("Plane", pl)}, label=f"Board::detect_colinear_edges[{pl}]", at_call=False, frame_inv=True, inv=dc_inv, budget=120,
          mocks={"domain::ConflictManager::add_colinear_edges": m_pair}, pre=lambda c, x: [c.this.conflict_manager.raw > 0],
          modifies=lambda c, x: TRACE + [y for n in ("Edge", "ConflictManager", "ConflictColinearEdges") for y in all_of(c, n)])
    def _(c, r, plane):
        I = c.I
        P = Pairs(c, plane)
        with At(I, c.old): N0 = made(I)[0]
        N, f, a, b = made(I)
        i, j = z3.Ints("i!dc j!dc")
        return [("as many calls as colinear pairs", N == N0 + FROM(P.n)),
                ("each colinear pair is handed over, once, in order", Implies(And(i >= 0, i < j, j < P.n, P.match(i, j)), handed(P, N, N0, f, a, b, i, j)))]


# ---- what finding angles, covered parts and zones rests on (M18, M19, M20): discharged with those properties too ----
for c in list(REG):
    if c.q in ("domain::intersection", "domain::does_overlap_strict", "domain::Angle::Angle"): c.props.add("M18")
    if c.q in ("domain::intersection", "domain::Segment::relation_to", "domain::overlap", "domain::does_overlap", "domain::relation::cast"): c.props.add("M19")
    if c.q in ("domain::does_overlap", "create_view", "domain::ConflictDiagonalOrCircularZone::ConflictDiagonalOrCircularZone", "domain::ConflictManager::add_diagonal_or_circular_zone"): c.props.add("M20")
