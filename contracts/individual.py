"""Contracts of the policies of edges and angles that are in no group: M14."""
import z3
from verify import *
from geometrics import d, ceq, hv
from mesh import AX, axes, mgr_mod, fa, at_old, OWNED
from zones import ptr_to, names_of, flat_same, all_of
from intervals import seq_of

P14 = ["M14"]
Z, B = z3.IntSort(), z3.BoolSort()
GROUPED = {x: z3.Function(x + "_in_a_colinear_group", Z, B) for x in ("Edge", "Angle")}
WITNESS = {x: z3.Function(x + "_group_at", Z, Z) for x in ("Edge", "Angle")}
COUNT = [z3.Function("edges_before_for_view_axis_" + x, Z, Z) for x in "HV"]
COUNTA = z3.Function("free_angles_before", Z, Z)


class Free:
    def __init__(self, c, plane):
        self.c = c; self.plane = plane
        with At(c.I, c.old if getattr(c, "old", None) is not None else c.I.st):
            s = c.this.state
            self.edges, self.angles = [wrap(c.I, l.raw, l._t) for l in (s.edges[plane], s.angles[plane])]
            self.mgr = c.this.line_policy_manager
            ms = self.mgr.state
            self.ms0 = wrap(c.I, ms.raw, ms._t)
        self.es, self.as_ = seq_of(self.edges), seq_of(self.angles)
        self.axis = [S(hv(c, plane, v)) for v in (0, 1)]

    def obj(self, cls, k): return ptr_to(self.c, cls, (self.es if cls == "Edge" else self.as_)[k])

    def grouped_facts(self, cls):
        """GROUPED(e): one of the conflicts of e, as they were, is a group of colinear edges"""
        c = self.c
        e, m = z3.Ints("e!gr m!gr")
        P = ptr_to(c, cls, e)
        cf = at_old(c, P).conflicts if c.old is not None else P.state.conflicts
        es = seq_of(cf)
        G, w = GROUPED[cls](e), WITNESS[cls](e)
        col = lambda x: And(x != 0, ptr_to(c, "Conflict", x).kind == c.enum("Conflict::Kind", "COLINEAR_EDGES"))
        return [fa([e], Implies(G, And(w >= 0, w < cf.n, col(es[w]))), G), fa([e, m], Implies(And(m >= 0, m < cf.n, col(es[m])), G), es[m])]

    def wants(self, k, v):
        """edge k yields a policy on the spatial axis of view axis v"""
        c = self.c
        e = self.obj("Edge", k)
        so = at_old(c, e)
        return And(e.axis == c.enum("Segment::Axis", "H" if v else "V"), so.to_mesh, Not(GROUPED["Edge"](e.raw)), e.normal != c.enum("Normal", "NONE"))

    def free(self, k): return Not(GROUPED["Angle"](self.as_[k]))

    def edge_policy(self, p, k, v):
        c = self.c
        e = self.obj("Edge", k)
        so = at_old(c, e)
        P = ptr_to(c, "MeshlinePolicy", p)
        mins = Or(*[e.normal == c.enum("Normal", x + "MIN") for x in "XYZ"])
        side = If(mins != so.to_reverse, c.enum("MeshlinePolicy::Normal", "MIN"), c.enum("MeshlinePolicy::Normal", "MAX"))
        at = d(e._p0_.y) if v else d(e._p0_.x)
        return self.policy(P, v, "THIRDS", side, at, z3.BoolVal(True), e.raw)

    def angle_policy(self, p, k, v):
        c = self.c
        a = self.obj("Angle", k)
        so = at_old(c, a)
        return self.policy(ptr_to(c, "MeshlinePolicy", p), v, "HALFS", c.enum("MeshlinePolicy::Normal", "NONE"), d(a.p.y) if v else d(a.p.x), so.to_mesh[v].raw if isinstance(so.to_mesh[v], W) else so.to_mesh[v], a.raw)

    def policy(self, P, v, kind, side, at, en, origin):
        c = self.c
        s = P.state
        return And(P.axis == self.axis[v], d(P.coord) == at, s.policy == c.enum("MeshlinePolicy::Policy", kind), s.normal == side, s.is_enabled == en, s.origins.n == 1, s.origins[0].raw == origin)

    def count_facts(self, k):
        out = []
        j = z3.Int("j!cf")
        for v in (0, 1):
            f = lambda j: Implies(And(j >= 0, j < self.edges.n), COUNT[v](j + 1) == COUNT[v](j) + If(self.wants(j, v), 1, 0))
            out += [COUNT[v](lit(0)) == 0, f(k)]
        f = lambda j: Implies(And(j >= 0, j < self.angles.n), COUNTA(j + 1) == COUNTA(j) + If(self.free(j), 1, 0))
        return out + [COUNTA(lit(0)) == 0, f(k)]

    def valid(self):
        c = self.c
        k = z3.Int("k!fv")
        return [self.mgr.raw > 0, fa([k], Implies(And(k >= 0, k < self.edges.n), self.es[k] > 0), self.es[k]), fa([k], Implies(And(k >= 0, k < self.angles.n), self.as_[k] > 0), self.as_[k])]

    def state_of(self, ne, na):
        """what the first ne edges and na angles have given"""
        c, I = self.c, self.c.I
        ms = self.mgr.state
        j, m, p = z3.Ints("j!st m!st p!st")
        out = {}
        for v in (0, 1):
            l, l0 = ms.line_policies[self.axis[v]], self.ms0.line_policies[self.axis[v]]
            es = seq_of(l)
            C, D = COUNT[v], COUNTA
            out[f"n{v}"] = And(l.n == l0.n + C(ne) + D(na), C(ne) >= 0, D(na) >= 0)
            out[f"edges{v}"] = fa([j], Implies(And(j >= 0, j < ne, self.wants(j, v)), And(C(j) >= 0, C(j) < C(ne), self.edge_policy(es[l0.n + C(j)], j, v))), self.es[j])
            out[f"angles{v}"] = fa([j], Implies(And(j >= 0, j < na, self.free(j)), And(D(j) >= 0, D(j) < D(na), self.angle_policy(es[l0.n + C(ne) + D(j)], j, v))), self.as_[j])
        for a in axes(c):
            l, l0 = ms.line_policies[a], self.ms0.line_policies[a]
            out[f"kept{a}"] = fa([m], Implies(And(m >= 0, m < l0.n), seq_of(l)[m] == seq_of(l0)[m]), seq_of(l)[m])
            if not any(a.eq(x) for x in self.axis): out[f"other{a}"] = l.n == l0.n
            for f in ("intervals", "meshlines"):
                l, l0 = getattr(ms, f)[a], getattr(self.ms0, f)[a]
                out[f"{f}{a}"] = And(l.n == l0.n, fa([m], Implies(And(m >= 0, m < l.n), seq_of(l)[m] == seq_of(l0)[m]), seq_of(l)[m]))
        for cls in ("Edge", "Angle"):
            P = ptr_to(c, cls, p)
            po = at_old(c, P)
            out["rest" + cls] = fa([p], Implies(p > 0, flat_same(c, P.state, po, [f for f in names_of(c, po) if f != "meshline_policy"])))
        return out


def in_inv(c, lc, plane):
    I = c.I
    if lc.seq is None or lc.ghost is None: return {}
    F = Free(c, plane)
    g = I.read(lc.ghost)
    for cls in ("Edge", "Angle"):
        for f in F.grouped_facts(cls): lc.fact(f)
    for f in F.count_facts(g): lc.fact(f)
    if S(lc.seq[1]).eq(S(F.edges.n)): return F.state_of(g, lit(0))
    if S(lc.seq[1]).eq(S(F.angles.n)): return F.state_of(F.edges.n, g)
    return {}


def in_post(c, r, plane):
    I = c.I
    if c.call_site: return []
    F = Free(c, plane)
    for cls in ("Edge", "Angle"):
        for f in F.grouped_facts(cls): I.assume(f)
    ms = F.mgr.state
    j, m, p = z3.Ints("j!ip m!ip p!ip")
    out = []
    for v in (0, 1):
        l, l0 = ms.line_policies[F.axis[v]], F.ms0.line_policies[F.axis[v]]
        es = seq_of(l)
        C, D, nE = COUNT[v], COUNTA, F.edges.n
        out += [("as many policies as edges and angles entitled to one", l.n == l0.n + C(nE) + D(F.angles.n)),
                ("each entitled edge its thirds policy on its side", Implies(And(j >= 0, j < nE, F.wants(j, v)), F.edge_policy(es[l0.n + C(j)], j, v))),
                ("each free angle its halfs policy, enabled where it is to be meshed", Implies(And(j >= 0, j < F.angles.n, F.free(j)), F.angle_policy(es[l0.n + C(nE) + D(j)], j, v)))]
    for a in axes(c):
        l, l0 = ms.line_policies[a], F.ms0.line_policies[a]
        out.append(("earlier policies stay", Implies(And(m >= 0, m < l0.n), seq_of(l)[m] == seq_of(l0)[m])))
        if not any(a.eq(x) for x in F.axis): out.append(("nothing on the axis across the plane", l.n == l0.n))
    for cls in ("Edge", "Angle"):
        P = ptr_to(c, cls, p)
        po = at_old(c, P)
        out.append(("nothing else of edges and angles changes", Implies(p > 0, flat_same(c, P.state, po, [f for f in names_of(c, po) if f != "meshline_policy"]))))
    return out


for a in ("XY", "YZ", "ZX"):
    post("domain::Board::detect_individual_edges", ["*"], props=P14, fix={0: ("Plane", a)}, label="Board::detect_individual_edges[" + a + "]", budget=200, at_call=False, frame_inv=True, pre=lambda c, plane: Free(c, plane).valid(), inv=in_inv,
         modifies=lambda c, plane: mgr_mod(c, c.this.line_policy_manager) + all_of(c, "Edge") + all_of(c, "Angle"))(in_post)
