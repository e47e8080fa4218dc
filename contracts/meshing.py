"""Contracts of the final mesh: M10."""
import z3
from verify import *
from geometrics import d
from mesh import axes, fa, at_old, orig_mod
from zones import ptr_to, all_of
from intervals import seq_of

P10 = ["M10"]
Z = z3.IntSort()
BEFORE = {a: z3.Function("enabled_policies_before_on_" + a, Z, Z) for a in "XYZ"}


@post("domain::Meshline::Meshline", ["Coord", "Interval*", "MeshlinePolicy*"], props=P10, at_call=False, modifies=lambda c, *a: [])
def _(c, r, coord, i, p): return [("as given", And(d(c.this.coord) == d(coord), c.this.interval.raw == i.raw, c.this.policy.raw == p.raw))]


@post("domain::Meshline::Meshline", ["Coord", "Interval*"], props=P10, at_call=False, modifies=lambda c, *a: [])
def _(c, r, coord, i): return [("as given", And(d(c.this.coord) == d(coord), c.this.interval.raw == i.raw, c.this.policy.raw == 0))]


@post("domain::Meshline::Meshline", ["Coord", "MeshlinePolicy*"], props=P10, at_call=False, modifies=lambda c, *a: [])
def _(c, r, coord, p): return [("as given", And(d(c.this.coord) == d(coord), c.this.interval.raw == 0, c.this.policy.raw == p.raw))]


@post("domain::MeshlinePolicyManager::get_mesh_cell_number", None, props=P10, at_call=False, modifies=lambda c: [])
def _(c, r):
    m = c.this.state.meshlines
    n = [m[a].n for a in axes(c)]
    return [("the product of the three axes' line counts", r == n[0] * n[1] * n[2])]


@post("domain::MeshlinePolicy::mesh", None, props=P10, at_call=False, modifies=lambda c: [])
def _(c, r):
    s = c.this.state
    one = And(s.is_enabled, s.policy == c.enum("MeshlinePolicy::Policy", "ONELINE"))
    return [("a line for an enabled single-line policy only", r.has == one), ("exactly at its coordinate, referring to it", Implies(one, And(d(r.value.coord) == d(c.this.coord), r.value.policy.raw == c.this.ref, r.value.interval.raw == 0)))]


class Lines:
    def __init__(self, c, axis, a):
        self.c = c; self.a = a
        self.l = c.this.state.line_policies[axis]
        self.es = seq_of(self.l)
        self.C = BEFORE[a]

    def on(self, k): return ptr_to(self.c, "MeshlinePolicy", self.es[k]).state.is_enabled

    def facts(self, k):
        return [self.C(lit(0)) == 0, Implies(And(k >= 0, k < self.l.n), self.C(k + 1) == self.C(k) + If(self.on(k), 1, 0))]

    def have(self, w, ne, pick=None):
        """w lists the lines of the first ne policies"""
        j = z3.Int("j!ln")
        P = ptr_to(self.c, "MeshlinePolicy", self.es[j])
        line = w[self.C(j)]
        f = Implies(And(j >= 0, j < ne, self.on(j)), And(self.C(j) >= 0, self.C(j) < w.n, d(line.coord) == d(P.coord), line.interval.raw == 0, line.policy.raw == 0))
        return And(w.n == self.C(ne), w.n >= 0), f, j


def mk(a):
    def inv(c, lc, axis):
        I = c.I
        if lc.seq is None or lc.ghost is None: return {}
        L = Lines(c, axis, a)
        g = I.read(lc.ghost)
        for f in L.facts(g): lc.fact(f)
        out = {}
        for cid, v in lc.vecs():
            if cid not in I.st.ctys: continue
            w = wrap(I, I.tovec(v) if isinstance(v, CVec) else v, I.st.ctys[cid])
            n, f, j = L.have(w, g)
            out[f"n{cid}"] = n
            out[f"l{cid}"] = fa([j], f, L.es[j])
            m = z3.Int("m!ln")
            out[f"own{cid}"] = fa([m], Implies(And(m >= 0, m < w.n), And(w[m].raw < 0, w[m].raw >= I.st.alloc)), seq_of(w)[m])
        return out

    def p(c, r, axis):
        L = Lines(c, axis, a)
        for f in L.facts(lit(0)): c.I.assume(f)
        n, f, j = L.have(r, L.l.n)
        return [("as many lines as enabled policies", n), ("each enabled policy's line, in order, at its coordinate", f)]
    post("domain::MeshlinePolicyManager::get_meshline_policies_meshlines", ["*"], props=P10, fix={0: ("Axis", a)}, label="MeshlinePolicyManager::get_meshline_policies_meshlines[" + a + "]", at_call=False, modifies=lambda c, axis: [], inv=inv)(p)


for a in "XYZ": mk(a)


# ---- the mesh of an axis: calls of the intervals are seen through what they promise (M08, M09) --------------
LEN = z3.Function("lines_of_interval", Z, Z)
ARR = z3.Function("line_of_interval", Z, z3.ArraySort(Z, Z))
SINGLE = z3.Function("enabled_single_policies_before", Z, Z)
OFF = z3.Function("lines_before_list", Z, Z)


def forget(c, *names):
    I = c.I
    for n in names:
        o = ObjLoc(z3.Int("any!"), I.prog.tys["domain::" + n])
        for l in (lib.cur_field(I, o), lib.tp_field(I, o)):
            I.st.heap[(l.decl, l.name)] = [I.fresh("then", x.sort()) for x in I.heap_arrays(l.decl, l.name, l.ty)]


def m_tune(c, o, a):
    forget(c, "Interval", "MeshlinePolicy")
    return UNIT


def m_lines(c, o, a):
    I = c.I
    i = o.ref
    m = z3.Int("m!il")
    I.assume(LEN(i) >= 0)
    I.assume(fa([m], Implies(And(m >= 0, m < LEN(i)), z3.Select(ARR(i), m) > 0), z3.Select(ARR(i), m)))
    return Vec(LEN(i), I.prog.tys["std::shared_ptr<domain::Meshline>"], [ARR(i)])


class Mesh:
    def __init__(self, c, axis):
        self.c = c; I = c.I
        with At(I, c.old if getattr(c, "old", None) is not None else I.st):
            s = c.this.state
            self.s0 = wrap(I, s.raw, s._t)
            self.ivs, self.pols, self.had = [wrap(I, getattr(self.s0, f)[axis].raw, getattr(self.s0, f)[axis]._t) for f in ("intervals", "line_policies", "meshlines")]
        self.nI, self.iv = self.ivs.n, seq_of(self.ivs)
        self.ps = seq_of(self.pols)

    def one(self, k):
        c = self.c
        s = ptr_to(c, "MeshlinePolicy", self.ps[k]).state
        return And(s.is_enabled, s.policy == c.enum("MeshlinePolicy::Policy", "ONELINE"))

    def count(self, k): return [SINGLE(lit(0)) == 0, Implies(And(k >= 0, k < self.pols.n), SINGLE(k + 1) == SINGLE(k) + If(self.one(k), 1, 0))]

    def sorted_by_width(self): return [s for s in self.c.I.__dict__.get("sortlog", []) if s[0].eq(self.nI)]

    def single_line(self, x, k):
        P = ptr_to(self.c, "MeshlinePolicy", self.ps[k])
        L = ptr_to(self.c, "Meshline", x)
        return And(d(L.coord) == d(P.coord), L.interval.raw == 0, L.policy.raw == P.raw)


def gathered(I):
    """the lists of lines gathered so far: cell, lengths, contents"""
    for i, v in sorted(I.st.cells.items(), key=lambda x: repr(x[0])):
        if isinstance(v, (Vec, CVec)) and v.ety is not None and v.ety.s.startswith("std::vector<std::shared_ptr<domain::Meshline>"):
            v = I.tovec(v) if isinstance(v, CVec) else v
            return i, v.n, v.arr[0], v.arr[1]
    return None


def lists_of_intervals(M, n, lens, arrs, upto):
    k = z3.Int("k!me")
    view = M.sorted_by_width()[-1][4][0]
    return fa([k], Implies(And(k >= 0, k < upto), And(lens[k] == LEN(view[k]), arrs[k] == ARR(view[k]), lens[k] >= 0)), lens[k]), fa([k], Implies(And(k >= 0, k < upto), And(lens[k] == LEN(view[k]), arrs[k] == ARR(view[k]))), arrs[k])


def lists_of_singles(M, n, lens, arrs, upto):
    j = z3.Int("j!me")
    at = M.nI + SINGLE(j)
    x = z3.Select(arrs[at], lit(0))
    return fa([j], Implies(And(j >= 0, j < upto, M.one(j)), And(SINGLE(j) >= 0, SINGLE(j) < SINGLE(upto), lens[at] == 1, x < 0, x >= M.c.I.st.alloc, M.single_line(x, j))), M.ps[j])


def mesh_inv(c, lc, axis):
    I = c.I
    if lc.seq is None or lc.ghost is None: return {}
    M = Mesh(c, axis)
    g = I.read(lc.ghost)
    n = S(lc.seq[1])
    G = gathered(I)
    if G is None: return {}
    cid, ln, lens, arrs = G
    k, m = z3.Ints("k!me m!me")
    out = {}
    if ("c", cid) in lc.mod and n.eq(S(M.pols.n)):          # the single-line policies
        for f in M.count(g): lc.fact(f)
        a, b = lists_of_intervals(M, ln, lens, arrs, M.nI)
        out.update(n=And(ln == M.nI + SINGLE(g), SINGLE(g) >= 0), lens=a, arrs=b, singles=lists_of_singles(M, ln, lens, arrs, g), sizes=fa([k], Implies(And(k >= 0, k < ln), lens[k] >= 0), lens[k]))
    elif ("c", cid) in lc.mod:                              # the intervals
        if not M.sorted_by_width(): return {}
        a, b = lists_of_intervals(M, ln, lens, arrs, g)
        out.update(n=ln == g, lens=a, arrs=b)
    elif n.eq(S(ln)):                                       # all of them joined
        for f in (OFF(lit(0)) == M.had.n, Implies(And(g >= 0, g < ln), OFF(g + 1) == OFF(g) + lens[g])): lc.fact(f)
        for i, t, v in lc.cells():
            if isinstance(v, Tup): v = [x for x in v.items if isinstance(x, Struct)][-1:] or [None]; v = v[0]
            if not (isinstance(v, Struct) and "meshlines" in v.f): continue
            ml = wrap(I, v, M.s0._t).meshlines[axis]
            es = seq_of(ml)
            out["n"] = And(ml.n == OFF(g), OFF(g) >= M.had.n)
            out["had"] = fa([m], Implies(And(m >= 0, m < M.had.n), es[m] == seq_of(M.had)[m]), seq_of(M.had)[m])
            out["joined"] = fa([k, m], Implies(And(k >= 0, k < g, m >= 0, m < lens[k]), es[OFF(k) + m] == z3.Select(arrs[k], m)), z3.Select(arrs[k], m))
            out["in"] = fa([k], Implies(And(k >= 0, k < g), And(OFF(k) >= M.had.n, OFF(k) + lens[k] <= OFF(g))), lens[k])
    return out


def mesh_post(c, r, axis):
    I = c.I
    M = Mesh(c, axis)
    new = c.this.state
    out = []
    ml = new.meshlines[axis]
    R = seq_of(ml)
    _, ln, lens, arrs = gathered(I)
    log = I.__dict__.get("sortlog", [])
    fR, gR = log[-1][1], log[-1][2]
    gV = M.sorted_by_width()[0][2]
    i, j, m, q = z3.Ints("i!mp j!mp m!mp q!mp")
    L = lambda x: d(ptr_to(c, "Meshline", x).coord)
    here = lambda p, x: And(gR(p) >= 0, gR(p) < ml.n, R[gR(p)] == x)      # gR: where each line gathered ends, a bijection
    p = OFF(gV(q)) + m
    e = OFF(M.nI + SINGLE(j))
    out += [("lines in increasing order", Implies(And(i >= 0, i < j, j < ml.n), L(R[i]) <= L(R[j]))),
            ("as many as there were, plus the intervals' and one per enabled single-line policy", And(ml.n == OFF(M.nI + SINGLE(M.pols.n)), OFF(lit(0)) == M.had.n)),
            ("the lines already there stay", Implies(And(m >= 0, m < M.had.n), here(m, seq_of(M.had)[m]))),
            ("every line of every interval", Implies(And(q >= 0, q < M.nI, m >= 0, m < LEN(M.iv[q])), here(p, z3.Select(ARR(M.iv[q]), m)))),
            ("a line at each enabled single-line policy", Implies(And(j >= 0, j < M.pols.n, M.one(j)), And(gR(e) >= 0, gR(e) < ml.n, M.single_line(R[gR(e)], j)))),
            ("nothing but these", Implies(And(i >= 0, i < ml.n), And(fR(i) >= 0, fR(i) < ml.n, gR(fR(i)) == i)))]
    for a in axes(c):
        for f in ("line_policies", "intervals", "meshlines"):
            if f == "meshlines" and a.eq(S(axis)): continue
            x, y = getattr(new, f)[a], getattr(M.s0, f)[a]
            out.append((f + " untouched", And(x.n == y.n, Implies(And(m >= 0, m < x.n), seq_of(x)[m] == seq_of(y)[m]))))
    return out


for a in "XYZ":
    post("domain::MeshlinePolicyManager::mesh", ["*"], props=P10, fix={0: ("Axis", a)}, label="MeshlinePolicyManager::mesh[" + a + "]", at_call=False, quant=True, budget=250, tmo=20,
         mocks={"domain::Interval::auto_solve_d": m_tune, "domain::Interval::auto_solve_smoothness": m_tune, "domain::Interval::mesh": m_lines},
         modifies=lambda c, axis: orig_mod(c, c.this) + all_of(c, "Interval") + all_of(c, "MeshlinePolicy"), inv=mesh_inv)(mesh_post)
