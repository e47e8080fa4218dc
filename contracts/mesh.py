"""Contracts of the mesh layer (M01..M17)."""
import z3
from verify import *
from geometrics import d, ceq, zmin, zmax


def bad_policy(c, policy, normal):
    """kind and side disagree"""
    return (policy == c.enum("MeshlinePolicy::Policy", "THIRDS")) == (normal == c.enum("MeshlinePolicy::Normal", "NONE"))


AX = "XYZ"


def axes(c): return [c.enum("Axis", a) for a in AX]


def is_used(c, w, t):
    """the originator w already has a state at t"""
    return lib.is_used(c.I, w.target()[0], t)


def same_list(c, a, b, m):
    """same length and same element m"""
    return And(a.n == b.n, Implies(And(m >= 0, m < a.n), a[m].raw == b[m].raw))


# ---- M01 -----------------------------------------------------------------------------
@post("domain::MeshlinePolicy::MeshlinePolicy", None, props=["M01"], at_call=False, modifies=lambda c, *a: [])
def _(c, r, axis, policy, normal, gp, coord, t, origins, en):
    p = c.this
    s = p.state
    m = z3.Int("m!o")
    return [("axis, coordinate, parameters", And(p.axis == axis, d(p.coord) == d(coord), p.global_params.raw == gp.raw)),
            ("kind, side, enabled", And(s.policy == policy, s.normal == normal, s.is_enabled == en)),
            ("initial spacing", s.d == gp.state.dmax / 2), ("origins", same_list(c, s.origins, origins, m)), ("no conflict yet", s.conflicts.n == 0)]


def mgr_lists(s): return s.line_policies


def new_policy(c, p, axis, policy, normal, coord, en, gp_dmax, origins=None):
    s = p.state
    out = [p.axis == axis, d(p.coord) == d(coord), s.policy == policy, s.normal == normal, s.is_enabled == en, s.d == gp_dmax / 2, s.conflicts.n == 0]
    if origins is not None: out.append(origins(s.origins))
    return And(*out)


def skolem(c, name, f):
    """a fact about an arbitrary index: quantified where it is assumed"""
    k = z3.Int(name)
    return z3.ForAll([k], f(k)) if c.call_site else f(k)


def mlp_appended(c, this, axis, r, ok, old_st):
    """the list of axis got r appended when ok; the rest of the manager is as before"""
    out = []
    new = this.state
    with At(c.I, old_st): old = this.state; oraw = old.raw
    I = c.I
    ov = wrap(I, oraw, new._t)
    for a in axes(c):
        na, oa = new.line_policies[a], ov.line_policies[a]
        hit = And(ok, axis == a)
        out.append(("one more on its axis, none elsewhere", na.n == If(hit, oa.n + 1, oa.n)))
        out.append(("earlier policies kept in place", skolem(c, "m!mlp", lambda m: Implies(And(m >= 0, m < oa.n), na[m].raw == oa[m].raw))))
        out.append(("last one is the new one", Implies(hit, na[oa.n].raw == r)))
        for f in ("intervals", "meshlines"):
            nv, o2 = getattr(new, f)[a], getattr(ov, f)[a]
            out.append((f + " untouched", And(nv.n == o2.n, skolem(c, "m!mlp", lambda m: Implies(And(m >= 0, m < o2.n), nv[m].raw == o2[m].raw)))))
    return out


OWNED = ("Caretaker", "owned!")


def owned(c): return lib.owned_arr(c.I)


def mgr_mod(c, this): return [lib.cur_field(c.I, this.target()[0]), lib.tp_field(c.I, this.target()[0]), OWNED]


@post("domain::MeshlinePolicyManager::add_meshline_policy", None, props=["M01"], nullable=(6,),
      pre=lambda c, o, ax, p, n, co, en, t: [Or(t.raw == 0, Not(is_used(c, c.this, t.raw)))],
      modifies=lambda c, *a: mgr_mod(c, c.this),
      result=lambda c, o, ax, p, n, co, en, t: S(If(bad_policy(c, p, n), lit(0), c.I.new_ref())))
def _(c, r, origins, axis, policy, normal, coord, en, t):
    bad = bad_policy(c, policy, normal)
    ok = Not(bad)
    rv = r.raw
    gp = c.this.global_params
    out = [("nothing returned exactly when kind and side disagree", bad == (rv == 0))]
    out += mlp_appended(c, c.this, axis, rv, ok, c.old)
    out.append(("the requested policy", Implies(ok, new_policy(c, r, axis, policy, normal, coord, en, gp.state.dmax))))
    so = r.state.origins
    out.append(("origins", Implies(ok, And(so.n == origins.n, skolem(c, "m!o", lambda m: Implies(And(m >= 0, m < so.n), so[m].raw == origins[m].raw))))))
    with At(c.I, c.old): otp = c.I.read(lib.tp_field(c.I, c.this.target()[0])); own0 = owned(c)
    out.append(("recorded at the given time", c.I.read(lib.tp_field(c.I, c.this.target()[0])) == If(bad, otp, If(t.raw != 0, t.raw, c.I.read(lib.tp_field(c.I, c.this.target()[0]))))))
    k = z3.Int("k!own")
    f = lambda k: c.I.sel(owned(c), k) == Or(c.I.sel(own0, k), And(ok, k == rv))
    out.append(("taken care of by the history", skolem(c, "k!own", f)))
    return out


# ---- scans over a sequence: ANY(k) = some element before k satisfies P --------------
class Scan:
    def __init__(self, c, name, P, n):
        self.F = z3.Function(name, z3.IntSort(), z3.BoolSort()); self.P = P; self.n = n

    def __call__(self, k): return self.F(k)

    def facts(self, k):
        """defining equations at k, and monotonicity (by induction on the definition)"""
        F, n = self.F, self.n
        return [Not(F(lit(0))), Implies(And(k >= 0, k < n), And(F(k + 1) == Or(F(k), self.P(k)), Implies(F(k + 1), F(n)))), Implies(And(k >= 0, k <= n, F(k)), F(n))]


def scan_inv(c, lc, scans):
    out = {}
    ks = ([("g", lc.I.read(lc.ghost))] if lc.seq is not None else []) + lc.idx()
    for kn, k in ks:
        for s in scans:
            for f in s.facts(k): lc.fact(f)
            fn = s.F.name()
            for i, v in lc.ints():
                out[f"pos{kn}{fn}{i}"] = (v > 0) == s(k)
            for i, t, v in lc.cells():
                if z3.is_expr(v) and v.sort() == z3.BoolSort():
                    out[f"b{kn}{fn}{i}"] = v == s(k); out[f"nb{kn}{fn}{i}"] = v == Not(s(k))
            out[f"none{kn}{fn}"] = Not(s(k)); out[f"noneL{kn}{fn}"] = Implies(k <= s.n, Not(s(k)))
    return out


# ---- M02 -----------------------------------------------------------------------------
def eff_normal(c, e):
    """normal of the edge, reversed when flagged"""
    N = lambda n: c.enum("Normal", n)
    r = e.normal
    for x in "XYZ":
        r = If(e.normal == N(x + "MIN"), N(x + "MAX"), If(e.normal == N(x + "MAX"), N(x + "MIN"), r))
    return If(e.state.to_reverse, r, e.normal)


def facing(c, e, side):
    N = lambda n: c.enum("Normal", n)
    x = eff_normal(c, e)
    if side == "NONE": return x == N("NONE")
    return Or(*[x == N(a + side) for a in "XYZ"])


def ce_scans(c):
    st = c.old
    this = c.this
    with At(c.I, st): es = wrap(c.I, this.state.raw, this.state._t).edges; n = es.n

    def P(side):
        def f(k):
            with At(c.I, st):
                e = es[k]
                return And(e.state.to_mesh, facing(c, e, side))
        return f
    return {s: Scan(c, "ANY_" + s, P(s), n) for s in ("NONE", "MIN", "MAX")}


def valid_enum(c, x, ename):
    for n, e in c.I.prog.enums.items():
        if n in (ename, "domain::" + ename): return Or(*[x == v["v"] for v in e])


def unchanged_originator(c, o):
    """state and time of o as before"""
    x = o.target()[0]
    t = o.state._t
    now, tp = o.state.raw, c.I.read(lib.tp_field(c.I, x))
    with At(c.I, c.old): then, tp0 = o.state.raw, c.I.read(lib.tp_field(c.I, x))
    return And(veq(c.I, now, then, t), tp == tp0)


def orig_mod(c, o): return [lib.cur_field(c.I, o.target()[0]), lib.tp_field(c.I, o.target()[0])]


def solved_by_new_policy(c, this, mgr, axis, made, policy, normal, coord, solution_field="meshline_policy"):
    """exactly one policy appended to the manager's axis, and recorded as the solution, when made; nothing otherwise"""
    sol = this.state.meshline_policy
    rv = sol.raw
    gp = mgr.global_params
    out = mlp_appended(c, mgr, axis, rv, made, c.old)
    out += [("policy made", Implies(made, new_policy(c, sol, axis, policy, normal, coord, z3.BoolVal(True), gp.state.dmax))),
            ("the conflict is its origin", Implies(made, And(sol.state.origins.n == 1, sol.state.origins[0].raw == this.ref))),
            ("recorded as the solution", Implies(made, And(this.state.is_solved, this.state.solution.raw == rv, rv != 0))),
            ("nothing when no policy is made", Implies(Not(made), unchanged_originator(c, this)))]
    return out


@post("domain::ConflictColinearEdges::auto_solve", None, props=["M02"], pre=lambda c, mgr: [c.this.state.edges.n >= 1],
      inv=lambda c, lc, mgr: scan_inv(c, lc, ce_scans(c).values()), modifies=lambda c, mgr: mgr_mod(c, mgr) + orig_mod(c, c.this))
def _(c, r, mgr):
    I = c.I
    if c.call_site: return []
    sc = ce_scans(c)
    A = lambda n: c.enum("Segment::Axis", n)
    Pol, Nor = (lambda n: c.enum("MeshlinePolicy::Policy", n)), (lambda n: c.enum("MeshlinePolicy::Normal", n))
    for s in sc.values():
        for f in s.facts(lit(0)): I.assume(f)
    with At(I, c.old):
        es = wrap(I, c.this.state.raw, c.this.state._t).edges
        n = es.n
        e = es[0]
        ax = e.axis
        p = e._p0
        px, py = d(p.x), d(p.y)
    one, mn, mx = (sc[s](n) for s in ("NONE", "MIN", "MAX"))
    has = Or(ax == A("H"), ax == A("V"))
    made = And(has, Or(one, mn, mx))
    policy = If(one, Pol("ONELINE"), If(And(mn, mx), Pol("HALFS"), Pol("THIRDS")))
    normal = If(Or(one, And(mn, mx)), Nor("NONE"), If(mn, Nor("MIN"), Nor("MAX")))
    return solved_by_new_policy(c, c.this, mgr, c.this.axis, made, policy, normal, If(ax == A("H"), py, px))


# ---- M03 -----------------------------------------------------------------------------
def merge_table(c, pa, na, ca, pb, nb, cb):
    """(kind, side, coordinate) of the policy replacing two too-close ones"""
    Pol, Nor = (lambda n: c.enum("MeshlinePolicy::Policy", n)), (lambda n: c.enum("MeshlinePolicy::Normal", n))
    one, th = Pol("ONELINE"), Pol("THIRDS")
    half = (ca + cb) / 2
    kind = If(Or(pa == one, pb == one), one, If(And(pa == th, pb == th, na == nb), th, Pol("HALFS")))
    side = If(kind == th, na, Nor("NONE"))
    coord = If(And(pa == one, pb != one), ca, If(And(pb == one, pa != one), cb, half))
    return kind, side, coord


def consistent(c, p): return Not(bad_policy(c, p.state.policy, p.state.normal))


@post("domain::ConflictTooCloseMeshlinePolicies::auto_solve", None, props=["M03"], modifies=lambda c, mgr: mgr_mod(c, mgr) + orig_mod(c, c.this),
      pre=lambda c, mgr: [consistent(c, c.this.meshline_policies[0]), consistent(c, c.this.meshline_policies[1])])
def _(c, r, mgr):
    if c.call_site: return []
    with At(c.I, c.old):
        a, b = c.this.meshline_policies[0], c.this.meshline_policies[1]
        kind, side, coord = merge_table(c, a.state.policy, a.state.normal, d(a.coord), b.state.policy, b.state.normal, d(b.coord))
        same = a.axis == b.axis
    return solved_by_new_policy(c, c.this, mgr, c.this.axis, same, kind, side, coord)


@lemma("the merge does not depend on the order, and lies between the two", props=["M03"])
def _(c):
    pa, na, pb, nb = z3.Ints("pa na pb nb"); ca, cb = z3.Reals("ca cb")
    h = [valid_enum(c, x, "MeshlinePolicy::Policy") for x in (pa, pb)] + [valid_enum(c, x, "MeshlinePolicy::Normal") for x in (na, nb)] + [Not(bad_policy(c, pa, na)), Not(bad_policy(c, pb, nb))]
    t, u = merge_table(c, pa, na, ca, pb, nb, cb), merge_table(c, pb, nb, cb, pa, na, ca)
    return [("same kind", h, t[0] == u[0]), ("same side", h, t[1] == u[1]), ("same coordinate", h, t[2] == u[2]),
            ("between", h, And(t[2] >= zmin(ca, cb), t[2] <= zmax(ca, cb))), ("admissible", h, Not(bad_policy(c, t[0], t[1])))]


# ---- M04 -----------------------------------------------------------------------------
def pattern_ok(p):
    """matching patterns hold no connective"""
    todo = [p]
    while todo:
        x = todo.pop()
        if z3.is_app(x):
            if x.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES): return False
            todo += x.children()
    return True


def fa(vs, body, *pats): return z3.ForAll(vs, body, patterns=[p for p in pats if not z3.is_expr(p) or pattern_ok(p)])


MEM = z3.Function("any_set_with_the_enabled_ones", z3.IntSort(), z3.BoolSort())


def en(c, p): return p.state.is_enabled


def finite(c, x): return And(2 * x < lib.INF, -2 * x < lib.INF)


def closest_pre(c, dim, lim):
    i, j = z3.Int("i!pre"), z3.Int("j!pre")
    a = raw(dim).arr[0]
    return [fa([i], Implies(And(i >= 0, i < dim.n), finite(c, d(dim[i].coord))), z3.Select(a, i)), finite(c, d(lim)),
            fa([i, j], Implies(And(i >= 0, i < j, j < dim.n), dim[i].raw != dim[j].raw), z3.MultiPattern(z3.Select(a, i), z3.Select(a, j)))]


def raw(w):
    x, t = w.target()
    v = w._I.val(x)
    return w._I.tovec(v) if isinstance(v, CVec) else v


def mem_def(c, dim):
    """MEM holds of every enabled policy of the list given"""
    with At(c.I, c.old):
        v = wrap(c.I, dim.raw, dim._t)
        p = z3.Int("p!s")
        return fa([p], Implies(And(p >= 0, p < v.n, en(c, v[p])), MEM(v[p].raw)), z3.Select(raw(v).arr[0], p))


def closest_inv(c, lc, dim, lim):
    out = {}
    I = c.I
    vs = [wrap(I, CellLoc(cid), I.st.ctys[cid]) for cid, v in I.st.cells.items() if isinstance(v, Vec) and cid in I.st.ctys and "MeshlinePolicy" in I.st.ctys[cid].s]
    pairs = [(cid, v) for cid, t, v in lc.cells() if isinstance(v, Tup) and len(v.items) == 2]
    coords = [(cid, v.f["val"]) for cid, t, v in lc.cells() if isinstance(v, Struct) and v.cls == "domain::Coord"] + lc.reals()
    a, b = z3.Int("a!inv"), z3.Int("b!inv")
    pt = I.prog.tys.get("domain::MeshlinePolicy*")
    lc.fact(mem_def(c, dim))
    for vi, v in enumerate(vs):
        ar = raw(v).arr[0]
        for kn, k in lc.idx():
            out[f"top{vi}{kn}"] = Or(k <= v.n, k == 1)
            for cid, sp in coords:
                out[f"min{vi}{kn}{cid}"] = fa([a, b], Implies(And(a >= 0, a < b, b < k), sp <= d(v[b].coord) - d(v[a].coord)), z3.MultiPattern(z3.Select(ar, a), z3.Select(ar, b)))
                out[f"fin{kn}{cid}"] = If(k >= 2, sp < lib.INF, sp == lib.INF)
    for pid, p in pairs:
        if not all(z3.is_expr(q) for q in p.items):     # not assigned yet
            p = Tup([I.fresh("unset", z3.IntSort()) for q in p.items])
        x, y = (wrap(I, q, I.prog.ty(c.tu, c.fn["ret"]).a[0].a[0]) for q in p.items)
        for kn, k in lc.idx():
            out[f"mem{pid}{kn}"] = Implies(k >= 2, And(MEM(x.raw), MEM(y.raw), x.raw != y.raw))
            for cid, sp in coords:
                out[f"at{pid}{cid}{kn}"] = Implies(k >= 2, And(sp == d(y.coord) - d(x.coord), sp >= 0))
    return out


@post("domain::detect_closest_meshline_policies", None, props=["M04"], pre=closest_pre, inv=closest_inv, modifies=lambda c, dim, lim: [dim], tmo=15)
def _(c, r, dim, lim):
    I = c.I
    with At(I, c.old):
        v = wrap(I, dim.raw, dim._t)
        n = v.n
        i, j = z3.Int("i!s"), z3.Int("j!s")
        two = And(i >= 0, i < n, j >= 0, j < n, i != j, en(c, v[i]), en(c, v[j]))
        ci, cj = d(v[i].coord), d(v[j].coord)
    if c.call_site: return []
    I.assume(mem_def(c, dim))
    dist = If(ci >= cj, ci - cj, cj - ci)
    x, y = r.value[0], r.value[1]
    sp = d(y.coord) - d(x.coord)
    return [("a pair of different enabled policies, in order", Implies(r.has, And(MEM(x.raw), MEM(y.raw), x.raw != y.raw, sp >= 0))),
            ("within the limit", Implies(r.has, sp <= d(lim))),
            ("no two enabled ones are closer", Implies(And(r.has, two), sp <= dist)),
            ("nothing only when all are further apart", Implies(And(Not(r.has), two), dist > d(lim)))]


# ---- M05 -----------------------------------------------------------------------------
CONFLICT_LISTS = {"all_colinear_edges": "Axis", "all_edge_in_polygons": "Plane", "all_too_close_meshline_policies": "Axis", "all_diagonal_or_circular_zone": "Axis"}
ENUM_VALUES = {"Axis": "XYZ", "Plane": ("YZ", "ZX", "XY")}


def at_old(c, w):
    """the originator's state before the call, as a view"""
    with At(c.I, c.old): v = w.state.raw
    return wrap(c.I, v, w.state._t)


def conflict_appended(c, cm, which, key, r, ok):
    """list `which`[key] of the conflict manager got r appended when ok; every other list is as before"""
    out = []
    new, old = cm.state, at_old(c, cm)
    for f, en_ in CONFLICT_LISTS.items():
        for v in ENUM_VALUES[en_]:
            k = c.enum(en_, v)
            na, oa = getattr(new, f)[k], getattr(old, f)[k]
            hit = And(ok, key == k) if f == which else z3.BoolVal(False)
            out.append((f"{f}[{v}] " + ("one more exactly where due" if f == which else "untouched"), na.n == If(hit, oa.n + 1, oa.n)))
            out.append((f"{f}[{v}] kept", skolem(c, "m!c", lambda m: Implies(And(m >= 0, m < oa.n), na[m].raw == oa[m].raw))))
            if f == which: out.append((f"{f}[{v}] last is the new one", Implies(hit, na[oa.n].raw == r)))
    return out


def list_pushed(c, new, old, x, ok=None, name="m!l"):
    """new = old + [x]   (or = old when not ok)"""
    ok = z3.BoolVal(True) if ok is None else ok
    return And(new.n == If(ok, old.n + 1, old.n), skolem(c, name, lambda m: Implies(And(m >= 0, m < old.n), new[m].raw == old[m].raw)), Implies(ok, new[old.n].raw == x))


def same_fields(c, new, old, names):
    """named fields of two states are equal"""
    I = c.I
    fs = []
    for f in names:
        a, b = getattr(new, f), getattr(old, f)
        if isinstance(a, W): fs.append(veq(I, a.raw, b.raw, a._t))
        else: fs.append(a == b)
    return And(*fs)


def tc_scan(c, a, b):
    with At(c.I, c.old): lst = wrap(c.I, c.this.state.raw, c.this.state._t).all_too_close_meshline_policies[a.axis]; n = lst.n

    def P(k):
        with At(c.I, c.old):
            mp = lst[k].meshline_policies
            return Or(*[mp[i].raw == x.raw for i in (0, 1) for x in (a, b)])
    return Scan(c, "ANY_REG", P, n)


@post("domain::ConflictTooCloseMeshlinePolicies::ConflictTooCloseMeshlinePolicies", None, props=["M05"], at_call=False)
def _(c, r, axis, a, b, t):
    x = c.this
    return [("between the two", And(x.axis == axis, x.meshline_policies[0].raw == a.raw, x.meshline_policies[1].raw == b.raw)), ("unsolved", And(Not(x.state.is_solved), x.state.solution.raw == 0))]


@post("domain::ConflictManager::add_too_close_meshline_policies", None, props=["M05"], pre=lambda c, a, b: [a.raw != b.raw],
      inv=lambda c, lc, a, b: scan_inv(c, lc, [tc_scan(c, a, b)]),
      modifies=lambda c, a, b: orig_mod(c, c.this) + orig_mod(c, a) + orig_mod(c, b) + [OWNED],
      result=lambda c, a, b: If(c.I.fresh("refused", z3.BoolSort()), lit(0), c.I.new_ref()))
def _(c, r, a, b):
    I = c.I
    rv = r.raw
    axis = a.axis
    if c.call_site:
        reg = c.fresh("registered", "bool")
        ok = rv != 0
    else:
        sc = tc_scan(c, a, b)
        for f in sc.facts(lit(0)): I.assume(f)
        reg = sc(sc.n)
        ok = And(a.axis == b.axis, Not(reg))
    out = [("refused exactly when already registered or on different axes", (rv == 0) == Not(ok))]
    out += conflict_appended(c, c.this, "all_too_close_meshline_policies", axis, rv, ok)
    out.append(("between the two", Implies(ok, And(r.axis == axis, r.meshline_policies[0].raw == a.raw, r.meshline_policies[1].raw == b.raw, Not(r.state.is_solved)))))
    for nm, x in (("first", a), ("second", b)):
        new, old = x.state, at_old(c, x)
        out += [(f"{nm} disabled", new.is_enabled == And(old.is_enabled, Not(ok))), (f"{nm} told about the conflict", list_pushed(c, new.conflicts, old.conflicts, rv, ok)),
                (f"{nm} otherwise unchanged", same_fields(c, new, old, ["policy", "normal", "d", "conflict"] + ([] if c.call_site else ["origins", "meshlines"])))]
    if not c.call_site:
        with At(I, c.old): own0 = owned(c)
        k = z3.Int("k!own")
        out.append(("taken care of by the history", I.sel(owned(c), k) == Or(I.sel(own0, k), And(ok, k == rv))))
    return out
