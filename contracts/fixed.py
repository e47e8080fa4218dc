"""Contracts of the requested fixed lines: M17."""
import z3
from verify import *
from geometrics import d, ceq
from mesh import AX, axes, is_used, skolem, mgr_mod, owned, OWNED, new_policy
from zones import ptr_to, names_of, flat_same
from intervals import seq_of

P17 = ["M17"]
Z = z3.IntSort()


def creators(c, ax): return c.this.fixed_meshline_policy_creators[ax]


# ---- the request: one more function on the axis' list, which makes the line when called ------------
def fixed_line_goals(c, board, t, axis, coord, before, after):
    """what calling a requested line's function does to the board: state before, state after"""
    I = c.I
    W_ = lambda st: ptr_to(c, "Board", board).line_policy_manager
    with At(I, before):
        mgr = W_(before); s0 = mgr.state; raw = s0.raw; own0 = owned(c)
        vo = wrap(I, raw, s0._t)
        k = z3.Int("k!fl")
        lo = vo.line_policies[axis]
        ps = lo[k].state
        there = z3.Exists([k], And(k >= 0, k < lo.n, ps.policy == c.enum("MeshlinePolicy::Policy", "ONELINE"), ps.normal == c.enum("MeshlinePolicy::Normal", "NONE"), ceq(d(lo[k].coord), d(coord))))
        dmax = mgr.global_params.state.dmax
    out = []
    with At(I, after):
        mgr = W_(after)
        vn = wrap(I, mgr.state.raw, mgr.state._t)
        m = z3.Int("m!fl")
        for a in axes(c):
            on, oo = vn.line_policies[a], vo.line_policies[a]
            more = And(axis == a, Not(there))
            out.append(("one more line exactly when there is no single line at an equal coordinate", on.n == If(more, oo.n + 1, oo.n)))
            out.append(("the other lines stay", Implies(And(m >= 0, m < oo.n), on[m].raw == oo[m].raw)))
            p = ptr_to(c, "MeshlinePolicy", on[oo.n].raw)
            out.append(("an enabled single line at its coordinate", Implies(more, new_policy(c, p, axis, c.enum("MeshlinePolicy::Policy", "ONELINE"), c.enum("MeshlinePolicy::Normal", "NONE"), coord, z3.BoolVal(True), dmax))))
            out.append(("of no edge", Implies(more, p.state.origins.n == 0)))
            for f in ("intervals", "meshlines"):
                nv, ov = getattr(vn, f)[a], getattr(vo, f)[a]
                out.append((f + " stay", And(nv.n == ov.n, Implies(And(m >= 0, m < nv.n), nv[m].raw == ov[m].raw))))
        with At(I, before): otp = I.read(lib.tp_field(I, mgr.target()[0]))
        out.append(("recorded at the time given", I.read(lib.tp_field(I, mgr.target()[0])) == If(there, otp, t)))
        q = z3.Int("q!fl")
        P = ptr_to(c, "MeshlinePolicy", q)
        with At(I, before): po = wrap(I, P.state.raw, P.state._t)
        out.append(("every other policy stays", Implies(q > 0, flat_same(c, P.state, po, names_of(c, po)))))
        out.append(("a new line is taken care of by the history", Implies(Not(there), z3.And(*[Implies(axis == a, I.sel(owned(c), vn.line_policies[a][vo.line_policies[a].n].raw)) for a in axes(c)]))))
    return out


def request(a):
    @post("domain::Board::Builder::add_fixed_meshline_policy", None, props=P17, fix={0: ("Axis", a)}, label="Board::Builder::add_fixed_meshline_policy[" + a + "]", at_call=False, modifies=lambda c, *x: [c.this.fixed_meshline_policy_creators])
    def _(c, r, axis, coord):
        I = c.I
        out = []
        fns = None
        for x in axes(c):
            new = creators(c, x)
            with At(I, c.old): old = wrap(I, creators(c, x).raw, new._t)
            hit = S(axis == x)
            k = z3.Int("k!cr")
            es, eo = seq_of(wrap(I, new.raw, new._t)), seq_of(old)
            out.append(("one more function on the axis' list, none on the others'", new.n == If(hit, old.n + 1, old.n)))
            out.append(("the functions already there stay", Implies(And(k >= 0, k < old.n), es[k] == eo[k])))
            if is_true(hit): fns = S(es[old.n])
        if fns is None or not z3.is_int_value(fns): return out + [("the new function makes the line", z3.BoolVal(False))]
        b, t = z3.Int("board!called"), z3.Int("time!called")
        I.assume(And(b > 0, t > 0))
        I.assume(ptr_to(c, "Board", b).line_policy_manager.raw > 0)
        mgr = ptr_to(c, "Board", b).line_policy_manager
        I.assume(Not(is_used(c, mgr, t)))
        before = I.st.copy()
        for st, _ in I.explore(lambda: I.call_value(fns, [b, t])):
            save = I.st; I.st = st
            try:
                for n, g in fixed_line_goals(c, b, t, axis, coord, before, st): I.oblige(c.fn["q"].split("domain::")[-1] + ", the new function: " + n, g)
            finally: I.st = save
        return out


for a in AX: request(a)


# ---- the step: every requested function called once, in order, each at a new point in time -----------
def calls(c, st=None):
    I = c.I
    n, f, a = I.call_trace(st)
    return I.sel(n[0], lit(0)), f[0], a[0][0], a[1][0]


def fa2(k, body, pat): return z3.ForAll([k], body, patterns=[pat])


def ad_inv(c, lc, *a):
    """since the loop was entered: the functions of the list gone through, in order; the calls before stay"""
    I = c.I
    if lc.ghost is None: return {}
    with At(I, lc.S0): N0, f0, b0, t0 = calls(c)
    N, f, b, t = calls(c)
    g = I.read(lc.ghost)
    k = z3.Int("k!ca")
    out = {"n": N == N0 + g, "old": fa2(k, Implies(k < N0, f[k] == f0[k]), f[k])}
    out["oldb"] = fa2(k, Implies(k < N0, And(b[k] == b0[k], t[k] == t0[k])), b[k])
    for x in axes(c):
        with At(I, c.old): l = creators(c, x); l = wrap(I, l.raw, l._t); es = seq_of(l)
        if lc.seq is not None and S(lc.seq[1]).eq(S(l.n)): out[f"f{x}"] = fa2(k, Implies(And(k >= 0, k < g), f[N0 + k] == es[k]), es[k])
    out["b"] = fa2(k, Implies(And(k >= N0, k < N0 + g), And(b[k] == c.this.target()[0].ref, t[k] < 0)), b[k])
    return out


def step(a):
    @post("domain::Board::add_fixed_meshline_policies", ["*"], props=P17, fix={0: ("Axis", a)}, label="Board::add_fixed_meshline_policies[" + a + "]", at_call=False, trace=True, inv=ad_inv,
          modifies=lambda c, axis: [("Call!", x) for x in ("n", "f", "a0", "a1")])
    def _(c, r, axis):
        I = c.I
        with At(I, c.old): N0 = calls(c)[0]; l = creators(c, axis); l = wrap(I, l.raw, l._t)
        N, f, b, t = calls(c)
        k = z3.Int("k!cp")
        inn = And(k >= 0, k < l.n)
        return [("as many calls as requested lines", N == N0 + l.n), ("each requested line's function, in order", Implies(inn, f[N0 + k] == seq_of(l)[k])),
                ("for this board, at a new point in time", Implies(inn, And(b[N0 + k] == c.this.target()[0].ref, t[N0 + k] < 0)))]


for a in AX: step(a)


@post("domain::Board::add_fixed_meshline_policies", [], props=P17, label="Board::add_fixed_meshline_policies()", budget=120, at_call=False, trace=True, inv=ad_inv, modifies=lambda c: [("Call!", x) for x in ("n", "f", "a0", "a1")])
def _(c, r):
    I = c.I
    with At(I, c.old): N0 = calls(c)[0]; ls = [wrap(I, creators(c, x).raw, creators(c, x)._t) for x in axes(c)]
    N, f, b, t = calls(c)
    k = z3.Int("k!cp")
    out = []
    for l in ls:
        inn = And(k >= 0, k < l.n)
        out += [("each requested line's function, in order, one axis after the other", Implies(inn, f[N0 + k] == seq_of(l)[k])),
                ("for this board, at a new point in time", Implies(inn, And(b[N0 + k] == c.this.target()[0].ref, t[N0 + k] < 0)))]
        N0 = N0 + l.n
    return out + [("as many calls as requested lines", N == N0)]
