"""Contracts of interval detection and of the final mesh: M06, M10, and the offsets of M09."""
import z3
from verify import *
from geometrics import d, zmin, zmax
from mesh import axes, at_old, owned, OWNED, orig_mod, mgr_mod, fa, raw, skolem, same_fields, MEM, en, finite, mem_def
from series import offset, kept_side, POLICY_FIELDS

P6 = ["M06"]


def table_offset(c, p, dd, side):
    """offset of the first line beside policy p"""
    Pol, Nor = (lambda n: c.enum("MeshlinePolicy::Policy", n)), (lambda n: c.enum("MeshlinePolicy::Normal", n))
    s = p.state
    far, near = (2 * dd / 3, dd / 3)
    thirds = If(s.normal == Nor("MAX" if side == "before" else "MIN"), far, If(s.normal == Nor("MIN" if side == "before" else "MAX"), near, dd))
    return If(s.policy == Pol("ONELINE"), z3.RealVal(0), If(s.policy == Pol("HALFS"), dd / 2, thirds))


def half(b, a): return If(d(b.coord) >= d(a.coord), (d(b.coord) - d(a.coord)) / 2, (d(a.coord) - d(b.coord)) / 2)


def new_interval(c, iv, before, after, axis, gp):
    s = iv.state
    h = half(before, after)
    out = [("axis and parameters", And(iv.axis == axis, iv.global_params.raw == gp.raw)), ("half width and middle", And(d(iv.h) == h, d(iv.m) == (d(before.coord) + d(after.coord)) / 2)),
           ("global maximum spacing", s.dmax == gp.state.dmax), ("no conflict yet", s.conflicts.n == 0)]
    for nm, p in (("before", before), ("after", after)):
        x = getattr(s, nm)
        out.append((f"{nm}: side", And(x.meshline_policy.raw == p.raw, x.lmin == gp.state.lmin, x.smoothness == gp.state.smoothness, x.ls.n == 0)))
    return out


def bounded_policy(c, p, h):
    """spacing bounded by h, everything else as before"""
    po = at_old(c, p)
    return And(p.state.d == If(po.d > h, h, po.d), flat_eq(c, p.state, po, POLICY_FIELDS))


@post("domain::Interval::Interval", None, props=P6 + ["M09"], pre=lambda c, b, a, *r: [b.raw != a.raw],
      modifies=lambda c, b, a, *r: orig_mod(c, b) + orig_mod(c, a))
def _(c, r, before, after, axis, gp, t):
    iv = c.this
    out = new_interval(c, iv, before, after, axis, gp)
    for nm, p in (("before", before), ("after", after)): out.append((f"{nm}: spacing bounded by the half width, nothing else", bounded_policy(c, p, half(before, after))))
    if not c.call_site:
        dd = z3.Real("dd!off")
        for nm, p in (("before", before), ("after", after)): out.append((f"{nm}: offset table", offset(c, getattr(iv.state, nm), dd) == table_offset(c, p, dd, nm)))
    return out




# ---- M06 -----------------------------------------------------------------------------
def flat_eq(c, new, old, names):
    """named fields copied as they are"""
    I = c.I
    out = []
    for f in names:
        a, b = getattr(new, f), getattr(old, f)
        if isinstance(a, W): out += [x == y for x, y in zip(I.flat(a.raw), I.flat(b.raw))]
        else: out.append(a == b)
    return And(*out)


def seq_of(w):
    """elements of a list as an array"""
    return raw(w).arr[0]


def same_seq(a, b): return And(a.n == b.n, seq_of(a) == seq_of(b))


def interval_between(c, x, a, b, axis, gp):
    return And(*[f for _, f in new_interval(c, x, a, b, axis, gp)])


def interval_params(c, x, axis, gp):
    s = x.state
    return [x.axis == axis, x.global_params.raw == gp.raw, s.dmax == gp.state.dmax, s.conflicts.n == 0] + [f for y in (s.before, s.after) for f in (y.lmin == gp.state.lmin, y.smoothness == gp.state.smoothness, y.ls.n == 0)]


def spacing_after(c, v, k, upto, d0):
    """spacing of the k-th policy once the first `upto` intervals exist"""
    left = half(v[k - 1], v[k]); right = half(v[k], v[k + 1])
    a = If(And(k >= 1, k <= upto, d0 > left), left, d0)
    return If(And(k < upto, a > right), right, a)


def distinct_pre(c, v):
    i, j = z3.Int("i!pre"), z3.Int("j!pre")
    a = seq_of(v)
    return [fa([i, j], Implies(And(i >= 0, i < j, j < v.n), v[i].raw != v[j].raw), z3.MultiPattern(z3.Select(a, i), z3.Select(a, j)))]


T, T2 = (z3.Function(f"trigger{i}", z3.IntSort(), z3.BoolSort()) for i in (1, 2))      # always true: guides instantiation only
END = z3.Function("any_set_with_the_ends_of_the_new_intervals", z3.IntSort(), z3.BoolSort())


def di_inv(c, lc, axis):
    out = {}
    I = c.I
    gp = c.this.global_params
    vs = [wrap(I, CellLoc(cid), I.st.ctys[cid]) for cid, v in I.st.cells.items() if isinstance(v, Vec) and cid in I.st.ctys and "MeshlinePolicy*" in I.st.ctys[cid].s.replace(" ", "")]
    mst = c.this.state._t
    sts = []
    for cid, t, v in lc.cells():
        for x in v.items if isinstance(v, Tup) else [v]:
            if isinstance(x, Struct) and x.cls == mst.s: sts.append(wrap(I, x, mst))
    k, p = z3.Int("k!di"), z3.Int("p!di")
    lc.fact(fa([k], T(k), T(k)))
    old = at_old(c, c.this)
    for si, s in enumerate(sts):
        for a in axes(c):
            out[f"lp{si}{a}"] = same_seq(s.line_policies[a], old.line_policies[a]); out[f"ml{si}{a}"] = same_seq(s.meshlines[a], old.meshlines[a])
            out[f"iv{si}{a}"] = Implies(a != axis, same_seq(s.intervals[a], old.intervals[a]))
        iv, ov = s.intervals[axis], old.intervals[axis]
        out[f"kept{si}"] = fa([k], Implies(And(k >= 0, k < ov.n), iv[k].raw == ov[k].raw), z3.Select(seq_of(iv), k))
        for kn, i in lc.idx():
            out[f"n{si}{kn}"] = iv.n == ov.n + i - 1
            for vi, v in enumerate(vs):
                x = iv[k]
                at = k - ov.n
                q = And(k >= ov.n, k < ov.n + i - 1)
                out[f"new{si}{kn}{vi}"] = fa([k], Implies(q, And(x.raw >= I.st.alloc, x.raw < lc.S0.alloc)), z3.Select(seq_of(iv), k))
                s2 = x.state
                h = half(v[at], v[at + 1])
                out[f"link{si}{kn}{vi}"] = fa([k], Implies(q, And(s2.before.meshline_policy.raw == v[at].raw, s2.after.meshline_policy.raw == v[at + 1].raw)), z3.Select(seq_of(iv), k))
                out[f"h{si}{kn}{vi}"] = fa([k], Implies(q, d(x.h) == h), d(x.h)); out[f"m{si}{kn}{vi}"] = fa([k], Implies(q, d(x.m) == (d(v[at].coord) + d(v[at + 1].coord)) / 2), d(x.m))
                out[f"ends{si}{kn}{vi}"] = fa([k], And(Implies(And(k >= 0, k < i - 1), iv[ov.n + k].state.before.meshline_policy.raw == v[k].raw), Implies(And(k >= 1, k < i), iv[ov.n + k - 1].state.after.meshline_policy.raw == v[k].raw), T(iv[ov.n + k].raw), T(iv[ov.n + k - 1].raw)), T2(z3.Select(seq_of(v), k)))
        x = iv[k]; s2 = x.state
        for kn, i in lc.idx():
            q = And(k >= ov.n, k < ov.n + i - 1)
            for j, g in enumerate(interval_params(c, x, axis, gp)): out[f"par{si}{kn}{j}"] = fa([k], Implies(q, g), z3.Select(seq_of(iv), k))
    for kn, i in lc.idx():
        for vi, v in enumerate(vs):
            out[f"in{kn}{vi}"] = Or(i <= v.n, i == 1)
            e = wrap(I, v[k].raw, v[k]._t)
            with At(I, c.old): d0 = e.state.d
            out[f"d{kn}{vi}"] = fa([k], Implies(And(k >= 0, k < v.n), v[k].state.d == spacing_after(c, v, k, i - 1, d0)), v[k].state.d)
    P = wrap(I, p, I.prog.tys["domain::MeshlinePolicy*"])
    st, so = P.state, at_old(c, P)
    out["off"] = fa([p], Implies(And(p > 0, Not(so.is_enabled)), st.d == so.d))
    out["kind"] = fa([p], flat_eq(c, st, so, POLICY_FIELDS), *[])
    return out


def per_axis(q, props, **k):
    """the three cases of an axis argument, each proved on its own"""
    def d(f):
        for a in "XYZ": post(q, ["*"], props=props, fix={0: ("Axis", a)}, label=q.replace("domain::", "") + "[" + a + "]", at_call=False, **k)(f)
        return f
    return d


def all_policies(c):
    t = [x for k, x in c.I.prog.tys.items() if k == "domain::MeshlinePolicy"][0]
    return [lib.cur_field(c.I, ObjLoc(z3.Int("any!"), t)), lib.tp_field(c.I, ObjLoc(z3.Int("any!"), t))]


@per_axis("domain::MeshlinePolicyManager::detect_intervals", P6, tmo=15, inv=di_inv, pre=lambda c, axis: distinct_pre(c, c.this.state.line_policies[axis]),
          modifies=lambda c, axis: mgr_mod(c, c.this) + [(l.decl, l.name) for l in all_policies(c)])
def _(c, r, axis):
    I = c.I
    gp = c.this.global_params
    new, old = c.this.state, at_old(c, c.this)
    out = []
    for a in axes(c):
        out.append(("policies and mesh lines untouched", And(same_seq(new.line_policies[a], old.line_policies[a]), same_seq(new.meshlines[a], old.meshlines[a]))))
        out.append(("other axes untouched", Implies(a != axis, same_seq(new.intervals[a], old.intervals[a]))))
    iv, ov, lp = new.intervals[axis], old.intervals[axis], old.line_policies[axis]
    I.assume(mem_def(c, lp))
    k, k2, i, j = z3.Int("k!new"), z3.Int("k!two"), z3.Int("i!lp"), z3.Int("j!lp")
    x, nx = iv[ov.n + k], iv[ov.n + k + 1]
    s = x.state
    b, a = s.before.meshline_policy, s.after.meshline_policy
    ins = And(k >= 0, ov.n + k < iv.n)
    with At(I, c.old):
        ei, ej = And(i >= 0, i < lp.n, en(c, lp[i])), And(j >= 0, j < lp.n, en(c, lp[j]))
        ci = d(lp[i].coord)
    dsum = d(b.coord) + d(a.coord)
    def was(p):
        q = wrap(I, p.raw, p._t)
        with At(I, c.old): return q.state.d
    out += [("intervals already there are kept", And(iv.n >= ov.n, Implies(And(k >= 0, k < ov.n), iv[k].raw == ov[k].raw))),
            ("starts at an enabled policy", Implies(ins, MEM(b.raw))), ("ends at an enabled policy", Implies(ins, MEM(a.raw))), ("between two different policies", Implies(ins, b.raw != a.raw)),
            ("in increasing order", Implies(ins, d(b.coord) <= d(a.coord))),
            ("consecutive: no enabled policy lies strictly between", Implies(And(ins, ei), Or(ci <= d(b.coord), ci >= d(a.coord)))),
            ("each starts where the previous one ends", Implies(And(ins, ov.n + k + 1 < iv.n), nx.state.before.meshline_policy.raw == a.raw)),
            ("no two start at the same policy", Implies(And(ins, k2 > k, ov.n + k2 < iv.n), iv[ov.n + k2].state.before.meshline_policy.raw != b.raw)),
            ("half width", Implies(ins, d(x.h) == (d(a.coord) - d(b.coord)) / 2)), ("middle", Implies(ins, d(x.m) == dsum / 2))]
    out += [("axis and global parameters", Implies(ins, q)) for q in interval_params(c, x, axis, gp)]
    for nm, p in (("start", b), ("end", a)):
        out += [(f"spacing at its {nm} bounded by the half width", Implies(ins, p.state.d <= d(x.h))), (f"spacing at its {nm} never increased", Implies(ins, p.state.d <= was(p)))]
    e = z3.Int("e!end")
    I.assume(fa([e], Implies(And(e >= ov.n, e < iv.n), And(END(iv[e].state.before.meshline_policy.raw), END(iv[e].state.after.meshline_policy.raw))), T(z3.Select(seq_of(iv), e))))
    out.append(("every enabled policy bounds an interval, as soon as there are two", Implies(And(ei, ej, i != j, T2(lp[i].raw)), END(lp[i].raw))))
    P = wrap(I, z3.Int("p!any"), I.prog.tys["domain::MeshlinePolicy*"])
    out.append(("policies otherwise untouched", Implies(P.raw > 0, flat_eq(c, P.state, at_old(c, P), POLICY_FIELDS))))
    out.append(("disabled policies untouched", Implies(And(P.raw > 0, Not(at_old(c, P).is_enabled)), P.state.d == at_old(c, P).d)))
    return out
