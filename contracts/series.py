"""Contracts of the half-interval series: M07, M08."""
import z3
from verify import *
from geometrics import d, TOL
from mesh import Scan, scan_inv, fa, raw, skolem, finite

P7 = ["M07"]


def x(ls, i): return d(ls[i])


def gap(ls, i, first=None):
    """space before line i"""
    return If(i == 0, x(ls, lit(0)), x(ls, i) - x(ls, i - 1)) if z3.is_expr(i) else (x(ls, lit(0)) if i == 0 else x(ls, lit(i)) - x(ls, lit(i - 1)))


def grown(g, smooth, dmax): return If(g < dmax, If(g * smooth > dmax, dmax, g * smooth), g)


def d0(dd, dmax): return If(dd <= dmax, dd, dmax)


def ls_line(ls, m, dd, smooth, dmax, s):
    """line m of the series"""
    return And(gap(ls, m) == grown(If(m == 0, d0(dd, dmax), gap(ls, m - 1)), smooth, dmax), gap(ls, m) > 0, gap(ls, m) <= dmax, Implies(m + 1 < ls.n, x(ls, m) < s))


def ls_inv(c, lc, dd, smooth, dmax, s):
    out = {}
    m = z3.Int("m!ls")
    rs = lc.reals() + [(i, v.f["val"]) for i, t, v in lc.cells() if isinstance(v, Struct) and v.cls == "domain::Coord"]
    for cid, v in lc.vecs():
        if cid not in c.I.st.ctys: continue
        ls = wrap(c.I, c.I.tovec(v) if isinstance(v, CVec) else v, c.I.st.ctys[cid])
        n = ls.n
        out[f"l{cid}"] = Implies(And(m >= 0, m < n), And(ls_line(ls, m, dd, smooth, dmax, d(s))))
        for i, r in rs:
            out[f"s{cid}{i}"] = r == If(n == 0, z3.RealVal(0), x(ls, n - 1))
            out[f"d{cid}{i}"] = r == If(n == 0, d0(dd, dmax), gap(ls, n - 1))
            out[f"p{i}"] = r > 0
            out[f"u{i}"] = r <= dmax
        out[f"c{cid}"] = Implies(n >= 2, x(ls, n - 2) < d(s)); out[f"e{cid}"] = Implies(n >= 1, 0 < d(s))
    return out


@post("domain::find_ls", None, props=P7, pre=lambda c, dd, smooth, dmax, s: [dd > 0, smooth >= 1, dmax > 0], inv=ls_inv, modifies=lambda c, *a: [])
def _(c, r, dd, smooth, dmax, s):
    n = r.n
    g = skolem(c, "m!ls", lambda m: Implies(And(m >= 0, m < n), ls_line(r, m, dd, smooth, dmax, d(s))))
    out = [("empty exactly when there is nothing to cover", (n == 0) == (d(s) <= 0)), ("each line", g), ("the last one reaches the end", Implies(n > 0, x(r, n - 1) >= d(s)))]
    if c.call_site:
        q = Series(dd, smooth, dmax, d(s))      # the series is a function of its parameters
        out.append(is_series(r, q))
        one, last, prev = x(r, lit(0)), x(r, n - 1), x(r, n - 2)      # consequences of the above, spelled out for the solver
        for p, u in ((one, q.at(lit(0))), (last - prev, q.at(q.n - 1) - q.at(q.n - 2))):
            out.append(Implies(n >= (1 if p is one else 2), And(p == u, smooth * p == smooth * u)))
    else:
        m = z3.Int("m!ls")
        inn = And(m >= 0, m < n)
        out += [("starts within the smoothed spacing", Implies(And(inn, m == 0), gap(r, m) <= smooth * dd)), ("never above the maximum", Implies(inn, gap(r, m) <= dmax)),
                ("strictly increasing", Implies(inn, x(r, m) > If(m == 0, z3.RealVal(0), x(r, m - 1)))),
                ("growth limited", Implies(And(inn, m >= 1), gap(r, m) <= smooth * gap(r, m - 1)))]
    return out


def bad_gap(ls, k, smooth, dmax):
    """line k grows too fast or leaves too large a space"""
    prev = If(k == 1, x(ls, lit(0)), x(ls, k - 1) - x(ls, k - 2))
    return And(k >= 1, Or(x(ls, k) - x(ls, k - 1) > smooth * prev + TOL, x(ls, k) - x(ls, k - 1) > dmax + TOL))


def ls_scan(c, ls, smooth, dmax):
    st = c.old

    def P(k):
        with At(c.I, st): return bad_gap(ls, k, smooth, dmax)
    with At(c.I, st): n = ls.n
    return Scan(c, "ANY_BAD_GAP", P, n)


def valid_inv(c, lc, ls, dd, smooth, dmax, lmin):
    sc = ls_scan(c, ls, smooth, dmax)
    for k in (0, 1):
        for f in sc.facts(lit(k)): lc.fact(f)
    out = scan_inv(c, lc, [sc])
    for i, k in lc.idx(): out[f"top{i}"] = Or(k <= ls.n, k == 2)
    return out


@post("domain::is_ls_valid_for_dmax_lmin_smoothness", None, props=P7, inv=valid_inv, modifies=lambda c, *a: [])
def _(c, r, ls, dd, smooth, dmax, lmin):
    n = ls.n
    if c.call_site:
        k = z3.Int("k!gap")
        v = raw(ls)
        allok = fa([k], Implies(And(k >= 1, k < n), Not(bad_gap(ls, k, smooth, dmax))), z3.Select(v.arr[0], k))
        return [Implies(r.raw if isinstance(r, W) else r, And(valid_head(ls, dd, smooth, dmax, lmin), allok))]
    sc = ls_scan(c, ls, smooth, dmax)
    for k in (0, 1):
        for f in sc.facts(lit(k)): c.I.assume(f)
    rv = r.raw if isinstance(r, W) else r
    return [("accepted exactly when long enough and every gap within both limits", rv == And(valid_head(ls, dd, smooth, dmax, lmin), Not(sc(n))))]


def valid_head(ls, dd, smooth, dmax, lmin):
    return And(dd <= dmax, ls.n >= lmin, ls.n >= 1, x(ls, lit(0)) <= smooth * dd + TOL, x(ls, lit(0)) <= dmax + TOL)


def side_dmax(side, dmax):
    ls = side.ls
    n = ls.n
    g = If(n > 1, x(ls, n - 1) - x(ls, n - 2), x(ls, lit(0)))
    lim = side.smoothness * g
    return If(n == 0, dmax, If(lim < dmax, lim, dmax))


@spec("domain::find_dmax", ["*", "*"], props=["M08"])
def _(c, side, dmax): return side_dmax(side, dmax)


@spec("domain::find_dmax", ["*", "*", "*"], props=["M08"])
def _(c, a, b, dmax):
    p, q = side_dmax(a, dmax), side_dmax(b, dmax)
    return If(p <= q, p, q)


# ---- M08 -----------------------------------------------------------------------------
P8 = ["M08"]
RS = z3.RealSort()
SER_N = z3.Function("series_length", RS, RS, RS, RS, z3.IntSort())
SER = z3.Function("series_line", RS, RS, RS, RS, z3.IntSort(), RS)


APPLY = z3.Function("apply_Real_Real", z3.IntSort(), RS, RS)


def offset(c, side, dd):
    """what the side's offset function gives for a spacing"""
    f = side.d_init_.raw
    if z3.is_int_value(f) and f.as_long() in getattr(c.I, "closures", {}): return c.I.call_value(f, [dd])
    return APPLY(f, dd)


def cover(c, this, side, dd): return d(this.h) - offset(c, side, dd)


for sig in (["*"], ["*", "*"]):
    @spec("domain::Interval::s", sig, props=P8)
    def _(c, side, dd=None):
        return c.coord(cover(c, c.this, side, side.meshline_policy.state.d if dd is None else dd))


def dom(c, this, side):
    """spacing, smoothness and maximum spacing are positive"""
    return [side.meshline_policy.state.d > 0, side.smoothness >= 1, this.state.dmax > 0]


class Series:
    """the series for given parameters, as a function"""
    def __init__(self, dd, smooth, dmax, s): self.a = (dd, smooth, dmax, s); self.n = SER_N(*self.a)

    def at(self, k): return SER(*self.a, k)


class Of:
    def __init__(self, ls): self.ls = ls; self.n = ls.n

    def at(self, k): return x(self.ls, k)


def bad_at(q, k, smooth, dmax):
    prev = If(k == 1, q.at(lit(0)), q.at(k - 1) - q.at(k - 2))
    return And(k >= 1, Or(q.at(k) - q.at(k - 1) > smooth * prev + TOL, q.at(k) - q.at(k - 1) > dmax + TOL))


def valid_series(q, dd, smooth, dmax, lmin, k):
    return And(dd <= dmax, q.n >= lmin, q.n >= 1, q.at(lit(0)) <= smooth * dd + TOL, q.at(lit(0)) <= dmax + TOL, Implies(And(k >= 1, k < q.n), Not(bad_at(q, k, smooth, dmax))))


def is_series(ls, q, k=None):
    """ls is the series q"""
    if k is not None: return And(ls.n == q.n, Implies(And(k >= 0, k < ls.n), x(ls, k) == q.at(k)))
    k = z3.Int("k!ser")
    return And(ls.n == q.n, fa([k], Implies(And(k >= 0, k < ls.n), x(ls, k) == q.at(k)), z3.Select(raw(ls).arr[0], k)))


def same_ls(a, b):
    k = z3.Int("k!ser")
    return And(a.n == b.n, fa([k], Implies(And(k >= 0, k < a.n), x(a, k) == x(b, k)), z3.Select(raw(a).arr[0], k)))


def adjust_inv(c, lc, side, lim):
    out = {}
    this = c.this
    dm = this.state.dmax
    D0 = d0(side.meshline_policy.state.d, dm)
    for i, r in lc.reals():
        out[f"pos{i}"] = r > 0; out[f"le{i}"] = r <= D0
        for cid, v in lc.vecs():
            if cid not in c.I.st.ctys: continue
            ls = wrap(c.I, c.I.tovec(v) if isinstance(v, CVec) else v, c.I.st.ctys[cid])
            out[f"ls{i}{cid}"] = Or(And(r == D0, same_ls(ls, side.ls)), And(r < D0, is_series(ls, Series(r, side.smoothness, dm, cover(c, this, side, r)))))
    return out


@post("domain::Interval::adjust_d_for_dmax_lmin", None, props=P8, inv=adjust_inv, modifies=lambda c, *a: [], pre=lambda c, side, lim: dom(c, c.this, side))
def _(c, r, side, lim):
    I = c.I
    this = c.this
    dm = this.state.dmax
    D0 = d0(side.meshline_policy.state.d, dm)
    nd, stopped = r.raw.items
    k = z3.Int("k!gap")
    new = Series(nd, side.smoothness, dm, cover(c, this, side, nd))
    out = [("never increases", And(nd > 0, nd <= D0))]
    if not c.call_site:
        out += [("valid when it stops by itself, untouched", Implies(And(Not(stopped), nd == D0), valid_series(Of(side.ls), nd, side.smoothness, dm, side.lmin, k))),
                ("valid when it stops by itself", Implies(And(Not(stopped), nd != D0), valid_series(new, nd, side.smoothness, dm, side.lmin, k)))]
    return out


def smooth_inv(c, lc, side, lim):
    out = {}
    this = c.this
    for i, r in lc.reals():
        out[f"one{i}"] = r >= 1; out[f"le{i}"] = r <= side.smoothness
        out[f"n{i}"] = Or(r == side.smoothness, Series(side.meshline_policy.state.d, r, this.state.dmax, cover(c, this, side, side.meshline_policy.state.d)).n <= side.ls.n)
    return out


@post("domain::Interval::adjust_smoothness_for_s", None, props=P8, inv=smooth_inv, modifies=lambda c, *a: [], pre=lambda c, side, lim: dom(c, c.this, side))
def _(c, r, side, lim):
    this = c.this
    ns = r.raw.items[0]
    q = Series(side.meshline_policy.state.d, ns, this.state.dmax, cover(c, this, side, side.meshline_policy.state.d))
    return [("never increases nor goes below 1", And(ns >= 1, ns <= side.smoothness)), ("never needs more lines", Or(ns == side.smoothness, q.n <= side.ls.n))]


def both(c, f): return [f(c.this.state.before), f(c.this.state.after)]


def tune_pre(c):
    b, a = c.this.state.before, c.this.state.after
    return dom(c, c.this, b) + dom(c, c.this, a) + [b.meshline_policy.raw != a.meshline_policy.raw]


def pol_mod(c, p): return [lib.cur_field(c.I, p.target()[0]), lib.tp_field(c.I, p.target()[0])]


def kept_side(c, new, old, names=("lmin",)):
    return And(new.meshline_policy.raw == old.meshline_policy.raw, new.d_init_.raw == old.d_init_.raw, *[getattr(new, f) == getattr(old, f) for f in names])


POLICY_FIELDS = ["policy", "normal", "is_enabled", "conflict"]


@post("domain::Interval::auto_solve_d", None, props=P8, pre=tune_pre,
      modifies=lambda c: pol_mod(c, c.this) + pol_mod(c, c.this.state.before.meshline_policy) + pol_mod(c, c.this.state.after.meshline_policy))
def _(c, r):
    I = c.I
    this = c.this
    new = this.state
    k = z3.Int("k!out")
    out = []
    with At(I, c.old):
        ov = this.state.raw
    old = wrap(I, ov, new._t)
    out.append(("maximum spacing never increases", And(new.dmax <= old.dmax, new.dmax > 0)))
    for nm in ("before", "after"):
        ns, os = getattr(new, nm), getattr(old, nm)
        p = ns.meshline_policy
        with At(I, c.old):
            od = os.meshline_policy.state.d
            pv = os.meshline_policy.state.raw
            q0 = Series(od, os.smoothness, old.dmax, cover(c, this, os, od))
        po = wrap(I, pv, p.state._t)
        g = If(q0.n > 1, q0.at(q0.n - 1) - q0.at(q0.n - 2), q0.at(lit(0)))
        out += [(f"{nm}: maximum spacing within the side's growth", Or(q0.n == 0, new.dmax <= os.smoothness * g)),
                (f"{nm}: side kept", kept_side(c, ns, os, ("lmin", "smoothness"))),
                (f"{nm}: spacing never increases", And(p.state.d > 0, p.state.d <= od, p.state.d <= old.dmax)),
                (f"{nm}: policy otherwise untouched", And(*[getattr(p.state, f) == getattr(po, f) if not isinstance(getattr(p.state, f), W) else veq(I, getattr(p.state, f).raw, getattr(po, f).raw, None) for f in POLICY_FIELDS])),
                (f"{nm}: lines are those of the new spacing", is_series(ns.ls, Series(p.state.d, os.smoothness, old.dmax, cover(c, this, ns, p.state.d)), k))]
    return out


@post("domain::Interval::auto_solve_smoothness", None, props=P8, pre=tune_pre, modifies=lambda c: pol_mod(c, c.this))
def _(c, r):
    I = c.I
    this = c.this
    new = this.state
    k = z3.Int("k!out")
    with At(I, c.old): ov = this.state.raw
    old = wrap(I, ov, new._t)
    out = [("maximum spacing kept", new.dmax == old.dmax)]
    for nm in ("before", "after"):
        ns, os = getattr(new, nm), getattr(old, nm)
        with At(I, c.old): od = os.meshline_policy.state.d
        q0 = Series(od, os.smoothness, old.dmax, cover(c, this, os, od))
        q1 = Series(od, ns.smoothness, old.dmax, cover(c, this, os, od))
        out += [(f"{nm}: smoothness never increases nor goes below 1", And(ns.smoothness >= 1, ns.smoothness <= os.smoothness)), (f"{nm}: side kept", kept_side(c, ns, os)),
                (f"{nm}: never needs more lines", q1.n <= q0.n), (f"{nm}: lines are those of the new smoothness", is_series(ns.ls, q1, k))]
    return out


# ---- M09 -----------------------------------------------------------------------------
P9 = ["M09"]


class Expected:
    """the lines of an interval"""
    def __init__(self, c, this):
        st = this.state
        self.c = c; self.this = this
        self.b, self.a = st.before, st.after
        one = c.enum("MeshlinePolicy::Policy", "ONELINE")
        pb, pa = self.b.meshline_policy, self.a.meshline_policy
        self.ob, self.oa = pb.state.policy != one, pa.state.policy != one
        self.offb, self.offa = offset(c, self.b, pb.state.d), offset(c, self.a, pa.state.d)
        self.cb, self.ca = d(pb.coord), d(pa.coord)
        self.kb, self.ka = If(self.ob, lit(1), lit(0)), If(self.oa, lit(1), lit(0))
        nb, na = self.b.ls.n, self.a.ls.n
        self.na = na
        self.lb, self.la = If(nb > 0, nb - 1, lit(0)), If(na > 0, na - 1, lit(0))
        self.mid = self.kb + self.lb
        self.n = self.mid + 1 + self.la + self.ka

    def coord(self, m):
        return If(m < self.kb, self.cb + self.offb, If(m < self.mid, self.cb + self.offb + x(self.b.ls, m - self.kb), If(m == self.mid, d(self.this.m),
               If(m < self.mid + 1 + self.la, self.ca - self.offa - x(self.a.ls, self.na - 2 - (m - self.mid - 1)), self.ca - self.offa))))

    def owner(self, m): return If(m < self.mid, self.b.meshline_policy.raw, If(m == self.mid, lit(0), self.a.meshline_policy.raw))

    def line(self, w, m): return And(d(w[m].coord) == self.coord(m), w[m].interval.raw == self.this.ref, w[m].policy.raw == self.owner(m))


def imesh_inv(c, lc):
    out = {}
    I = c.I
    m = z3.Int("m!line")
    with At(I, c.old): e = Expected(c, c.this)
    for cid, v in lc.vecs():
        if cid not in I.st.ctys: continue
        w = wrap(I, I.tovec(v) if isinstance(v, CVec) else v, I.st.ctys[cid])
        out[f"at{cid}"] = Implies(And(m >= 0, m < w.n), And(e.line(w, m), w[m].raw < 0, w[m].raw >= I.st.alloc))
        for i, k in lc.idx():
            out[f"b{cid}{i}"] = And(w.n == e.kb + k, k <= e.lb)
            out[f"a{cid}{i}"] = And(w.n == e.mid + 1 + k - 1, k >= 1, k <= e.la + 1)
            out[f"a0{cid}{i}"] = And(w.n == e.mid + 1 + k, k <= e.la)
            out[f"ar{cid}{i}"] = And(w.n == e.mid + e.na - k, k >= 0)
    return out


@post("domain::Interval::mesh", None, props=P9, inv=imesh_inv, modifies=lambda c, *a: [])
def _(c, r):
    I = c.I
    m = z3.Int("m!line")
    e = Expected(c, c.this)
    return [("how many", r.n == e.n), ("each line in its place", Implies(And(m >= 0, m < e.n), e.line(r, m)))]
