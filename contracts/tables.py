"""Contracts of the finite tables: A05 (materials), A06 (names), A01 (step order), A07 (list helpers)."""
import z3
from verify import *

# ---- A05 -----------------------------------------------------------------------------
P5 = ["A05"]


def rank(c, t):
    T = lambda n: c.enum("Material::Type", n)
    return If(t == T("PORT"), lit(3), If(t == T("CONDUCTOR"), lit(2), If(t == T("DIELECTRIC"), lit(1), lit(0))))


def three_way(a, b): return If(a < b, lit(-1), If(a > b, lit(1), lit(0)))


@spec("domain::Material::operator<=>", None, props=P5 + ["M13"])
def _(c, o): return three_way(rank(c, c.this.type), rank(c, o.type))


@spec("domain::Material::deduce_type", None, props=P5)
def _(c, eps, mue, kappa):
    T = lambda n: c.enum("Material::Type", n)
    return If(And(eps == 1, mue == 1, kappa == 0), T("AIR"), If(And(eps == 1, mue == 1, kappa > 0), T("CONDUCTOR"), T("DIELECTRIC")))


@post("domain::Material::Material", ["*", "*"], props=P5, at_call=False)
def _(c, r, t, n): return [("type and name", And(c.this.type == t, c.this.name == n))]


@lemma("the ranking is a total order on kinds", props=P5)
def _(c):
    T = [c.enum("Material::Type", n) for n in ("PORT", "CONDUCTOR", "DIELECTRIC", "AIR")]
    a, b, d = z3.Ints("ka kb kd")
    dom = [Or(*[x == t for t in T]) for x in (a, b, d)]
    cmp = lambda x, y: three_way(rank(c, x), rank(c, y))
    return [("antisymmetric", dom, cmp(a, b) == -cmp(b, a)), ("equivalent exactly when equal", dom, (cmp(a, b) == 0) == (a == b)),
            ("transitive", dom, Implies(And(cmp(a, b) > 0, cmp(b, d) > 0), cmp(a, d) > 0))]


# ---- A06 -----------------------------------------------------------------------------
NAMES = {
    "Edge::Direction": "XMIN XMAX YMIN YMAX NONE", "Normal": "XMIN XMAX YMIN YMAX ZMIN ZMAX NONE", "MeshlinePolicy::Normal": "MIN MAX NONE",
    "MeshlinePolicy::Policy": "ONELINE HALFS THIRDS", "Polygon::Rotation": "CW CCW COLINEAR", "Segment::Axis": "H V DIAGONAL POINT", "Axis": "X Y Z", "Plane": "YZ ZX XY",
    "Material::Type": "PORT CONDUCTOR DIELECTRIC AIR",
}
for E_, ns in NAMES.items():
    @spec("to_string", [E_], props=["A06"])
    def _(c, v, E_=E_, ns=ns.split()):
        r = z3.StringVal(ns[-1])
        for n in reversed(ns[:-1]): r = If(v == c.enum(E_, n), z3.StringVal(n), r)
        return r


@lemma("different values never share a name", props=["A06"])
def _(c):
    out = []
    for E_, ns in NAMES.items():
        ns = ns.split()
        # the notion has no further value, and the documented names are pairwise different
        known = next(e for n, e in c.I.prog.enums.items() if n in (E_, "domain::" + E_))
        out.append((E_, [], z3.BoolVal(sorted(x["n"] for x in known) == sorted(ns) and len(set(ns)) == len(ns))))
    return out


# ---- A01 (the order itself) ---------------------------------------------------------
PA1 = ["A01"]
STEPS = ("ADJUST_EDGE_TO_MATERIAL DETECT_DIAG_ANGLES DETECT_DIAG_ZONES SOLVE_DIAG_ZONES_ANGLES DETECT_CONFLICT_EIP DETECT_CONFLICT_CE ADD_FIXED_MLP SOLVE_ALL_EIP SOLVE_ALL_CE "
         "DETECT_INDIVIDUAL_EDGES DETECT_AND_SOLVE_TCMLP DETECT_INTERVALS DETECT_INTERVALS_PER_DIAG_ZONES SOLVE_DIAG_ZONES_INTERVALS MESH").split()


def step(c, i): return c.enum("app::Step", STEPS[i])


def pos(c, s):
    r = lit(len(STEPS))
    for i in reversed(range(len(STEPS) - 1)): r = If(s == step(c, i), lit(i + 1), r)
    return r


@spec("app::next", None, props=PA1)
def _(c, s):
    r = step(c, len(STEPS) - 1)
    for i in reversed(range(len(STEPS) - 1)): r = If(s == step(c, i), step(c, i + 1), r)
    return Opt(s != step(c, len(STEPS) - 1), r)


@spec("app::index", None, props=PA1)
def _(c, o): return If(o.has, pos(c, o.value), lit(0))


spec("app::index_max", None, props=PA1)(lambda c: lit(len(STEPS)))


@post("app::that_and_after", None, props=PA1)
def _(c, r, s):
    v = r.raw
    if isinstance(v, Map): has = lambda x: c.I.sel(v.has, x)
    else: raise Unsupported("set value " + type(v).__name__)
    return [(f"{STEPS[i]}", has(step(c, i)) == (pos(c, s) <= i + 1)) for i in range(len(STEPS))]

# ---- A07 -----------------------------------------------------------------------------
@spec("signum", None, props=["A07"])
def _(c, a):
    x = a.val if isinstance(a, W) else a
    return If(x > 0, lit(1), If(x < 0, lit(-1), lit(0)))


def view_inv(c, lc, orig):
    out = {}
    m = z3.Int("m!el")
    for cid, v in lc.vecs():
        if cid not in c.I.st.ctys: continue
        w = wrap(c.I, CellLoc(cid), c.I.st.ctys[cid])
        for i, k in lc.idx():
            out[f"n{cid}{i}"] = w.n == orig.n
            out[f"e{cid}{i}"] = Implies(And(m >= 0, m < k), w[m].raw == orig[m].raw)
            out[f"t{i}"] = k <= orig.n
    return out


@post("create_view", None, props=["A07"], inv=view_inv, at_call=False)
def _(c, r, orig):
    m = z3.Int("m!el")
    return [("same length", r.n == orig.n), ("element m is owner m's object", Implies(And(m >= 0, m < r.n), r[m].raw == orig[m].raw))]
