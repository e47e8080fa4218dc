"""Assumed contracts of the standard library (and of effect-free logging): the trusted part of the verifier's view of the code.
Every handler used in a run is reported in the evidence."""
import z3
from sym import (BYREF, Struct, Opt, Vec, CVec, Tup, Map, Clo, PyFn, LPtr, View, Iter, UNIT, NULLOPT, CellLoc, FieldLoc, ObjLoc, ValLoc, Loc,
                 Unsupported, Dead, lit, S, And, is_true, is_false, Undef, VECS, PTRS, STRS, NoMerge)

LIB = {}


def h(*names):
    def d(f):
        for n in names: LIB[n] = f
        return f
    return d


def install(I, real=False):
    """real: the history classes themselves are under verification, not their ghost view"""
    I.lib.update(LIB)
    if real:
        for n in list(I.lib):
            if n.startswith(("Originator::", "Caretaker::", "IOriginator::", "ctor:Originator")): del I.lib[n]
        I.lib.update(REAL)


R = z3.RealSort()
UF = {n: z3.Function("uf_" + n, R, R) for n in ("sqrt", "cos", "sin")}
ATAN2 = z3.Function("uf_atan2", R, R, R)
LOG = z3.Function("uf_log", R, R)
POW = z3.Function("uf_pow", R, R, R)
INF = z3.Real("uf_infinity")


def v(I, a):
    return I.val(a)


def num(I, a):
    x = I.num(I.val(a))
    return x


def real(I, a):
    x = num(I, a)
    return z3.ToReal(x) if x.sort() == z3.IntSort() else x


# ---- scalars ----------------------------------------------------------------
def less(I, a, b):
    """a < b for values, by operator<  (user-defined for records)"""
    a, b = I.val(a), I.val(b)
    if z3.is_expr(a) or isinstance(a, Undef): return I.compare("<", a, b)
    if isinstance(a, Iter): return a.i < b.i
    if isinstance(a, Struct):
        for op, inv in (("operator<", False), ("operator<=>", True)):
            f = find_op(I, op, a, b)
            if f is not None:
                r = I.val(call_op(I, f, a, b))
                return r < 0 if inv else I.boolean(r)
    if isinstance(a, Tup):
        r = z3.BoolVal(False)
        for x, y in reversed(list(zip(a.items, b.items))):
            r = z3.Or(less(I, x, y), z3.And(z3.Not(less(I, y, x)), r))
        return r
    raise Unsupported("operator< of " + type(a).__name__)


def find_op(I, op, a, b):
    for cls in [a.cls] + [x.s for x in I.prog.bases(a.cls)]:
        for k in I.prog.byq.get(cls.split("<")[0] + "::" + op, []):
            return I.prog.fns[k]
    ns = a.cls.rsplit("::", 1)[0] + "::" if "::" in a.cls else ""
    for q in (ns + op, op):
        for k in I.prog.byq.get(q, []):
            f = I.prog.fns[k]
            ps = [I.prog.ty(f["tu"], p["t"]).strip().s for p in f["params"]]
            if len(ps) == 2 and ps[0] in [a.cls] + [x.s for x in I.prog.bases(a.cls)]: return f
    return None


def call_op(I, f, a, b):
    la, lb = I.loc(a), I.loc(b)
    if f.get("method"): return I.call_fn(f, la if I.contract_of(f) is not None else I.ptr(la), [lb])
    return I.call_fn(f, None, [la, lb])


def equal(I, a, b):
    a, b = I.val(a), I.val(b)
    if isinstance(a, Undef): a = I.num(a)
    if isinstance(b, Undef): b = I.num(b)
    if isinstance(b, Struct) and b.cls == "nullopt" and isinstance(a, Opt): return z3.Not(a.has)
    if isinstance(a, Opt) and not isinstance(b, Opt):
        return And(a.has, equal(I, a.val, b)) if a.val is not None else z3.BoolVal(False)
    if isinstance(b, Opt) and not isinstance(a, Opt): return equal(I, b, a)
    if isinstance(a, Opt):
        if a.val is None or b.val is None: return z3.And(z3.Not(a.has), z3.Not(b.has)) if a.val is None and b.val is None else (z3.And(z3.Not(a.has), z3.Not(b.has)))
        return z3.And(a.has == b.has, z3.Implies(a.has, equal(I, a.val, b.val)))
    if z3.is_expr(a) and z3.is_expr(b): return I.compare("==", a, b)
    if isinstance(a, Iter): return a.i == b.i
    if isinstance(a, Tup): return And(*[equal(I, x, y) for x, y in zip(a.items, b.items)])
    if isinstance(a, (LPtr,)) or isinstance(b, LPtr): return I.compare("==", a, b)
    if isinstance(a, Struct):
        f = find_op(I, "operator==", a, b)
        if f is not None:
            return I.boolean(I.val(call_op(I, f, a, b)))
        f = find_op(I, "operator<=>", a, b)
        if f is not None:
            return I.num(I.val(call_op(I, f, a, b))) == 0
        raise Unsupported("operator== of " + a.cls)
    if isinstance(a, (CVec, Vec)) and isinstance(b, (CVec, Vec)):
        if isinstance(a, CVec) and isinstance(b, CVec):
            if len(a.items) != len(b.items): return z3.BoolVal(False)
            return And(*[equal(I, x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, CVec) or isinstance(b, CVec):
            c, w = (a, b) if isinstance(a, CVec) else (b, a)
            return And(w.n == len(c.items), *[equal(I, x, I.vec_get(w, lit(i))) for i, x in enumerate(c.items)])
        k = I.fresh("k", z3.IntSort())
        f = pure(I, lambda: equal(I, I.vec_get(a, k), I.vec_get(b, k)))
        return z3.And(a.n == b.n, forall(k, z3.And(0 <= k, k < a.n), f))
    raise Unsupported(f"equality of {type(a).__name__}")


def pure(I, thunk):
    """evaluate thunk (a boolean-valued computation) to a single formula without touching the state; unsupported if it has effects that
    do not merge"""
    base = I.st
    snap = base.copy()
    outs = I.explore(lambda: ("v", I.boolean(I.val(thunk()))))
    I.st = base
    if not outs: return z3.BoolVal(True)
    np_ = len(snap.pc); nf = len(snap.facts)
    r = None
    for st, o in outs:
        g = And(*st.pc[np_:])
        extra = st.facts[nf:]
        for f in extra:
            base.facts.append(z3.Implies(g, f) if not is_true(g) else f)
        r = o[1] if r is None else z3.If(g, o[1], r)
        base.ctr = max(base.ctr, st.ctr)
    return S(r)


def forall(k, guard, f):
    b = z3.Int("q!")
    return z3.ForAll([k], z3.Implies(guard, f))


@h("std::min", "std::max")
def minmax(I, o, a, e):
    mx = e["f"]["q"].endswith("max")
    if len(a) == 1:      # initializer list
        n, get = I.seq_of(a[0])
        n = S(n)
        if not z3.is_int_value(n): raise Unsupported("min of a range")
        x = I.val(get(lit(0)))
        for i in range(1, n.as_long()):
            y = I.val(get(lit(i)))
            x = I.merge(S(less(I, x, y) if mx else less(I, y, x)), y, x)
        return x
    x, y = I.val(a[0]), I.val(a[1])
    if len(a) == 3:
        c = I.boolean(I.val(I.call_value(I.val(a[2]), [x, y] if mx else [y, x])))
    else:
        c = less(I, x, y) if mx else less(I, y, x)
    c = S(c)
    if isinstance(a[0], Loc) and isinstance(a[1], Loc):
        if is_true(c): return a[1]
        if is_false(c): return a[0]
    return I.merge(c, y, x)


@h("std::abs", "std::fabs", "fabs", "abs")
def abs_(I, o, a, e):
    x = num(I, a[0])
    return z3.If(x < 0, -x, x)


@h("std::floor", "floor")
def floor_(I, o, a, e): return z3.ToReal(z3.ToInt(real(I, a[0])))


@h("std::ceil", "ceil")
def ceil_(I, o, a, e): return z3.ToReal(-z3.ToInt(-real(I, a[0])))


@h("sqrt", "std::sqrt")
def sqrt_(I, o, a, e):
    x = real(I, a[0]); r = UF["sqrt"](x)
    I.assume(z3.Implies(x >= 0, z3.And(r >= 0, r * r == x)))
    return r


@h("cos", "std::cos")
def cos_(I, o, a, e): return UF["cos"](real(I, a[0]))


@h("sin", "std::sin")
def sin_(I, o, a, e): return UF["sin"](real(I, a[0]))


@h("atan2", "std::atan2")
def atan2_(I, o, a, e): return ATAN2(real(I, a[0]), real(I, a[1]))


@h("std::pow", "pow")
def pow_(I, o, a, e): return POW(real(I, a[0]), real(I, a[1]))


@h("std::numeric_limits::infinity")
def inf_(I, o, a, e): return INF


@h("std::numeric_limits::signaling_NaN", "std::numeric_limits::quiet_NaN")
def nan_(I, o, a, e): return I.fresh("nan", R)


@h("std::numeric_limits::max", "std::numeric_limits::min")
def lim_(I, o, a, e):
    t = I.fty(e).strip()
    mx = e["f"]["q"].endswith("max")
    if t.n == "double":
        return z3.RealVal("179769313486231570814527423731704356798070567525844996598917476803157260780028538760589558632766878171540458953514382464234321326889464182768467546703537516986049910576551282076245490090389328944075868508455133942304583236903222948165808559332123347764797926204144723168738177180919299881250404026184124858368") if mx else z3.RealVal("0.000000000000000000000000000000000001")
    b = {"unsigned long": (0, 2**64 - 1), "unsigned int": (0, 2**32 - 1), "int": (-2**31, 2**31 - 1), "long": (-2**63, 2**63 - 1)}.get(t.n)
    if b is None: raise Unsupported("numeric_limits of " + t.s)
    return lit(b[1] if mx else b[0])


@h("std::move", "std::forward", "unconst", "std::as_const", "std::to_underlying", "std::addressof")
def ident(I, o, a, e): return a[0]


@h("std::unreachable", "unreachable", "std::abort", "abort")
def unreach(I, o, a, e):
    I.oblige("unreachable code is not reached", z3.BoolVal(False))
    raise Dead()


@h("new:std::strong_ordering")
def so(I, t, f, a, e): return I.val(a[0]) if a else lit(0)


LIB["var:std::strong_ordering::less"] = lambda I, o, a, e: lit(-1)
LIB["var:std::strong_ordering::equal"] = lambda I, o, a, e: lit(0)
LIB["var:std::strong_ordering::equivalent"] = lambda I, o, a, e: lit(0)
LIB["var:std::strong_ordering::greater"] = lambda I, o, a, e: lit(1)
LIB["var:std::partial_ordering::less"] = lambda I, o, a, e: lit(-1)
LIB["var:std::partial_ordering::equivalent"] = lambda I, o, a, e: lit(0)
LIB["var:std::partial_ordering::greater"] = lambda I, o, a, e: lit(1)


@h("new:std::__cmp_cat::__unspec")
def unspec(I, t, f, a, e): return lit(0)


LIB["new:std::identity"] = lambda I, t, f, a, e: Struct("fnobj:identity", {})
LIB["new:std::ranges::less"] = lambda I, t, f, a, e: Struct("fnobj:less", {})
LIB["new:std::nullopt_t"] = lambda I, t, f, a, e: NULLOPT
LIB["new:std::allocator"] = lambda I, t, f, a, e: UNIT
LIB["new:std::less"] = lambda I, t, f, a, e: UNIT


@h("std::operator<", "std::operator>", "std::operator<=", "std::operator>=", "__gnu_cxx::operator<")
def opcmp(I, o, a, e):
    op = e["f"]["q"].rsplit("operator", 1)[1]
    x, y = I.val(a[0]), I.val(a[1])
    if z3.is_expr(x) and z3.is_expr(y) and x.sort() != z3.StringSort(): return I.compare(op, x, y)
    if isinstance(x, Opt) and not isinstance(y, Opt): y = Opt(z3.BoolVal(True), y)
    if isinstance(y, Opt) and not isinstance(x, Opt): x = Opt(z3.BoolVal(True), x)
    if isinstance(x, Opt):
        lt = z3.And(y.has, z3.Or(z3.Not(x.has), less(I, x.val, y.val)))
        gt = z3.And(x.has, z3.Or(z3.Not(y.has), less(I, y.val, x.val)))
    else:
        lt, gt = less(I, x, y), less(I, y, x)
    return {"<": lt, ">": gt, "<=": z3.Not(gt), ">=": z3.Not(lt)}[op]


@h("std::operator==", "std::operator!=", "__gnu_cxx::operator==", "__gnu_cxx::operator!=", "std::filesystem::__cxx11::operator==", "std::filesystem::operator==")
def opeq(I, o, a, e):
    r = equal(I, a[0], a[1])
    return z3.Not(r) if "!=" in e["f"]["q"] else r


@h("std::operator<=>", "__gnu_cxx::operator<=>")
def opss(I, o, a, e):
    lt, gt = less(I, a[0], a[1]), less(I, a[1], a[0])
    return z3.If(lt, lit(-1), z3.If(gt, lit(1), lit(0)))


# ---- optional ---------------------------------------------------------------
@h("new:std::optional")
def new_opt(I, t, f, a, e):
    if not a: return Opt(z3.BoolVal(False), None)
    x = I.val(a[0])
    if isinstance(x, Struct) and x.cls == "nullopt": return Opt(z3.BoolVal(False), None)
    if isinstance(x, Opt):
        if t.a[0].k == "rec" and t.a[0].n == "std::optional" and e is not None:
            st = I.fty(e["c"][0]).strip()
            if st is t: return x
            return Opt(z3.BoolVal(True), x)
        return x
    if isinstance(x, Struct) and x.cls.startswith("std::in_place"): return Opt(z3.BoolVal(True), I.make_value(t.a[0], a[1:], e))
    return Opt(z3.BoolVal(True), I.conv(x, t.a[0]))


def opt_has(I, o): return I.read(o).has


@h("std::optional::has_value", "std::optional::operator bool")
def opt_hv(I, o, a, e): return opt_has(I, o)


@h("std::optional::value", "std::optional::operator*", "std::optional::operator->")
def opt_val(I, o, a, e):
    v = I.read(o)
    if v.val is None:
        I.safe("optional has a value", z3.BoolVal(False))
        raise Dead()
    I.safe("optional has a value", v.has)
    r = I.sub(o, ("o",))
    if e["f"]["q"].endswith("->"): return I.ptr(r)
    return r


@h("std::optional::value_or")
def opt_vor(I, o, a, e):
    v = I.read(o)
    if v.val is None: return I.val(a[0])
    return I.merge(v.has, v.val, I.val(a[0]))


@h("std::optional::reset")
def opt_reset(I, o, a, e):
    I.write(o, Opt(z3.BoolVal(False), I.read(o).val)); return UNIT


@h("std::optional::operator=")
def opt_asg(I, o, a, e):
    x = I.val(a[0])
    if isinstance(x, Struct) and x.cls == "nullopt": x = Opt(z3.BoolVal(False), None)
    elif not isinstance(x, Opt): x = Opt(z3.BoolVal(True), x)
    if x.val is None:
        x = Opt(x.has, I.read(o).val)
    I.write(o, x)
    return o


@h("std::optional::emplace")
def opt_emp(I, o, a, e):
    t = I.fty(e["obj"]).strip()
    I.write(o, Opt(z3.BoolVal(True), I.make_value(t.a[0], a, e)))
    return I.sub(o, ("o",))


LIB["std::make_optional"] = lambda I, o, a, e: Opt(z3.BoolVal(True), I.val(a[0]))


# ---- expected ---------------------------------------------------------------
@h("new:std::expected")
def new_exp(I, t, f, a, e):
    if not a: return Struct("expected", {"has": z3.BoolVal(True), "val": I.default(t.a[0]), "err": I.fresh_val(t.a[1], "err")})
    x = I.val(a[0])
    if isinstance(x, Struct) and x.cls == "unexpected":
        return Struct("expected", {"has": z3.BoolVal(False), "val": I.fresh_val(t.a[0], "noval"), "err": x.f["v"]})
    if isinstance(x, Struct) and x.cls == "expected": return x
    return Struct("expected", {"has": z3.BoolVal(True), "val": I.conv(x, t.a[0]), "err": I.fresh_val(t.a[1], "noerr")})


LIB["new:std::unexpected"] = lambda I, t, f, a, e: Struct("unexpected", {"v": I.val(a[0])})
LIB["std::expected::has_value"] = lambda I, o, a, e: I.read(o).f["has"]
LIB["std::expected::operator bool"] = LIB["std::expected::has_value"]
LIB["std::expected::value"] = lambda I, o, a, e: I.sub(o, ("f", "val"))
LIB["std::expected::error"] = lambda I, o, a, e: I.sub(o, ("f", "err"))


# ---- sequences --------------------------------------------------------------
def seq(I, o):
    v = I.read(o) if isinstance(o, Loc) else o
    return v


@h("std::vector::size", "std::list::size", "std::array::size", "std::deque::size", "std::size", "std::ssize", "std::initializer_list::size")
def size_(I, o, a, e):
    o = o if o is not None else a[0]
    x = seq(I, o)
    if isinstance(x, Tup): return lit(len(x.items))
    if isinstance(x, Map): raise Unsupported("size of a set")
    if isinstance(x, View): return x.n
    return x.n


@h("std::vector::empty", "std::list::empty", "std::ranges::empty", "std::empty")
def empty_(I, o, a, e): return S(size_(I, o, a, e) == 0)


@h("std::vector::operator[]", "std::vector::at", "std::array::operator[]", "std::array::at")
def index_(I, o, a, e):
    i = num(I, a[0])
    if "vector" in e["f"]["q"]:
        n = seq(I, o).n
        I.safe("vector index in bounds", z3.And(i >= 0, i < n))
    return I.sub(o, ("i", i))


@h("std::vector::front", "std::list::front", "std::array::front")
def front_(I, o, a, e):
    x = seq(I, o)
    if not isinstance(x, Tup):
        I.safe("front of a non-empty container", x.n > 0)
        if isinstance(x, CVec) and not x.items: raise Dead()
    return I.sub(o, ("i", lit(0)))


@h("std::vector::back", "std::list::back", "std::array::back")
def back_(I, o, a, e):
    x = seq(I, o)
    if isinstance(x, Tup): return I.sub(o, ("i", lit(len(x.items) - 1)))
    I.safe("back of a non-empty container", x.n > 0)
    if isinstance(x, CVec) and not x.items: raise Dead()
    return I.sub(o, ("i", S(x.n - 1)))


@h("std::vector::push_back", "std::list::push_back", "std::vector::emplace_back", "std::list::emplace_back")
def push_(I, o, a, e):
    x = seq(I, o)
    if "emplace" in e["f"]["q"]: el = I.make_value(x.ety, a, e)
    else: el = I.conv(I.val(a[0]), x.ety)
    push_val(I, o, x, el)
    return I.sub(o, ("i", S(x.n)))


def push_val(I, o, x, el):
    if isinstance(x, CVec): nv = CVec(x.items + [el], x.ety)
    else:
        nv = I.vec_set(x, x.n, el)
        nv = Vec(S(x.n + 1), nv.ety, nv.arr)
    I.write(o, nv)


@h("std::vector::pop_back", "std::list::pop_back")
def pop_(I, o, a, e):
    x = seq(I, o)
    I.safe("pop of a non-empty container", x.n > 0)
    I.write(o, CVec(x.items[:-1], x.ety) if isinstance(x, CVec) else Vec(S(x.n - 1), x.ety, x.arr))
    return UNIT


@h("std::vector::clear", "std::list::clear")
def clear_(I, o, a, e):
    I.write(o, CVec([], seq(I, o).ety)); return UNIT


@h("std::vector::shrink_to_fit", "std::vector::reserve")
def nop_(I, o, a, e): return UNIT


@h("std::vector::operator=", "std::list::operator=", "std::array::operator=", "std::unique_ptr::operator=", "std::shared_ptr::operator=", "std::map::operator=",
   "std::set::operator=", "std::basic_string::operator=", "std::filesystem::path::operator=", "std::function::operator=", "std::weak_ptr::operator=",
   "std::pair::operator=", "std::tuple::operator=")
def asg_(I, o, a, e):
    x = I.val(a[0])
    old = I.read(o)
    if isinstance(x, CVec) and x.ety is None and isinstance(old, (CVec, Vec)): x = CVec(x.items, old.ety)
    I.write(o, x)
    return o


@h("new:std::vector", "new:std::list", "new:std::initializer_list", "new:std::deque")
def new_vec(I, t, f, a, e):
    ety = t.a[0]
    a = [x for x in a if not (isinstance(x, type(UNIT)) or I.val(x) is UNIT)]
    if not a: return CVec([], ety)
    x = I.val(a[0])
    if isinstance(x, (CVec, Vec)):
        if isinstance(x, CVec): return CVec([I.conv(y, ety) for y in x.items], ety)
        return Vec(x.n, ety, x.arr)
    if isinstance(x, Iter):
        y = I.val(a[1])
        return slice_(I, x, y, ety)
    if z3.is_expr(x) and x.sort() == z3.IntSort():
        el = I.val(a[1]) if len(a) > 1 else None
        n = S(x)
        if z3.is_int_value(n) and n.as_long() <= 64:
            return CVec([el if el is not None else I.zero(ety) for _ in range(n.as_long())], ety)
        leaves = I.flat(el if el is not None else I.zero(ety), ety)
        return Vec(x, ety, [z3.K(z3.IntSort(), l) for l in leaves])
    raise Unsupported("vector constructor")


def view_as_vec(I, n, get, ety):
    n = S(n)
    if z3.is_int_value(n):
        return CVec([I.val(get(lit(i))) for i in range(n.as_long())], ety)
    k = z3.Int("lam!")
    try:
        leaves = I.flat(I.val(get(k)), ety)
    except Unsupported:
        raise
    return Vec(n, ety, [z3.Lambda([k], l) for l in leaves])


def slice_(I, x, y, ety):
    n = S(y.i - x.i)
    c = x.loc
    return view_as_vec(I, n, lambda k: deref_iter(I, Iter(c, S(x.i + k), x.rev)), ety)


# ---- iterators --------------------------------------------------------------
def deref_iter(I, it):
    c = it.loc
    v = None
    if isinstance(c, (CellLoc, ValLoc)): v = I.read(c)
    if isinstance(v, View): return v.get(it.i)
    if it.rev:
        n = size_(I, c, [], None)
        return I.sub(c, ("i", S(n - 1 - it.i)))
    return I.sub(c, ("i", it.i))


@h("std::vector::begin", "std::list::begin", "std::begin", "std::vector::cbegin", "std::array::begin", "std::ranges::begin", "std::cbegin", "std::initializer_list::begin")
def begin_(I, o, a, e): return Iter(o if o is not None else I.loc(a[0]), lit(0))


@h("std::vector::end", "std::list::end", "std::end", "std::vector::cend", "std::array::end", "std::ranges::end", "std::cend", "std::initializer_list::end")
def end_(I, o, a, e):
    o = o if o is not None else I.loc(a[0])
    if isinstance(seq(I, o), Map): return Struct("fnobj:mapend", {})
    return Iter(o, S(size_(I, o, [], e)))


@h("std::vector::rbegin", "std::list::rbegin", "std::rbegin")
def rbegin_(I, o, a, e): return Iter(o if o is not None else I.loc(a[0]), lit(0), True)


@h("std::vector::rend", "std::list::rend", "std::rend")
def rend_(I, o, a, e):
    o = o if o is not None else I.loc(a[0])
    return Iter(o, S(size_(I, o, [], e)), True)


@h("__gnu_cxx::__normal_iterator::operator*", "std::_List_iterator::operator*", "std::_List_const_iterator::operator*", "std::reverse_iterator::operator*",
   "std::reverse_iterator::operator->", "__gnu_cxx::__normal_iterator::operator->", "std::_List_iterator::operator->", "std::basic_const_iterator::operator*")
def it_deref(I, o, a, e):
    it = I.read(o) if o is not None else I.val(a[0])
    if not isinstance(it, Iter): raise Unsupported("iterator")
    r = deref_iter(I, it)
    if e["f"]["q"].endswith("->"): return I.ptr(r)
    return r


def it_step(d):
    def f(I, o, a, e):
        it = I.read(o)
        ni = Iter(it.loc, S(it.i + d), it.rev)
        I.write(o, ni)
        return it if a else o        # postfix has a dummy argument
    return f


for c in ("__gnu_cxx::__normal_iterator", "std::_List_iterator", "std::_List_const_iterator", "std::reverse_iterator"):
    LIB[c + "::operator++"] = it_step(1)
    LIB[c + "::operator--"] = it_step(-1)
    LIB[c + "::operator+"] = lambda I, o, a, e: I.iter_add(I.read(o), num(I, a[0]))
    LIB[c + "::operator-"] = lambda I, o, a, e: I.iter_add(I.read(o), -num(I, a[0]))
    LIB["new:" + c] = lambda I, t, f, a, e: new_iter(I, t, a)


def new_iter(I, t, a):
    x = I.val(a[0])
    if t.n == "std::reverse_iterator" and not x.rev:
        n = size_(I, x.loc, [], None)
        return Iter(x.loc, S(n - x.i), True)
    return x


LIB["new:std::reverse_iterator"] = lambda I, t, f, a, e: new_iter(I, t, a)
LIB["std::make_reverse_iterator"] = lambda I, o, a, e: Iter(I.val(a[0]).loc, S(size_(I, I.val(a[0]).loc, [], None) - I.val(a[0]).i), True)


@h("std::reverse_iterator::base")
def it_base(I, o, a, e):
    it = I.read(o)
    return Iter(it.loc, S(size_(I, it.loc, [], None) - it.i))


@h("std::next", "std::ranges::__next_fn::operator()")
def next_(I, o, a, e): return I.iter_add(I.val(a[0]), num(I, a[1]) if len(a) > 1 else lit(1))


@h("std::prev", "std::ranges::__prev_fn::operator()")
def prev_(I, o, a, e): return I.iter_add(I.val(a[0]), -(num(I, a[1]) if len(a) > 1 else lit(1)))


@h("std::ranges::__advance_fn::operator()", "std::advance")
def adv_(I, o, a, e):
    it = I.val(a[0])
    b = I.val(a[1])
    if isinstance(b, Iter): I.write(a[0], b); return UNIT
    n = num(I, b)
    if len(a) > 2:
        end = I.val(a[2])
        ni = S(it.i + n)
        ni = S(z3.If(n >= 0, z3.If(ni > end.i, end.i, ni), z3.If(ni < end.i, end.i, ni)))
        I.write(a[0], Iter(it.loc, ni, it.rev))
        return UNIT
    I.write(a[0], I.iter_add(it, n))
    return UNIT


@h("std::distance", "std::ranges::__distance_fn::operator()", "__gnu_cxx::operator-", "std::operator-")
def dist_(I, o, a, e):
    x = I.val(a[0])
    y = I.val(a[1])
    if e["f"]["q"].endswith("operator-"): x, y = y, x
    return S(y.i - x.i)


@h("std::vector::erase", "std::list::erase")
def erase_(I, o, a, e):
    x = seq(I, o)
    it = I.val(a[0])
    i = S(it.i)
    j = S(I.val(a[1]).i) if len(a) > 1 else S(i + 1)
    if isinstance(x, CVec) and z3.is_int_value(i) and z3.is_int_value(j):
        I.write(o, CVec(x.items[:i.as_long()] + x.items[j.as_long():], x.ety))
    else:
        x = I.tovec(x)
        k = z3.Int("lam!")
        d = S(j - i)
        I.write(o, Vec(S(x.n - d), x.ety, [z3.Lambda([k], z3.If(k < i, z3.Select(r, k), z3.Select(r, k + d))) for r in x.arr]))
    return Iter(o, i)


@h("std::vector::insert", "std::list::insert")
def insert_(I, o, a, e):
    x = seq(I, o)
    it = I.val(a[0]); i = S(it.i)
    if len(a) == 2:
        src = CVec([I.conv(I.val(a[1]), x.ety)], x.ety)
        if isinstance(I.val(a[1]), (CVec, Vec)) and not (x.ety.k == "rec" and x.ety.n in VECS): src = I.val(a[1])
    else:
        src = slice_(I, I.val(a[1]), I.val(a[2]), x.ety)
    if isinstance(x, CVec) and isinstance(src, CVec) and z3.is_int_value(i):
        I.write(o, CVec(x.items[:i.as_long()] + src.items + x.items[i.as_long():], x.ety))
    else:
        x, src = I.tovec(x), I.tovec(src)
        k = z3.Int("lam!")
        I.write(o, Vec(S(x.n + src.n), x.ety, [z3.Lambda([k], z3.If(k < i, z3.Select(r, k), z3.If(k < i + src.n, z3.Select(q, k - i), z3.Select(r, k - src.n))))
                                               for r, q in zip(x.arr, src.arr)]))
    return Iter(o, i)


# ---- algorithms -------------------------------------------------------------
def strip_fnobj(I, a):
    out = []
    for x in a:
        if isinstance(x, ObjLoc):
            out.append(x); continue
        v = I.val(x)
        if isinstance(v, Struct) and v.cls.startswith("fnobj"): continue
        out.append(x)
    return out


def rng(I, a):
    """(n, get, rest args) of a range argument or an iterator pair"""
    a = strip_fnobj(I, a)
    x = I.val(a[0]) if not isinstance(a[0], ObjLoc) else a[0]
    if isinstance(x, Iter):
        y = I.val(a[1])
        return S(y.i - x.i), (lambda k: deref_iter(I, Iter(x.loc, S(x.i + k), x.rev))), a[2:], x
    n, get = I.seq_of(a[0])
    base = a[0] if isinstance(a[0], Loc) else ValLoc(a[0])
    return S(n), get, a[1:], Iter(base, lit(0))


def pred_at(I, p, el, proj=None):
    if proj is not None: el = I.call_value(I.val(proj), [el])
    return I.call_value(I.val(p), [el])


def quant(I, n, get, p, kind):
    n = S(n)
    if z3.is_int_value(n):
        fs = [pure(I, lambda i=i: pred_at(I, p, get(lit(i)))) for i in range(n.as_long())]
        if kind == "all": return And(*fs)
        r = z3.Or(*fs) if fs else z3.BoolVal(False)
        return r if kind == "any" else z3.Not(r)
    k = I.fresh("k", z3.IntSort())
    ctr0 = len(I.st.facts)
    f = pure(I, lambda: pred_at(I, p, get(k)))
    new = I.st.facts[ctr0:]
    del I.st.facts[ctr0:]
    for x in new: I.st.facts.append(z3.ForAll([k], x) if mentions(x, k) else x)
    g = z3.And(0 <= k, k < n)
    if kind == "all": return z3.ForAll([k], z3.Implies(g, f))
    if kind == "none": return z3.ForAll([k], z3.Implies(g, z3.Not(f)))
    return z3.Exists([k], z3.And(g, f))


def mentions(f, k):
    seen = set(); st = [f]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.eq(k): return True
        if z3.is_quantifier(x): st.append(x.body())
        else: st.extend(x.children())
    return False


def quant_h(kind):
    def f(I, o, a, e):
        n, get, rest, _ = rng(I, a)
        return quant(I, n, get, rest[0], kind)
    return f


for nm, kd in (("none_of", "none"), ("all_of", "all"), ("any_of", "any")):
    LIB[f"std::ranges::__{nm}_fn::operator()"] = quant_h(kd)
    LIB["std::" + nm] = quant_h(kd)


def find_index(I, n, get, predf):
    """smallest index in [0,n) whose element satisfies predf(loc), or n"""
    n = S(n)
    if z3.is_int_value(n):
        r = n
        for i in range(n.as_long() - 1, -1, -1):
            r = z3.If(pure(I, lambda i=i: predf(get(lit(i)))), lit(i), r)
        return S(r)
    k = I.fresh("k", z3.IntSort())
    f = pure(I, lambda: predf(get(k)))
    j = I.fresh("found", z3.IntSort())
    I.assume(z3.And(j >= 0, j <= n))
    I.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < j), z3.Not(f))))
    I.assume(z3.Implies(j < n, z3.substitute(f, (k, j))))
    return j


@h("std::ranges::__find_if_fn::operator()", "std::find_if")
def find_if_(I, o, a, e):
    n, get, rest, it = rng(I, a)
    j = find_index(I, n, get, lambda el: pred_at(I, rest[0], el))
    return Iter(it.loc, S(it.i + j), it.rev)


@h("std::ranges::__find_fn::operator()", "std::find")
def find_(I, o, a, e):
    n, get, rest, it = rng(I, a)
    j = find_index(I, n, get, lambda el: equal(I, el, rest[0]))
    return Iter(it.loc, S(it.i + j), it.rev)


@h("std::for_each", "std::ranges::__for_each_fn::operator()")
def for_each_(I, o, a, e):
    a = [x for x in a if not (isinstance(I.val(x), Struct) and I.val(x).cls.startswith("fnobj"))]
    n, get, rest, _ = rng(I, a)
    fn = I.val(rest[0])
    kc = I.new_cell(lit(0), I.prog.tys.get("unsigned long"))
    I.st.ghost[("k", kc.id)] = True
    I.loop(lambda: I.read(kc) < n, lambda: (I.call_value(fn, [get(I.read(kc))]), None)[1],
           lambda: I.write(kc, S(I.read(kc) + 1)), {"l": 0}, seq=(None, n, get), ghost=kc)
    return UNIT


@h("std::ranges::__sort_fn::operator()", "std::sort", "std::ranges::__stable_sort_fn::operator()", "std::stable_sort")
def sort_(I, o, a, e):
    a = strip_fnobj(I, a)
    x0 = I.val(a[0])
    if isinstance(x0, Iter): c, rest = x0.loc, a[2:]
    else: c, rest = a[0], a[1:]
    if not isinstance(c, Loc): raise Unsupported("sort of a temporary")
    x = I.read(c)
    if isinstance(x, View): raise Unsupported("sort of a view")
    stable = "stable" in e["f"]["q"]
    if rest and not (isinstance(I.val(rest[0]), Struct)):
        lt = lambda p, q: I.call_value(I.val(rest[0]), [I.loc(p, None), I.loc(q, None)])
    else:
        lt = lambda p, q: less(I, p, q)
    if isinstance(x, CVec):
        it = list(x.items)
        # insertion network; order of equivalent elements unspecified
        for i in range(1, len(it)):
            for j in range(i, 0, -1):
                p, q = it[j - 1], it[j]
                gt = pure(I, lambda: lt(q, p))
                if stable: sw = gt
                else:
                    ls = pure(I, lambda: lt(p, q))
                    sw = S(z3.Or(gt, z3.And(z3.Not(ls), I.fresh("tie", z3.BoolSort()))))
                it[j - 1], it[j] = I.merge(sw, q, p), I.merge(sw, p, q)
        I.write(c, CVec(it, x.ety))
        return Iter(c, lit(len(it)))
    # symbolic length: a permutation that is sorted
    n = x.n
    ks = I.fresh("ks", z3.IntSort())
    nb = len(I.st.facts)
    self_lt = pure(I, lambda: lt(I.vec_get(x, ks), I.vec_get(x, ks)))
    del I.st.facts[nb:]
    I.oblige("a sort never orders an element before itself", z3.Implies(z3.And(ks >= 0, ks < n), z3.Not(self_lt)))
    f = z3.Function(f"perm!{I.st.ctr}", z3.IntSort(), z3.IntSort()); g = z3.Function(f"iperm!{I.st.ctr}", z3.IntSort(), z3.IntSort())
    I.st.ctr += 1
    i, j = z3.Int("si!"), z3.Int("sj!")
    I.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= f(i), f(i) < n, g(f(i)) == i)), patterns=[f(i)]))
    I.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= g(i), g(i) < n, f(g(i)) == i)), patterns=[g(i)]))
    new = [I.fresh("sorted", r.sort()) for r in x.arr]
    for r, s in zip(new, x.arr):
        I.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.Select(r, i) == z3.Select(s, f(i))), patterns=[z3.Select(r, i)]))
        I.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.Select(s, i) == z3.Select(r, g(i))), patterns=[z3.Select(s, i)]))
    nv = Vec(n, x.ety, new)
    ki, kj = I.fresh("ki", z3.IntSort()), I.fresh("kj", z3.IntSort())
    nb = len(I.st.facts)
    fo = pure(I, lambda: lt(I.vec_get(nv, kj), I.vec_get(nv, ki)))
    extra = I.st.facts[nb:]; del I.st.facts[nb:]
    for q in extra:
        I.assume(z3.ForAll([ki, kj], q))
    I.assume(z3.ForAll([ki, kj], z3.Implies(z3.And(0 <= ki, ki < kj, kj < n), z3.Not(fo)), patterns=[z3.MultiPattern(z3.Select(new[0], ki), z3.Select(new[0], kj))]))
    I.__dict__.setdefault("sortlog", []).append((n, f, g, x.arr, new))
    I.write(c, nv)
    return Iter(c, n)


def filtered(I, n, get, keep, ety):
    """subsequence of the elements satisfying keep, in order"""
    n = S(n)
    if z3.is_int_value(n):
        cur = CVec([], ety)
        conds = []
        for i in range(n.as_long()):
            el = I.val(get(lit(i)))
            c = pure(I, lambda: keep(get(lit(i))))
            if is_true(c):
                if isinstance(cur, CVec): cur = CVec(cur.items + [el], ety)
                else:
                    w = I.vec_set(cur, cur.n, el); cur = Vec(S(cur.n + 1), ety, w.arr)
                continue
            if is_false(c): continue
            w = I.tovec(cur)
            w2 = I.vec_set(w, w.n, el)
            cur = Vec(S(z3.If(c, w.n + 1, w.n)), ety, [z3.If(c, q, r) for q, r in zip(w2.arr, w.arr)])
        return cur
    k = I.fresh("k", z3.IntSort())
    nb = len(I.st.facts)
    p = pure(I, lambda: keep(get(k)))
    extra = I.st.facts[nb:]; del I.st.facts[nb:]
    for q in extra: I.assume(z3.ForAll([k], q) if mentions(q, k) else q)
    P = lambda t: z3.substitute(p, (k, t))
    m = I.fresh("kept", z3.IntSort())
    I.st.ctr += 1
    f = z3.Function(f"sub!{I.st.ctr}", z3.IntSort(), z3.IntSort()); g = z3.Function(f"isub!{I.st.ctr}", z3.IntSort(), z3.IntSort())
    i, j = z3.Int("si!"), z3.Int("sj!")
    I.assume(z3.And(m >= 0, m <= n))
    new = [I.fresh("filt", z3.ArraySort(z3.IntSort(), s)) for s in I.sorts(ety)]
    elt = lambda x: [x.ref] if isinstance(x, ObjLoc) and ety is not None and ety.k == "rec" and ety.n in BYREF else I.flat(I.val(x), ety)
    src = elt(get(f(i)))
    I.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), z3.And(0 <= f(i), f(i) < n, P(f(i)), g(f(i)) == i, *[z3.Select(r, i) == s for r, s in zip(new, src)])), patterns=[z3.Select(new[0], i)] if new else []))
    I.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < m), f(i) < f(j)), patterns=[z3.MultiPattern(f(i), f(j))]))
    srcj = elt(get(j))
    I.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n, P(j)), z3.And(0 <= g(j), g(j) < m, f(g(j)) == j, *[z3.Select(r, g(j)) == s for r, s in zip(new, srcj)])), patterns=[g(j)] + ([srcj[0]] if srcj and z3.is_app_of(srcj[0], z3.Z3_OP_SELECT) and mentions(srcj[0], j) else [])))
    I.__dict__.setdefault("filters", []).append((n, get, P, m, f, g, new))
    return Vec(m, ety, new)


@h("std::erase_if")
def erase_if_(I, o, a, e):
    c = a[0]
    x = I.read(c)
    if isinstance(x, Map): return map_erase_if(I, c, x, a[1])
    old = I.new_cell(x)
    I.write(c, filtered(I, x.n, lambda k: I.sub(old, ("i", k)), lambda el: z3.Not(I.boolean(I.val(pred_at(I, a[1], el)))), x.ety))
    return S(x.n - I.read(c).n)


def map_erase_if(I, c, x, p):
    ks = I.sorts(x.kty)[0]
    k = I.fresh("key", ks)
    item = Tup([k, I.build(x.vty, iter([z3.Select(r, k) for r in x.arr]))]) if x.vty is not None else k
    f = pure(I, lambda: pred_at(I, p, I.new_cell(item)))
    nh = I.fresh("has", x.has.sort())
    I.assume(z3.ForAll([k], z3.Select(nh, k) == z3.And(z3.Select(x.has, k), z3.Not(f)), patterns=[z3.Select(nh, k)]))
    I.write(c, Map(nh, x.kty, x.vty, x.arr))
    return I.fresh("erased", z3.IntSort())


@h("std::erase")
def erase_val(I, o, a, e):
    c = a[0]; x = I.read(c); t = I.val(a[1])
    old = I.new_cell(x)
    I.write(c, filtered(I, x.n, lambda k: I.sub(old, ("i", k)), lambda el: z3.Not(equal(I, el, t)), x.ety))
    return S(x.n - I.read(c).n)


@h("std::back_inserter")
def back_ins(I, o, a, e): return Struct("back_inserter", {"loc": a[0]})


@h("std::inserter")
def inserter_(I, o, a, e): return Struct("inserter", {"loc": a[0], "it": I.val(a[1])})


@h("std::ranges::__move_fn::operator()", "std::ranges::__copy_fn::operator()")
def rmove(I, o, a, e):
    n, get, rest, _ = rng(I, a)
    dst = I.val(rest[0])
    if not (isinstance(dst, Struct) and dst.cls == "back_inserter"): raise Unsupported("move to iterator")
    c = dst.f["loc"]
    x = I.read(c)
    append(I, c, x, view_as_vec(I, n, get, x.ety))
    return UNIT


def append(I, c, x, y):
    if isinstance(y, CVec) and len(y.items) == 0: return
    if isinstance(x, CVec) and isinstance(y, CVec):
        I.write(c, CVec(x.items + y.items, x.ety)); return
    if isinstance(x, CVec) and not x.items:
        I.write(c, Vec(y.n, x.ety, y.arr)); return
    x, y = I.tovec(x), I.tovec(y)
    if I.real or getattr(I, "quant", False):
        k = z3.Int("k!app")
        new = [I.fresh("app", r.sort()) for r in x.arr]
        for nw, r, q in zip(new, x.arr, y.arr):
            I.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < x.n), z3.Select(nw, k) == z3.Select(r, k)), patterns=pats(z3.Select(r, k)) + [z3.Select(nw, k)]))
            I.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < y.n), z3.Select(nw, x.n + k) == z3.Select(q, k)), patterns=pats(z3.Select(q, k))))
            I.assume(z3.ForAll([k], z3.Implies(z3.And(k >= x.n, k < x.n + y.n), z3.Select(nw, k) == z3.Select(q, k - x.n)), patterns=[z3.Select(nw, k)]))
        I.write(c, Vec(S(x.n + y.n), x.ety, new)); return
    k = z3.Int("lam!")
    I.write(c, Vec(S(x.n + y.n), x.ety, [z3.Lambda([k], z3.If(k < x.n, z3.Select(r, k), z3.Select(q, k - x.n))) for r, q in zip(x.arr, y.arr)]))


@h("std::ranges::__copy_if_fn::operator()")
def rcopyif(I, o, a, e):
    n, get, rest, _ = rng(I, a)
    dst = I.val(rest[0])
    if not isinstance(dst, Struct): raise Unsupported("copy_if to iterator")
    c = dst.f["loc"]
    x = I.read(c)
    if isinstance(x, Map):
        j = I.fresh("j", z3.IntSort()); k = z3.Const("k!cif", x.has.sort().domain())
        n = S(n)
        el = I.num(I.val(get(j)))
        nb = len(I.st.facts)
        keep = pure(I, lambda: pred_at(I, rest[1], get(j)))
        extra = I.st.facts[nb:]; del I.st.facts[nb:]
        for q in extra: I.assume(z3.ForAll([j], q) if mentions(q, j) else q)
        nh = I.fresh("has", x.has.sort())
        I.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n, keep), z3.Select(nh, el)), patterns=pats(el)))
        I.assume(z3.ForAll([k], z3.Implies(z3.Select(x.has, k), z3.Select(nh, k)), patterns=[z3.Select(nh, k)] + pats(z3.Select(x.has, k))))
        I.assume(z3.ForAll([k], z3.Implies(z3.And(z3.Select(nh, k), z3.Not(z3.Select(x.has, k))), z3.Exists([j], z3.And(j >= 0, j < n, keep, el == k))), patterns=[z3.Select(nh, k)]))
        I.write(c, Map(nh, x.kty, x.vty, x.arr))
        return UNIT
    append(I, c, x, filtered(I, n, get, lambda el: pred_at(I, rest[1], el), x.ety))
    return UNIT


@h("std::ranges::__max_fn::operator()", "std::ranges::__min_fn::operator()")
def rminmax(I, o, a, e):
    mx = "max" in e["f"]["q"]
    x0 = I.val(a[0])
    if z3.is_expr(x0): return minmax(I, o, a, {"f": {"q": "std::max" if mx else "std::min"}})
    n, get, rest, _ = rng(I, a)
    if not z3.is_int_value(S(n)): raise Unsupported("ranges::min of a symbolic range")
    lt = (lambda p, q: I.boolean(I.val(I.call_value(I.val(rest[0]), [I.loc(p), I.loc(q)])))) if rest and isinstance(I.val(rest[0]), (Clo, PyFn)) else (lambda p, q: less(I, p, q))
    if n.as_long() == 0:
        I.safe("minimum of a non-empty range", z3.BoolVal(False)); raise Dead()
    r = I.val(get(lit(0)))
    for i in range(1, n.as_long()):
        y = I.val(get(lit(i)))
        c = pure(I, lambda: lt(r, y) if mx else lt(y, r))
        r = I.merge(c, y, r)
    return r


# ---- views ------------------------------------------------------------------
@h("new:std::ranges::ref_view", "new:std::ranges::owning_view")
def new_ref_view(I, t, f, a, e):
    n, get = I.seq_of(a[0]); return View(n, get)


@h("new:std::ranges::reverse_view")
def new_rev_view(I, t, f, a, e):
    n, get = I.seq_of(a[0]); return View(n, lambda k: get(S(n - 1 - k)))


@h("raw:std::ranges::views::__adaptor::operator|")
def pipe(I, e):
    l = I.ev(e["c"][0]); r = I.val(I.ev(e["c"][1]))
    return apply_view(I, l, r)


def apply_view(I, l, r):
    if isinstance(r, Struct) and r.cls.startswith("fnobj:"):
        nm = r.cls.rsplit("::", 1)[-1]
        n, get = I.seq_of(l)
        if nm == "reverse": return View(n, lambda k: get(S(n - 1 - k)))
        if nm in ("all", "common"): return View(n, get)
        raise Unsupported("view " + nm)
    if isinstance(r, Struct) and r.cls == "adaptor":
        n, get = I.seq_of(l)
        nm = r.f["name"]; a = r.f["args"]
        if nm == "drop":
            d = num(I, a[0])
            return View(S(z3.If(n >= d, n - d, 0)), lambda k: get(S(k + d)))
        if nm == "take":
            d = num(I, a[0])
            return View(S(z3.If(n >= d, d, n)), get)
        if nm == "transform":
            fn = I.val(a[0])
            return View(n, lambda k: I.call_value(fn, [get(k)]))
        if nm == "filter":
            ety = None
            el = I.val(get(lit(0))) if not (z3.is_int_value(S(n)) and S(n).as_long() == 0) else None
            ety = r.f.get("ety") or elem_ty(I, el, l)
            w = filtered(I, n, get, lambda x: pred_at(I, a[0], x), ety)
            c = I.new_cell(w)
            return View(w.n, lambda k: I.sub(c, ("i", k)))
        raise Unsupported("view " + nm)
    raise Unsupported("view adaptor")


def elem_ty(I, el, l):
    v = I.read(l) if isinstance(l, Loc) else l
    if isinstance(v, (Vec, CVec)): return v.ety
    raise Unsupported("element type of a view")


@h("std::ranges::views::__adaptor::_RangeAdaptor::operator()")
def range_adaptor(I, o, a, e):
    v = I.read(o)
    nm = v.cls.rsplit("::", 1)[-1]
    x = I.val(a[0])
    if isinstance(x, (Vec, CVec, View)) and len(a) > 1: return apply_view(I, a[0], Struct("adaptor", {"name": nm, "args": a[1:]}))
    return Struct("adaptor", {"name": nm, "args": a})


@h("std::ranges::views::_Zip::operator()")
def zip_(I, o, a, e):
    ss = [I.seq_of(x) for x in a]
    n = ss[0][0]
    for m, _ in ss[1:]: n = z3.If(m < n, m, n)
    return View(S(n), lambda k: Tup([g(k) for _, g in ss]))


# ---- pair / tuple -----------------------------------------------------------
@h("new:std::pair", "new:std::tuple")
def new_tup(I, t, f, a, e):
    if len(a) == 1 and isinstance(I.val(a[0]), Tup) and len(t.a) != 1: return I.val(a[0])
    if not a: return Tup([I.zero(x) for x in t.a])
    return Tup([(x if (ty.k == "r" and isinstance(x, Loc)) else I.conv(I.val(x), ty)) for x, ty in zip(a, t.a)])


LIB["std::make_pair"] = lambda I, o, a, e: Tup([I.val(x) for x in a])
LIB["std::make_tuple"] = LIB["std::make_pair"]
LIB["std::tie"] = lambda I, o, a, e: Tup(list(a))


@h("std::get")
def get_(I, o, a, e):
    ta = e["f"].get("ta") or []
    k = None
    if ta:
        if isinstance(ta[0], dict) and "i" in ta[0]: k = ta[0]["i"]
        else:
            want = I.tyi(ta[0])
            t = I.fty(e["c"][0]).strip()
            for i, x in enumerate(t.a):
                if x is want or x.s == want.s: k = i
    if k is None: raise Unsupported("std::get")
    l = I.loc(a[0])
    v = I.read(l)
    if isinstance(v, Tup) and isinstance(v.items[k], Loc): return v.items[k]
    return I.sub(l, ("t", k))


@h("new:std::array")
def new_arr(I, t, f, a, e): return I.val(a[0]) if a else I.default(t)


# ---- pointers ---------------------------------------------------------------
@h("std::__shared_ptr::get", "std::unique_ptr::get", "std::shared_ptr::get")
def ptr_get(I, o, a, e): return I.read(o)


@h("std::__shared_ptr::operator bool", "std::unique_ptr::operator bool")
def ptr_bool(I, o, a, e):
    x = I.read(o)
    return x != 0 if z3.is_expr(x) else z3.BoolVal(True)


@h("std::__shared_ptr_access::operator*", "std::unique_ptr::operator*")
def ptr_star(I, o, a, e):
    t = I.fty(e).strip()
    return I.deref(I.read(o), t)


@h("std::__shared_ptr_access::operator->", "std::unique_ptr::operator->")
def ptr_arrow(I, o, a, e): return I.read(o)


@h("new:std::shared_ptr", "new:std::unique_ptr", "new:std::weak_ptr")
def new_ptr(I, t, f, a, e):
    if not a: return lit(0)
    x = I.val(a[0])
    return x


LIB["std::weak_ptr::lock"] = lambda I, o, a, e: I.read(o)
LIB["std::unique_ptr::release"] = lambda I, o, a, e: I.read(o)


@h("std::unique_ptr::reset", "std::shared_ptr::reset")
def ptr_reset(I, o, a, e):
    I.write(o, I.val(a[0]) if a else lit(0)); return UNIT


@h("std::make_shared", "std::make_unique")
def make_ptr(I, o, a, e):
    t = I.fty(e)
    return I.alloc_obj(t.a[0], a, e)


# ---- map / set --------------------------------------------------------------
@h("new:std::map", "new:std::set")
def new_map(I, t, f, a, e):
    d = I.default(t)
    if not a: return d
    x = I.val(a[0])
    if isinstance(x, CVec):
        for it in x.items: d = map_put(I, d, it)
        return d
    if isinstance(x, Map): return x
    if x is UNIT: return d
    raise Unsupported("map constructor")


def map_put(I, m, it, over=False):
    if m.vty is None:
        return Map(z3.Store(m.has, I.num(it), z3.BoolVal(True)), m.kty, None, [])
    k = it.items[0]
    leaves = I.flat(I.conv(I.val(it.items[1]), m.vty), m.vty)
    has = z3.Select(m.has, k)
    arr = []
    for r, l in zip(m.arr, leaves):
        arr.append(z3.Store(r, k, l if over else z3.If(has, z3.Select(r, k), l)))
    return Map(z3.Store(m.has, k, z3.BoolVal(True)), m.kty, m.vty, arr)


@h("std::map::contains", "std::set::contains")
def map_contains(I, o, a, e): return I.sel(I.read(o).has, I.val(a[0]))


@h("std::map::at")
def map_at(I, o, a, e):
    m = I.read(o)
    k = I.val(a[0])
    I.safe("map key present", I.sel(m.has, k))
    return I.sub(o, ("m", k))


@h("std::map::emplace", "std::set::emplace", "std::set::insert", "std::map::insert", "std::map::try_emplace", "std::map::insert_or_assign")
def map_emplace(I, o, a, e):
    m = I.read(o)
    if m.vty is None:
        if len(a) == 2: return set_insert_range(I, o, m, a)
        k = I.val(a[0])
        it = k
    elif len(a) == 2:
        k = I.val(a[0]); it = Tup([k, I.val(a[1])])
    else:
        it = I.val(a[0]); k = it.items[0]
    had = z3.Select(m.has, k)
    I.write(o, map_put(I, m, it, "assign" in e["f"]["q"]))
    return Tup([UNIT, z3.Not(had)])


def set_insert_range(I, o, m, a):
    x, y = I.val(a[0]), I.val(a[1])
    if not isinstance(x, Iter): raise Unsupported("set insert with hint")
    kt = m.kty
    src = I.tovec(slice_(I, x, y, kt))
    nh = I.fresh("has", m.has.sort())
    j = z3.Int("j!ins"); k = z3.Const("k!ins", m.has.sort().domain())
    el = z3.Select(src.arr[0], j)
    I.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < src.n), z3.Select(nh, el)), patterns=pats(el)))
    I.assume(z3.ForAll([k], z3.Implies(z3.Select(m.has, k), z3.Select(nh, k)), patterns=[z3.Select(nh, k)] + pats(z3.Select(m.has, k))))
    I.assume(z3.ForAll([k], z3.Implies(z3.And(z3.Select(nh, k), z3.Not(z3.Select(m.has, k))), z3.Exists([j], z3.And(j >= 0, j < src.n, el == k))), patterns=[z3.Select(nh, k)]))
    I.write(o, Map(nh, m.kty, None, []))
    return UNIT


def pats(x):
    """x as a pattern, when it can be one"""
    while z3.is_app_of(x, z3.Z3_OP_SELECT) and z3.is_app_of(x.arg(0), z3.Z3_OP_SELECT): break
    return [x] if z3.is_app_of(x, z3.Z3_OP_SELECT) and z3.is_const(x.arg(0)) else []


@h("std::map::erase", "std::set::erase")
def map_erase(I, o, a, e):
    m = I.read(o); k = I.val(a[0])
    if not z3.is_expr(k): raise Unsupported("map erase by iterator")
    had = z3.Select(m.has, k)
    I.write(o, Map(z3.Store(m.has, k, z3.BoolVal(False)), m.kty, m.vty, m.arr))
    return z3.If(had, lit(1), lit(0))


@h("std::map::clear", "std::set::clear")
def map_clear(I, o, a, e):
    m = I.read(o)
    I.write(o, Map(z3.K(m.has.sort().domain(), z3.BoolVal(False)), m.kty, m.vty, m.arr)); return UNIT


@h("std::map::empty", "std::set::empty")
def map_empty(I, o, a, e):
    m = I.read(o)
    return m.has == z3.K(m.has.sort().domain(), z3.BoolVal(False))


@h("std::map::operator[]")
def map_index(I, o, a, e):
    m = I.read(o); k = I.val(a[0])
    z = I.zero(m.vty)
    I.write(o, map_put(I, m, Tup([k, z])))
    return I.sub(o, ("m", k))


# ---- functions --------------------------------------------------------------
@h("new:std::function", "new:std::move_only_function")
def new_fun(I, t, f, a, e): return I.val(a[0]) if a else lit(0)


@h("std::function::operator()")
def call_fun(I, o, a, e): return I.call_value(I.read(o), a, e)


LIB["std::function::operator bool"] = lambda I, o, a, e: z3.BoolVal(True) if not z3.is_expr(I.read(o)) else I.read(o) != 0


# ---- strings ----------------------------------------------------------------
@h("new:std::basic_string", "new:std::filesystem::path", "new:std::filesystem::__cxx11::path", "new:std::basic_string_view")
def new_str(I, t, f, a, e):
    if not a: return z3.StringVal("")
    x = I.val(a[0])
    if z3.is_expr(x) and x.sort() == z3.StringSort(): return x
    if len(a) >= 2 and z3.is_expr(x) and x.sort() == z3.IntSort():
        n = S(x); c = S(num(I, a[1]))
        if z3.is_int_value(n) and z3.is_int_value(c): return z3.StringVal(chr(c.as_long()) * n.as_long())
    raise Unsupported("string constructor")


@h("std::operator+", "__gnu_cxx::operator+")
def opplus(I, o, a, e):
    x, y = I.val(a[0]), I.val(a[1])
    if isinstance(x, Iter): return I.iter_add(x, num(I, y))
    if isinstance(y, Iter): return I.iter_add(y, num(I, x))
    return z3.Concat(string(I, x), string(I, y))


def string(I, x):
    if z3.is_expr(x) and x.sort() == z3.StringSort(): return x
    if z3.is_expr(x) and z3.is_int_value(S(x)): return z3.StringVal(chr(S(x).as_long()))
    raise Unsupported("string operand")


@h("std::basic_string::operator+=", "std::basic_string::append")
def str_app(I, o, a, e):
    I.write(o, z3.Concat(I.read(o), string(I, I.val(a[0])))); return o


@h('std::operator""s', 'std::string_literals::operator""s', 'std::operator""sv', "std::basic_string::c_str", "std::basic_string::operator basic_string_view",
   "std::filesystem::path::string", "std::filesystem::__cxx11::path::string", "std::filesystem::path::native")
def str_id(I, o, a, e): return I.val(a[0]) if o is None else I.read(o)


LIB["std::basic_string::empty"] = lambda I, o, a, e: z3.Length(I.read(o)) == 0
LIB["std::basic_string::size"] = lambda I, o, a, e: z3.Length(I.read(o))
LIB["std::basic_string::length"] = LIB["std::basic_string::size"]

TOSTR = {"Int": z3.Function("uf_to_string_int", z3.IntSort(), z3.StringSort()), "Real": z3.Function("uf_to_string_real", R, z3.StringSort())}


@h("std::to_string")
def to_string_(I, o, a, e):
    x = num(I, a[0])
    if x.sort() == z3.BoolSort(): x = z3.If(x, lit(1), lit(0))
    return TOSTR[str(x.sort())](x)


# ---- repository infrastructure with assumed contracts -------------------------------------
@h("ctor:Entity", "ctor:Visitable", "ctor:IOriginator", "ctor:TreeNode_")
def ctor_nop(I, bt, e, obj):
    if bt.n == "Entity":
        for (_, n, t) in I.prog.fields(bt): I.write(I.sub(obj, ("f", n)), I.fresh_val(t, "entity"))
    return True


# Originator<State const>: ghost view (current state, current timepoint, used timepoints); proved on the real class by S01/S02
def orig_ty(I, o):
    """Originator<...> base type of the object at o"""
    if isinstance(o, ObjLoc): ty = o.ty
    elif isinstance(o, CellLoc): ty = I.st.ctys.get(o.id) if not o.path else None
    else: ty = None
    v = None
    if ty is None and isinstance(o, (CellLoc, ValLoc)):
        v = I.read(o)
        ty = I.prog.tys.get(v.cls) if isinstance(v, Struct) else None
    if ty is None: raise Unsupported("originator type")
    for b in [ty] + I.prog.bases(ty):
        if b.n == "Originator": return b
    raise Unsupported("no originator base in " + ty.s)


def oref(I, o):
    if isinstance(o, ObjLoc): return o.ref
    if isinstance(o, CellLoc) and not o.path: return lit(-1000000 - o.id)
    raise Unsupported("originator object")


def cur_field(I, o):
    b = orig_ty(I, o)
    return FieldLoc(oref(I, o), b.s, "cur!", b.a[0])


def tp_field(I, o):
    b = orig_ty(I, o)
    return FieldLoc(oref(I, o), b.s, "tp!", I.prog.tys["TreeNode*"] if "TreeNode*" in I.prog.tys else ptr_ty(I))


def ptr_ty(I):
    for t in I.prog.tys.values():
        if t.k == "p": return t
    raise Unsupported("pointer type")


def used_arr(I, b):
    key = (b.s, "used!")
    a = I.st.heap.get(key)
    if a is None:
        a = [z3.Const(f"H.{b.s}.used!.0", z3.ArraySort(z3.IntSort(), z3.ArraySort(z3.IntSort(), z3.BoolSort())))]
        I.st.heap[key] = a
        class T: pass
        t = T(); t.s = "used!" + b.s; t.k = "ghost"
        I.sortcache[t.s] = [a[0].sort().range()]
        I.__dict__.setdefault("heap_tys", {})[key] = t
    return a[0]


def orig_init(I, o, t, state):
    b = orig_ty(I, o)
    I.write(cur_field(I, o), state)
    I.write(tp_field(I, o), t)
    u = used_arr(I, b)
    I.st.heap[(b.s, "used!")] = [z3.Store(u, oref(I, o), z3.Store(z3.K(z3.IntSort(), z3.BoolVal(False)), t, z3.BoolVal(True)))]


@h("ctor:Originator")
def ctor_orig(I, bt, e, obj):
    args = [I.ev(x) for x in e["c"]]
    t = I.val(args[0])
    rest = [x for x, c in zip(args[1:], e["c"][1:]) if not (c is not None and c["k"] == "DefaultArg")]
    st = None
    if rest:
        v = I.val(rest[0])
        if isinstance(v, Struct) and v.cls == bt.a[0].s: st = v
    if st is None: st = I.zero_init_state(bt.a[0])
    orig_init(I, obj, t if not isinstance(t, LPtr) else lit(1), st)
    return True


@h("Originator::get_current_state")
def o_get(I, o, a, e):
    c = cur_field(I, o)
    return ValLoc(I.read(c))


@h("Originator::get_current_timepoint")
def o_tp(I, o, a, e): return I.read(tp_field(I, o))


def is_used(I, o, t):
    b = orig_ty(I, o)
    u = used_arr(I, b)
    r = oref(I, o)
    row = I.sel(u, r)
    ts = S(t)
    x = I.sel(row, ts)
    if not (z3.is_int_value(ts) and ts.as_long() > 0):
        # a freshly made timepoint is unused by every originator that existed before
        f = z3.Implies(ts < 0, z3.Not(z3.Select(z3.Select(z3.Const(f"H.{b.s}.used!.0", u.sort()), r), ts)))
        I.tyfacts[f.get_id()] = f
    if z3.is_int_value(ts) and ts.as_long() < 0 and x.eq(z3.Select(z3.Select(z3.Const(f"H.{b.s}.used!.0", u.sort()), r), ts)): return z3.BoolVal(False)
    return x


def set_state_val(I, o, t, v):
    b = orig_ty(I, o)
    used = S(is_used(I, o, t))
    c = cur_field(I, o); tp = tp_field(I, o)
    old, oldt = I.read(c), I.read(tp)
    if is_true(used): return
    I.write(c, v if is_false(used) else I.merge(used, old, v))
    I.write(tp, t if is_false(used) else z3.If(used, oldt, t))
    u = used_arr(I, b)
    I.st.heap[(b.s, "used!")] = [z3.Store(u, oref(I, o), z3.Store(I.sel(u, oref(I, o)), t, z3.BoolVal(True)))]


@h("Originator::set_state")
def o_set(I, o, a, e):
    set_state_val(I, o, num(I, a[0]), I.val(a[1])); return UNIT


@h("Originator::next_timepoint", "Caretaker::make_next_timepoint")
def o_next(I, o, a, e): return I.new_ref()


@h("Originator::set_next_state")
def o_setn(I, o, a, e):
    set_state_val(I, o, I.new_ref(), I.val(a[0])); return UNIT


@h("Originator::set_given_or_next_state")
def o_setgn(I, o, a, e):
    t = num(I, a[1]) if len(a) > 1 else lit(0)
    n = I.new_ref()
    is_used(I, o, n)
    ts = S(z3.If(t != 0, t, n))
    set_state_val(I, o, ts, I.val(a[0])); return UNIT


@h("Originator::make_next_state")
def o_mk(I, o, a, e):
    return Tup([I.new_ref(), I.read(cur_field(I, o))])


@h("Originator::get_caretaker", "IOriginator::get_caretaker", "Caretaker::singleton")
def caretaker(I, o, a, e): return ObjLoc(z3.Int("caretaker!"), I.prog.tys.get("Caretaker"))


def owned_arr(I):
    key = ("Caretaker", "owned!")
    arr = I.st.heap.get(key)
    if arr is None:
        arr = [z3.Const("H.Caretaker.owned!.0", z3.ArraySort(z3.IntSort(), z3.BoolSort()))]
        class T: pass
        t = T(); t.s = "owned!"; t.k = "ghost"
        I.sortcache[t.s] = [z3.BoolSort()]
        I.__dict__.setdefault("heap_tys", {})[key] = t
        I.st.heap[key] = arr
    return arr[0]


@h("Caretaker::take_care_of")
def take_care(I, o, a, e):
    arr = owned_arr(I)
    I.st.heap[("Caretaker", "owned!")] = [z3.Store(arr, num(I, a[0]), z3.BoolVal(True))]
    return UNIT


@h("create_view")
def create_view_(I, o, a, e):
    x = I.val(a[0])
    t = I.fty(e)
    if isinstance(x, CVec): return CVec(x.items, t.a[0])
    return Vec(x.n, t.a[0], x.arr)


# abstract segments
def seg_virtual(which):
    def f(I, o, a, e):
        if isinstance(o, ObjLoc) and o.ty.n == "domain::Segment":
            return FieldLoc(o.ref, "domain::Segment", which + "!", I.prog.tys["domain::Point"])
        return None
    return f


LIB["virt:domain::Segment::p0"] = seg_virtual("p0")
LIB["virt:domain::Segment::p1"] = seg_virtual("p1")

# progress reporting: no effect on the results
LIB["Progress::Bar::build"] = lambda I, o, a, e: Tup([UNIT, lit(0), lit(0)])
LIB["log"] = lambda I, o, a, e: UNIT


@h("new:std::ranges::views::_Drop", "new:std::ranges::views::_Take", "new:std::ranges::views::_Filter", "new:std::ranges::views::_Transform")
def new_fnobj(I, t, f, a, e): return Struct("fnobj:" + t.n.replace("_", "").lower(), {})


for _n in ("Drop", "Take", "Filter", "Transform", "Reverse"):
    LIB[f"std::ranges::views::_{_n}::operator()"] = range_adaptor


# ---- the history classes seen from inside (real mode): an originator in the caretaker's list is known by its interface ----
REAL = {}
ALIVE = z3.Function("owned_elsewhere", z3.IntSort(), z3.BoolSort())


def hr(*names):
    def d(f):
        for n in names: REAL[n] = f
        return f
    return d


def set_ty(I):
    for t in I.prog.tys.values():
        if t.k == "rec" and t.n == "std::set" and t.a[0].s == "TreeNode*": return t
    raise Unsupported("set type")


def told(I, r): return FieldLoc(r, "IOriginator", "told!", I.prog.tys["TreeNode*"])
def erased(I, r): return FieldLoc(r, "IOriginator", "erased!", set_ty(I))
def iface(I, r, f, t): return FieldLoc(r, "IOriginator", f, I.prog.tys[t])


@hr("std::weak_ptr::lock")
def wp_lock(I, o, a, e):
    r = I.read(o)
    return S(z3.If(z3.And(r != 0, ALIVE(r)), r, lit(0)))


@hr("std::weak_ptr::expired", "std::__weak_ptr::expired")
def wp_expired(I, o, a, e):
    r = I.read(o)
    return z3.Not(z3.And(r != 0, ALIVE(r)))


@hr("virt:IOriginator::go")
def v_go(I, o, a, e):
    I.write(told(I, o.ref), num(I, a[0])); return UNIT


@hr("virt:IOriginator::erase")
def v_erase(I, o, a, e):
    I.write(erased(I, o.ref), I.val(a[0])); return UNIT


@hr("virt:IOriginator::get_caretaker")
def v_ct(I, o, a, e): return ObjLoc(I.read(iface(I, o.ref, "caretaker!", "TreeNode*")), I.prog.tys["Caretaker"])


@hr("virt:IOriginator::get_init_timepoint")
def v_it(I, o, a, e): return I.read(iface(I, o.ref, "init!", "TreeNode*"))
