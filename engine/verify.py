"""Contracts, proof obligations per function, discharge (z3, then cvc5), parallel driver."""
import os, re, sys, time, subprocess, tempfile, traceback, multiprocessing as mp
sys.setrecursionlimit(30000)
import z3
import sym, lib
from sym import (Interp, Struct, Opt, Vec, CVec, Tup, Map, UNIT, Unit, Loc, CellLoc, FieldLoc, ObjLoc, ValLoc, LPtr, View, Iter, Unsupported, Dead,
                 Undef, S, And, lit, is_true, is_false, VECS, PTRS, STRS, BYREF, limits)
from cxx import UNSIGNED

Or, Not, Implies, If = z3.Or, z3.Not, z3.Implies, z3.If
TOL = z3.RealVal("1e-8")


def short(s):
    s = re.sub(r",std::allocator<[^<>]*(?:<[^<>]*(?:<[^<>]*(?:<[^<>]*>)?[^<>]*>)?[^<>]*>)?[^<>]*>", "", s)
    s = re.sub(r",std::default_delete<[^<>]*(?:<[^<>]*>)?[^<>]*>", "", s)
    s = s.replace("domain::", "").replace("std::basic_string<char,std::char_traits<char>>", "string")
    s = re.sub(r"std::basic_string<char,std::char_traits<char>[^>]*>", "string", s)
    return s.replace("std::", "")


# ---- typed view of values, for writing contracts ---------------------------------
class W:
    """typed view on a value or a location; fields by attribute, elements by index, pointers followed"""
    __slots__ = ("_I", "_x", "_t")

    def __init__(self, I, x, ty):
        self._I = I; self._x = x; self._t = ty.strip()

    @property
    def raw(self):
        return self._I.val(self._x)

    def is_ptr(self):
        return self._t.k == "p" or (self._t.k == "rec" and self._t.n in PTRS)

    def target(self):
        """(location or value, type) with pointers followed"""
        x, t = self._x, self._t
        while t.k == "p" or (t.k == "rec" and t.n in PTRS):
            t2 = t.e if t.k == "p" else t.a[0]
            x = self._I.deref(self._I.val(x), t2); t = t2.strip()
        return x, t

    def __getattr__(self, n):
        I = self._I
        if n == "n":
            x, t = self.target()
            return I.val(x).n if t.n in VECS else lit(len(I.val(x).items))
        if n in ("has", "value"):
            v = self.raw
            if n == "has": return v.has
            vt = self._t.a[0]
            val = v.val if v.val is not None else I.fresh_val(vt, "none")
            return wrap(I, val, vt)
        x, t = self.target()
        if t.n in ("std::pair",):
            k = {"first": 0, "second": 1}[n]
            return wrap(I, I.val(x).items[k], t.a[k])
        if t.n in BYREF and z3.is_expr(x): x = ObjLoc(x, t)
        if n in ("_p0_", "_p1_"):
            if isinstance(x, ObjLoc): cls = x.ty.s
            else:
                v = I.val(x); cls = v.cls
            if cls == "domain::Edge":
                p = I.deref(I.val(I.sub(x, ("f", n[:3])) if isinstance(x, Loc) else x.f[n[:3]]), I.prog.tys["domain::Point"])
                return wrap(I, p, I.prog.tys["domain::Point"])
            if cls == "domain::Range":
                return wrap(I, I.sub(x, ("f", n[:3])) if isinstance(x, Loc) else x.f[n[:3]], I.prog.tys["domain::Point"])
            return wrap(I, I.read(FieldLoc(x.ref, "domain::Segment", n[1:3] + "!", I.prog.tys["domain::Point"])), I.prog.tys["domain::Point"])
        for (d, f, ft) in I.prog.fields(t):
            if f == n:
                if isinstance(x, Loc): return wrap(I, I.sub(x, ("f", n)), ft)
                return wrap(I, x.f[n], ft)
        raise AttributeError(f"{n} of {t}")

    def __getitem__(self, i):
        I = self._I
        x, t = self.target()
        i = lit(i) if isinstance(i, int) else i
        et = t.e if t.k == "arr" else t.a[0]
        if isinstance(x, Loc): return wrap(I, I.sub(x, ("i", i)), et)
        if isinstance(x, (Vec, CVec)): return wrap(I, I.vec_get(x, i), et)
        return wrap(I, I.follow(x, (("i", i),)), et)

    @property
    def ref(self):
        """address: pointer value, or the object's address"""
        if self.is_ptr(): return self.raw
        if isinstance(self._x, ObjLoc): return self._x.ref
        raise Unsupported("ref")

    # Originator
    @property
    def state(self):
        x, t = self.target()
        f, st = lib.cur_field(self._I, x), None
        return wrap(self._I, f, f.ty)

    def __repr__(self):
        return f"W({self._x}:{self._t})"


def wrap(I, x, ty):
    t = ty.strip()
    if t.k in ("b", "e"): return I.num(I.val(x))
    if t.k == "rec" and t.n in STRS: return I.val(x)
    return W(I, x, ty)


def unwrap(v):
    return v._x if isinstance(v, W) else v


def val(v):
    return v.raw if isinstance(v, W) else v


def veq(I, a, b, ty, depth=0):
    """equality of two values of type ty"""
    a, b = I.val(a), I.val(b)
    if isinstance(a, Undef) or isinstance(b, Undef):
        return z3.BoolVal(a is b)
    if z3.is_expr(a) and z3.is_expr(b):
        if a.sort() != b.sort():
            if a.sort() == z3.RealSort(): b = z3.ToReal(b)
            elif b.sort() == z3.RealSort(): a = z3.ToReal(a)
        return a == b
    if isinstance(a, Unit) or isinstance(b, Unit): return z3.BoolVal(True)
    if isinstance(a, Opt):
        if not isinstance(b, Opt): raise Unsupported("compare optional")
        if a.val is None or b.val is None: return And(a.has == b.has, Not(a.has) if a.val is None else Not(b.has))
        return And(a.has == b.has, Implies(a.has, veq(I, a.val, b.val, ty.a[0] if ty else None)))
    if isinstance(a, (Vec, CVec)):
        if isinstance(a, CVec) and isinstance(b, CVec):
            if len(a.items) != len(b.items): return z3.BoolVal(False)
            return And(*[veq(I, x, y, a.ety) for x, y in zip(a.items, b.items)])
        k = I.fresh("k", z3.IntSort())
        body = []
        if isinstance(a, CVec): a = I.tovec(a)
        if isinstance(b, CVec): b = I.tovec(b)
        if all(x.eq(y) for x, y in zip(a.arr, b.arr)): return a.n == b.n
        return And(a.n == b.n, Implies(And(k >= 0, k < a.n), veq(I, I.vec_get(a, k), I.vec_get(b, k), a.ety)))
    if isinstance(a, Struct):
        if a.cls == "expected":
            return And(a.f["has"] == b.f["has"], Implies(a.f["has"], veq(I, a.f["val"], b.f["val"], None)))
        return And(*[veq(I, a.f[k], b.f[k], None) for k in a.f])
    if isinstance(a, Tup): return And(*[veq(I, x, y, None) for x, y in zip(a.items, b.items)])
    if isinstance(a, Map): return And(a.has == b.has, *[x == y for x, y in zip(a.arr, b.arr)])
    if isinstance(a, Iter): return a.i == b.i
    raise Unsupported(f"compare {type(a).__name__}")


class Ctx:
    """what a contract sees"""

    def __init__(self, I, fn, this, args):
        self.I = I; self.fn = fn
        self.tu = fn["tu"]
        self.this = this
        self.args = args

    def ty(self, s):
        t = self.I.prog.tys.get(s) or self.I.prog.tys.get("domain::" + s)
        if t is None: raise Unsupported("type " + s)
        return t

    def mk(self, tyname, **f):
        t = self.ty(tyname)
        return Struct(t.s, {n: f[n] if not isinstance(f[n], W) else f[n].raw for (_, n, _) in self.I.prog.fields(t)})

    def coord(self, x):
        return Struct("domain::Coord", {"val": x})

    def point(self, x, y):
        return Struct("domain::Point", {"x": self.coord(x), "y": self.coord(y)})

    def bnd(self, *xs):
        return Tup([self.coord(x) for x in xs])

    def enum(self, ename, v):
        for n, e in self.I.prog.enums.items():
            if n == ename or n == "domain::" + ename:
                for x in e:
                    if x["n"] == v: return lit(x["v"])
        raise Unsupported(f"enum {ename}::{v}")

    def fresh(self, name, sort="int"):
        return self.I.fresh(name, {"int": z3.IntSort(), "real": z3.RealSort(), "bool": z3.BoolSort()}[sort])

    def at(self, st):
        return At(self.I, st)


class At:
    def __init__(self, I, st):
        self.I = I; self.st = st

    def __enter__(self):
        self.old = self.I.st
        self.st.ctr = max(self.st.ctr, self.old.ctr)
        self.I.st = self.st

    def __exit__(self, *a):
        self.old.ctr = max(self.st.ctr, self.old.ctr)
        self.I.st = self.old


class Contract:
    def __init__(self, kind, q, params, fnc, props, pre=None, inv=None, modifies=None, opaque=False, budget=60, unroll=3, bounded=False, at_call=True,
                 label=None, cover=None, paths=4000, note=None, tmo=None, call=None, result=None, nullable=(), fix=None, real=False, rec=False, trace=False, frame_inv=False, mocks=None, cut=None, feas=1500, quiet=False, quant=False):
        self.kind = kind; self.q = q; self.params = params; self.f = fnc; self.props = set(props); self.pre = pre; self.inv = inv
        self.modifies = modifies; self.budget = budget; self.unroll = unroll; self.bounded = bounded; self.at_call = at_call
        self.name = label or (q.replace("domain::", "") + ("" if params is None else "(" + ",".join(params) + ")"))
        self.paths = paths; self.note = note; self.tmo = tmo; self.call = call; self.result = result; self.nullable = nullable; self.fix = fix or {}; self.real = real; self.rec = rec; self.trace = trace; self.frame_inv = frame_inv; self.mocks = mocks or {}; self.cut = cut; self.feas = feas; self.quiet = quiet; self.quant = quant

    # -- use at a call site
    def ctx(self, I, obj, args, fn):
        tu = fn["tu"]
        ws = []
        for p, a in zip(fn["params"], args):
            t = I.prog.ty(tu, p["t"])
            if t.k != "r" or not isinstance(a, Loc): a = I.conv(I.val(a), t.strip())
            ws.append(wrap(I, a, t))
        this = None
        if fn.get("method"):
            if obj is not None and not isinstance(obj, Loc): obj = I.deref(obj, I.class_ty(fn))
            this = W(I, obj, I.class_ty(fn))
        return Ctx(I, fn, this, ws)

    def apply(self, I, obj, args, fn, e):
        I.used_kinds = set(I.used_kinds) | {self.kind}
        I.used.add(self.name)
        c = self.ctx(I, obj, args, fn)
        if self.pre is not None:
            for i, q in enumerate(aslist(self.pre(c, *c.args))):
                I.oblige(f"precondition of {self.name}", q)
                I.assume(q)
        if self.kind == "spec":
            r = unwrap((self.call or self.f)(c, *c.args))
            return r
        if self.kind == "effect":
            return unwrap(self.f(c, *c.args))
        rt = I.prog.ty(fn["tu"], fn["ret"]) if fn.get("ret") is not None else None
        pre = I.st.copy()
        c.old = pre
        if self.modifies is not None:
            for l in aslist(self.modifies(c, *c.args)):
                havoc_loc(I, l)
        r = UNIT
        if rt is not None and not (rt.k == "b" and rt.n == "void"):
            if self.result is not None: r = self.result(c, *c.args)
            elif rt.k == "r": r = I.deref(I.fresh("r", z3.IntSort()), rt.e)
            else:
                r = I.fresh_val(rt, "r"); I.wf(r)
                if rt.k == "e" and rt.n in I.prog.enums: I.assume(Or(*[r == x["v"] for x in I.prog.enums[rt.n]]))
        c.call_site = True
        for q in aslist(self.f(c, wrap(I, r, rt) if rt is not None and not isinstance(r, Unit) else None, *c.args)):
            I.assume(q[1] if isinstance(q, tuple) else q)
        return r


def aslist(x):
    if x is None: return []
    if isinstance(x, (list, tuple)): return list(x)
    return [x]


def havoc_loc(I, l):
    if isinstance(l, W): l = l._x
    if isinstance(l, tuple):      # (decl, field): the whole heap array
        k = l
        if k == ("Caretaker", "owned!"): lib.owned_arr(I)
        if k == ("IOriginator", "told!"): I.read(lib.told(I, lit(1)))
        if k == ("IOriginator", "erased!"): I.read(lib.erased(I, lit(1)))
        if k not in I.st.heap:
            for r in I.prog.records:
                for (d, f, t) in I.prog.fields(r):
                    if (d, f) == k: I.heap_arrays(d, f, t)
        I.st.heap[k] = [I.fresh(f"H.{k[0]}.{k[1]}.{i}~", a.sort()) for i, a in enumerate(I.st.heap[k])]
        return
    if isinstance(l, FieldLoc):
        t = I.path_ty(l)
        if "iterator" in t.s and not l.path:      # kept as a position from the front
            a = I.heap_arrays(l.decl, l.name, t)
            I.st.heap[(l.decl, l.name)] = [z3.Store(x, l.ref, I.fresh("hv", x.sort().range())) for x in a]
            return
        nv = I.fresh_val(t, "hv"); I.wf(nv)
        I.write(l, nv)
    elif isinstance(l, CellLoc):
        v = I.read(l)
        t = I.st.ctys.get(l.id) if not l.path else None
        if t is not None and t.k != "p":
            nv = I.fresh_val(t.strip(), "hv"); I.wf(nv)
        else:
            if isinstance(v, (CVec,)): v = I.tovec(v)
            nv = I.rebuild(v, iter([I.fresh("hv", x.sort()) for x in I.flat(v)])); I.wf(nv)
        I.write(l, nv)
    else: raise Unsupported("havoc")


REG = []


def _deco(kind):
    def mk(q, params=None, props=(), **kw):
        def d(f):
            c = Contract(kind, q, params, f, props, **kw)
            REG.append(c)
            return c
        return d
    return mk


class Lemma(Contract):
    pass


def lemma(name, props=(), tmo=None):
    """a closed formula over the spec functions: f() -> (hypotheses, goal) pairs"""
    def d(f):
        c = Contract("lemma", name, None, f, props, at_call=False, label="lemma " + name, tmo=tmo)
        REG.append(c)
        return c
    return d


spec = _deco("spec")       # f(c,*args) -> the value returned; pure
post = _deco("post")       # f(c,result,*args) -> formulas
effect = _deco("effect")   # f(c,*args) writes through c.I, returns the value


def functions_of(prog, c):
    out = []
    for k in prog.byq.get(c.q, []):
        fn = prog.fns[k]
        if fn.get("body") is None and not fn.get("ctor"): continue
        if c.params is not None:
            ps = [short(prog.ty(fn["tu"], p["t"]).s) for p in fn["params"]]
            if len(ps) != len(c.params) or any(x != "*" and x != y for x, y in zip(c.params, ps)): continue
        out.append(fn)
    return out


def table(prog):
    """mangled name -> contract used at call sites"""
    t = {}
    for c in REG:
        if not c.at_call: continue
        for fn in functions_of(prog, c): t[fn["key"]] = c
    return t


def symarg(I, t, name, top=True):
    if t.k == "r":
        e = t.e
        if e.k == "rec" and (e.n in BYREF or e.n == "Caretaker" or any(b.n in ("Originator", "Entity") for b in I.prog.bases(e)) or (I.prog.record(e) and I.prog.record(e)["poly"])):
            r = z3.Int(name); I.assume(r > 0); return ObjLoc(r, e)
        return I.new_cell(symarg(I, e, name), e)
    v = I.symbolic(t, name); I.wf(v)
    valid(I, v, t)
    return v


def valid(I, v, t):
    """declared ranges of an arbitrary value: enumerations, unsigned, valid pointers"""
    if t.k == "p": I.assume(v > 0)
    elif t.k == "rec" and t.n in PTRS: I.assume(v > 0)
    elif t.k == "e" and t.n in I.prog.enums: I.assume(Or(*[v == x["v"] for x in I.prog.enums[t.n]]))
    elif t.k == "b" and t.n in UNSIGNED: I.assume(v >= 0)
    elif isinstance(v, Struct) and t.k == "rec":
        for (_, f, ft) in I.prog.fields(t):
            if f in v.f: valid(I, v.f[f], ft)
    elif isinstance(v, Tup) and t.k == "rec":
        for x, ft in zip(v.items, t.a if t.n != "std::array" else [t.a[0]] * len(v.items)): valid(I, x, ft)


def strip_new(a):
    """drop the writes to freshly allocated objects"""
    while z3.is_app_of(a, z3.Z3_OP_STORE) and z3.is_int_value(a.arg(1)) and a.arg(1).as_long() < 0:
        a = a.arg(0)
    return a


def default_heap(I, k):
    ty = I.heap_tys[k]
    return [z3.Const(f"H.{k[0]}.{k[1]}.{i}", z3.ArraySort(z3.IntSort(), s)) for i, s in enumerate(I.sorts(ty))]


def heap_eq(I, a, b, name, label, skip=()):
    """obligations: same heap for every pre-existing object in states a and b (under I.st)"""
    for k in sorted(set(a.heap) | set(b.heap), key=str):
        if k in skip or k[1] == 'used!': continue
        x = a.heap.get(k) or default_heap(I, k)
        y = b.heap.get(k) or default_heap(I, k)
        gs = []
        for p, q in zip(x, y):
            p, q = strip_new(p), strip_new(q)
            if p.eq(q): continue
            r = z3.Const("frame!r", z3.IntSort())
            gs.append(Implies(r > 0, I.sel(p, r) == I.sel(q, r)))
        if gs: I.oblige(f"{name}: {label} {k[0].replace('domain::','')}.{k[1]}", And(*gs))


def nullable(name):
    v = z3.Int(name + ".0")
    return v


def setup(prog, contracts, c, fn, mode):
    I = Interp(prog, {k: v for k, v in contracts.items() if c.real or not v.real}, mode, unroll=c.unroll, max_paths=c.paths)
    I.trace_calls = c.trace
    if c.real: I.lib.clear(); lib.install(I, True); I.real = True
    I.verifying = {fn["key"]}
    I.deadline = time.time() + c.budget
    tu = fn["tu"]
    args = [symarg(I, prog.ty(tu, p["t"]), f"a{i}") if i not in c.nullable else nullable(f"a{i}") for i, p in enumerate(fn["params"])]
    for i, (en, v) in c.fix.items(): args[i] = Ctx(I, fn, None, []).enum(en, v)      # one case of an exhaustive split
    this = None
    if fn.get("ctor"):
        this = I.new_ref()
    elif fn.get("method"):
        this = z3.Int("this"); I.assume(this > 0)
    cargs = [I.new_cell(a) if not isinstance(a, Loc) and z3.is_expr(a) is False and False else a for a in args]
    ctx = c.ctx(I, ObjLoc(this, I.class_ty(fn)) if this is not None else None, cargs, fn)
    ctx.old = None
    I.feas_tmo = c.feas; I.quant = c.quant
    I.cut = (lambda: c.cut(ctx)) if c.cut else None
    I.mocks = {k: (lambda I, o, a, f=f: f(ctx, o, a)) for k, f in c.mocks.items()}
    if c.pre is not None:
        for q in aslist(c.pre(ctx, *ctx.args)): I.assume(q)
    return I, args, this, ctx


def generate(prog, contracts, c, fn, mode="proof"):
    """obligations of function fn against contract c"""
    I, args, this, ctx = setup(prog, contracts, c, fn, mode)
    rt = prog.ty(fn["tu"], fn["ret"]) if fn.get("ret") is not None else None
    S0 = I.st.copy()
    ctx.old = S0
    if c.inv is not None: I.inv = lambda lc: c.inv(ctx, lc, *ctx.args)
    else: I.inv = lambda lc: {}
    refargs = [(p, a) for p, a in zip(fn["params"], args) if isinstance(a, CellLoc)]
    name = c.name
    if c.frame_inv: I.frame_refs, I.frame_skip = may_modify(I, c, ctx, S0)[0], True
    outs = I.explore(lambda: I.run_body(fn, this, args))
    if not outs: raise Unsupported("no path")
    I.npaths = len(outs)
    sp_outs = None
    if c.kind in ("spec", "effect"):
        I.st = S0.copy()
        I.st.ctr += 100000
        I.verifying = set(); spec_inv = I.inv
        sp_outs = I.explore(lambda: unwrap(c.f(ctx, *ctx.args)))
    for st, r in outs:
        if rt is not None and rt.k == "r" and isinstance(r, Loc) and c.kind != "post": pass
        if c.kind in ("spec", "effect"):
            for st2, r2 in sp_outs:
                I.st = st.copy()
                I.st.ctr = max(st.ctr, st2.ctr)
                I.st.pc = st.pc + [x for x in st2.pc if not any(x.eq(y) for y in st.pc)]
                ids = {f.get_id() for f in I.st.facts}
                I.st.facts = I.st.facts + [x for x in st2.facts if x.get_id() not in ids]
                I.st.heap = dict(st.heap)
                va = st_read(I, st, r); vb = st_read(I, st2, r2)
                if va is not None and not isinstance(va, Unit):
                    I.oblige(f"{name}: result", veq(I, va, vb, rt))
                heap_eq(I, st, st2, name, "effect on" if c.kind == "effect" else "leaves unchanged")
                for p, a in refargs:
                    x, y = st.cells[a.id], st2.cells[a.id]
                    if x is not y and not I.same(x, y):
                        I.oblige(f"{name}: argument {fn['params'].index(p)}", veq(I, x, y, None))
        else:
            I.st = st.copy()
            ctx.call_site = False
            ctx.result_state = st
            rr = None
            if rt is not None and not isinstance(r, Unit): rr = wrap(I, r, rt)
            elif fn.get("ctor"): rr = ctx.this
            for i, q in enumerate(aslist(c.f(ctx, rr, *ctx.args))):
                if isinstance(q, tuple): nm, q = q
                else: nm = f"post {i}"
                I.oblige(f"{name}: {nm}", q)
            frame(I, c, ctx, S0, st, refargs, name)
    I.st = S0
    return I, S0


def st_read(I, st, r):
    if not isinstance(r, Loc): return r
    old = I.st
    I.st = st
    try:
        if isinstance(r, ObjLoc) and I.prog.record(r.ty) is not None: return r.ref
        if isinstance(r, FieldLoc) and not r.path and I.prog.record(r.ty) is not None: return I.read(r)
        return I.read(r)
    finally:
        I.st = old


def may_modify(I, c, ctx, S0):
    allowed = {}
    cells = set()
    if c.modifies is not None:
        with At(I, S0):
            locs = aslist(c.modifies(ctx, *ctx.args))
        for l in locs:
            if isinstance(l, W): l = l._x
            if isinstance(l, tuple): allowed.setdefault(l, []).append(None)
            elif isinstance(l, FieldLoc): allowed.setdefault((l.decl, l.name), []).append(l.ref)
            elif isinstance(l, CellLoc): cells.add(l.id)
    return allowed, cells


def frame(I, c, ctx, S0, st, refargs, name):
    allowed, cells = may_modify(I, c, ctx, S0)
    for k in sorted(st.heap, key=str):
        if k[1] == "used!": continue      # ghost
        if None in allowed.get(k, []): continue
        x = st.heap[k]; y = S0.heap.get(k) or default_heap(I, k)
        gs = []
        for p, q in zip(x, y):
            p, q = strip_new(p), strip_new(q)
            if p.eq(q): continue
            r = z3.Const("frame!r", z3.IntSort())
            gs.append(Implies(And(r > 0, *[r != z for z in allowed.get(k, [])]), I.sel(p, r) == I.sel(q, r)))
        if gs: I.oblige(f"{name}: leaves unchanged {k[0].replace('domain::','')}.{k[1]}", And(*gs))
    for p, a in refargs:
        if a.id in cells: continue
        x, y = st.cells[a.id], S0.cells[a.id]
        if x is not y and not I.same(x, y):
            I.oblige(f"{name}: leaves argument unchanged", veq(I, x, y, None))


# ---- discharge --------------------------------------------------------------------
def cvc5_check(hyps, goal, tmo):
    s = z3.Solver()
    s.add(*hyps); s.add(Not(goal))
    txt = "(set-logic ALL)\n" + s.to_smt2()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt)
    try:
        p = subprocess.run(["cvc5", "--lang=smt2", f"--tlimit={int(tmo*1000)}", "--nl-ext-tplanes", f.name], capture_output=True, text=True, timeout=tmo + 5)
        o = p.stdout.strip().splitlines()
        return o[0] if o else "unknown"
    except Exception:
        return "unknown"
    finally:
        os.unlink(f.name)


def relevant(hyps, goal):
    return hyps


def has_uf(fs):
    """an uninterpreted function occurs: a model of it need not be realisable"""
    seen = set(); todo = list(fs)
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): todo.append(x.body()); continue
        if z3.is_app(x):
            if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: return True
            todo += x.children()
    return False


def flatten(hs):
    out = []
    todo = list(hs)[::-1]
    while todo:
        h = todo.pop()
        if z3.is_and(h): todo += h.children()[::-1]
        else: out.append(h)
    return out


def quantified(e, cache={}):
    r = cache.get(e.get_id())
    if r is not None and r[0].eq(e): return r[1]
    g = z3.Goal(); g.add(e)
    r = (e, bool(z3.Probe("has-quantifiers")(g)))
    cache[e.get_id()] = r
    return r[1]


def symbols(x, cache={}):
    r = cache.get(x.get_id())
    if r is None or not r[0].eq(x):
        names = set(); seen = set(); todo = [x]
        while todo:
            y = todo.pop()
            if y.get_id() in seen: continue
            seen.add(y.get_id())
            if z3.is_quantifier(y): todo.append(y.body()); continue
            if z3.is_app(y):
                if y.decl().kind() == z3.Z3_OP_UNINTERPRETED: names.add(y.decl().name())
                todo += y.children()
        r = (x, names)
        cache[x.get_id()] = r
    return r[1]


def relevant_sets(hyps, g):
    """growing sets of hypotheses around the goal (fewer hypotheses prove less, never more)"""
    qs = [h for h in hyps if quantified(h)]
    gr = [h for h in hyps if not quantified(h)]
    if len(qs) < 4: return
    occ = {}
    for h in qs:
        for y in symbols(h): occ[y] = occ.get(y, 0) + 1
    known = set(symbols(g)); chosen = []
    for depth in range(4):
        new = []
        for h in qs:
            if any(h is q for q in chosen): continue
            ss = [y for y in symbols(h)]
            if not ss: continue
            m = min(occ[y] for y in ss)
            if any(y in known and occ[y] <= 1.5 * m + 1 for y in ss): new.append(h)
        if not new: break
        chosen = chosen + new
        for h in new: known |= symbols(h)
        if len(chosen) == len(qs): break
        yield gr + chosen


LAST = []


def discharge(hyps, goal, tmo=8.0):
    """-> (status, backend, seconds, model or None)"""
    t = time.time()
    g = S(goal)
    if is_true(g): return "proved", "simplifier", time.time() - t, None
    s = z3.Solver()
    hyps = flatten(hyps)
    qf = [h for h in hyps if not quantified(h)]
    if len(qf) < len(hyps):
        def attempt(k, ms):
            simple, hs = k[0] == "simple", qf if k[1] == "ground" else hyps
            s0 = (z3.SimpleSolver if simple else z3.Solver)(); limits(s0, ms); s0.add(*hs); s0.add(Not(g))
            if s0.check() != z3.unsat: return False
            LAST[:] = [k]
            return True
        won = lambda: ("proved", "z3", time.time() - t, None)
        kinds = [("full", "ground"), ("simple", "all"), ("full", "all")]
        if LAST and attempt(LAST[0], 1500): return won()      # what worked last time, first
        for ms in (300, 1500):
            if any(attempt(k, ms) for k in kinds if ms > 1500 or k not in LAST): return won()
        for hs in relevant_sets(hyps, g):
            s0 = z3.SimpleSolver(); limits(s0, 500); s0.add(*hs); s0.add(Not(g))
            if s0.check() == z3.unsat: return won()
        if attempt(("simple", "all"), 3000): return won()
    s.add(*hyps); s.add(Not(g))
    first = min(2.5, tmo)
    for to in (first, tmo):
        limits(s, int(to * 1000))
        r = s.check()
        if r == z3.unsat: return "proved", "z3", time.time() - t, None
        if r == z3.sat: return "sat", "z3", time.time() - t, s.model()
        if to == first and cvc5_check(hyps, g, tmo) == "unsat": return "proved", "cvc5", time.time() - t, None
    return "unknown", "z3+cvc5", time.time() - t, None


def model_values(m):
    out = []
    for d in m.decls():
        v = m[d]
        try:
            if z3.is_rational_value(v): out.append((d.name(), float(v.as_fraction())))
            elif z3.is_algebraic_value(v): out.append((d.name(), float(v.approx(12).as_fraction())))
            elif z3.is_int_value(v): out.append((d.name(), float(v.as_long())))
            elif z3.is_as_array(v) or z3.is_func_interp(v) or (z3.is_expr(v) and v.sort().kind() == z3.Z3_ARRAY_SORT):
                for x in re.findall(r"-?\d+\.\d+\??|-?\d+/\d+", v.sexpr()):
                    x = x.rstrip("?")
                    out.append((d.name(), float(x) if "/" not in x else float(int(x.split("/")[0])) / int(x.split("/")[1])))
        except Exception:
            pass
    return out


def verify_one(prog, contracts, c, fn, tmo=8.0, both=True):
    """result record (picklable) for one function"""
    t0 = time.time()
    tmo = max(c.tmo or 0, tmo)
    res = {"contract": c.name, "fn": fn["q"], "line": f"{fn['file']}:{fn['line']}", "props": sorted(c.props), "status": "proved", "obligations": 0,
           "discharged": 0, "by": {}, "failed": [], "files": [fn["file"]], "solver_s": 0.0, "paths": 0, "inlined": [], "used": [], "lib": [], "invariants": 0, "mode": "proof",
           "why": "", "bounded": None, "quiet": c.quiet}

    def go(mode):
        I, S0 = generate(prog, contracts, c, fn, mode)
        fails = []
        n = d = 0
        by = {}
        sol = I.stats.time
        # the precondition must be satisfiable (vacuity)
        cov = z3.Solver(); limits(cov, 3000)
        cov.add(*[f for f in S0.facts if not I.quantified(f)])
        if cov.check() == z3.unsat: raise Unsupported("the precondition is contradictory")
        # the assumptions reached at the end must not be contradictory either
        seen = []
        for (nm, hyps, goal) in reversed(I.obls):
            if is_true(S(goal)) or any(len(hyps) == len(o) and all(x.eq(y) for x, y in zip(hyps, o)) for o in seen): continue
            seen.append(hyps)
            cov = z3.Solver(); limits(cov, 300); cov.add(*hyps, *I.tyfacts.values())
            if cov.check() != z3.unsat: break
            if len(seen) >= 6: raise Unsupported("the assumptions are contradictory")
        for (nm, hyps, goal) in I.obls:
            n += 1
            st, be, sec, m = discharge(hyps + list(I.tyfacts.values()), goal, tmo)
            sol += sec
            if st == "proved":
                d += 1; by[be] = by.get(be, 0) + 1
            else:
                txt = str(goal)
                fails.append({"name": nm, "status": st, "closed": st == "sat" and not has_uf(hyps + [goal]), "goal": txt[:1500], "model": (str(m)[:3000] if m is not None else ""),
                              "values": model_values(m) if m is not None else []})
                if len(fails) >= 4: break
        return I, n, d, by, fails, sol
    try:
        mode = "bounded" if c.bounded else "proof"
        I, n, d, by, fails, sol = go(mode)
        if not n: raise Unsupported("no obligation generated")
        inv = getattr(I, "inv_count", 0)
        if inv: by["z3 (loop invariants)"] = inv
        res.update(obligations=n + inv, discharged=d + inv, by=by, solver_s=sol, paths=getattr(I, "npaths", 0), invariants=inv,
                   files=sorted({prog.fns[k]["file"] for q in list(I.inlined) + [fn["q"]] for k in prog.byq.get(q, [])}),
                   inlined=sorted(I.inlined), used=sorted(I.used), lib=sorted(I.libused), mode=mode)
        if fails:
            res["failed"] = fails
            exact = I.loops_inv == 0 and not I.used_havoc()
            definitive = exact and any(f["status"] == "sat" and f["closed"] for f in fails)
            res["status"] = "failed" if definitive else "undecided"
            if not definitive: res["why"] = "obligation not discharged"
        if mode == "bounded" and not fails: res["status"] = "bounded"
    except Unsupported as e:
        res["status"] = "undecided"; res["why"] = "outside the verifier's reach: " + str(e)[:300]
    except Dead:
        res["status"] = "undecided"; res["why"] = "no feasible path"
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        res["status"] = "undecided"; res["why"] = f"verifier error {type(e).__name__}: {str(e)[:200]} ({os.path.basename(tb.filename)}:{tb.lineno})"
    if res["status"] == "undecided" and not c.bounded and both:
        # exact symbolic execution of the first iterations only: can refute, never prove
        try:
            I, n, d, by, fails, sol = go("bounded")
            res["bounded"] = {"obligations": n, "discharged": d, "unroll": c.unroll, "failed": [f for f in fails]}
            if any(f["status"] == "sat" and f["closed"] for f in fails) and not I.used_post():
                res["status"] = "failed"; res["failed"] = [f for f in fails if f["status"] == "sat" and f["closed"]]; res["mode"] = "bounded"
        except Exception as e:
            res["bounded"] = {"error": str(e)[:200]}
    res["wall_s"] = time.time() - t0
    return res


def prove_lemma(prog, contracts, c, tmo):
    t0 = time.time()
    I = Interp(prog, contracts)
    dummy = {"tu": 0, "q": "lemma", "params": [], "file": "", "line": 0}
    ctx = Ctx(I, dummy, None, [])
    res = {"contract": c.name, "fn": "(lemma)", "line": "", "props": sorted(c.props), "status": "proved", "obligations": 0, "discharged": 0, "by": {}, "failed": [],
           "solver_s": 0.0, "paths": 1, "inlined": [], "used": [], "lib": [], "invariants": 0, "mode": "proof", "why": "", "bounded": None}
    for nm, hyps, goal in c.f(ctx):
        st, be, sec, m = discharge(hyps, goal, c.tmo or tmo)
        res["obligations"] += 1; res["solver_s"] += sec
        if st == "proved":
            res["discharged"] += 1; res["by"][be] = res["by"].get(be, 0) + 1
        else:
            res["failed"].append({"name": f"{c.name}: {nm}", "status": st, "goal": str(goal)[:500], "model": str(m)[:1000], "values": []})
            res["status"] = "undecided"; res["why"] = "lemma not discharged"
    res["wall_s"] = time.time() - t0
    return res


_G = {}


def _work(job):
    ci, key, tmo = job
    prog = _G["prog"]; con = _G["con"]
    try:
        if key is None: return prove_lemma(prog, con, REG[ci], tmo)
        return verify_one(prog, con, REG[ci], prog.fns[key], tmo)
    except Exception as e:
        return {"contract": REG[ci].name, "fn": key, "status": "undecided", "why": "crash " + str(e), "failed": [], "obligations": 0, "discharged": 0, "by": {}, "props": sorted(REG[ci].props),
                "solver_s": 0, "used": [], "inlined": [], "lib": [], "line": "", "mode": "proof", "invariants": 0, "wall_s": 0, "paths": 0, "bounded": None}


def run(prog, sel, tmo=8.0, procs=8, limit=300):
    """verify every function under the contracts in sel (list of Contract)"""
    con = table(prog)
    _G["prog"] = prog; _G["con"] = con
    jobs = []
    missing = []
    for c in sel:
        fns = functions_of(prog, c)
        if not fns and c.kind != "lemma": missing.append(c)
        if c.kind == "lemma":
            jobs.append((REG.index(c), None, tmo)); continue
        for fn in fns: jobs.append((REG.index(c), fn["key"], tmo))
    out = []
    if procs == 1:
        out = [_work(j) for j in jobs]
    elif jobs:
        ctx = mp.get_context("fork")
        with ctx.Pool(min(procs, len(jobs)), maxtasksperchild=1) as pool:
            rs = [(j, pool.apply_async(_work, (j,))) for j in jobs]
            t_end = time.time() + limit
            for j, r in rs:
                try:
                    out.append(r.get(timeout=max(0.1, t_end - time.time())))
                except mp.TimeoutError:
                    c = REG[j[0]]
                    out.append({"contract": c.name, "fn": prog.fns[j[1]]["q"] if j[1] else "", "status": "undecided", "why": "time limit", "failed": [], "obligations": 0, "discharged": 0, "by": {},
                                "props": sorted(c.props), "solver_s": 0, "used": [], "inlined": [], "lib": [], "line": "", "mode": "proof", "invariants": 0, "wall_s": limit, "paths": 0, "bounded": None})
            pool.terminate()
    for c in missing:
        out.append({"contract": c.name, "fn": c.q, "status": "undecided", "why": "function not found in the current tree", "failed": [], "obligations": 0, "discharged": 0, "by": {},
                    "props": sorted(c.props), "solver_s": 0, "used": [], "inlined": [], "lib": [], "line": "", "mode": "proof", "invariants": 0, "wall_s": 0, "paths": 0, "bounded": None})
    return out
