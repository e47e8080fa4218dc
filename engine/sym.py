"""Symbolic interpreter / verification-condition generator over the exported AST of the real code.

Machine model (all listed as assumptions in the evidence): double is treated as a mathematical real, size_t additions and
multiplications do not overflow (subtraction wraps), input objects are distinct from newly allocated ones, enumerations hold
declared values, progress bars and logging have no effect."""
import z3, fractions

_mp, KEEP = z3.MultiPattern, []


def MultiPattern(*a):
    """the solver's binding does not keep the terms of a pattern alive by itself"""
    p = _mp(*a); KEEP.append((a, p))
    return p


z3.MultiPattern = MultiPattern
from cxx import Program, Ty, INTS, UNSIGNED

z3.set_param("smt.random_seed", 1)


class Unsupported(Exception):
    pass


class NoMerge(Exception):
    pass


class Dead(Exception):
    pass


def lit(x):
    return z3.IntVal(x)


def is_true(c):
    return z3.is_true(c)


def is_false(c):
    return z3.is_false(c)


class Undef:
    def __init__(self, sort):
        self.sort = sort

    def __repr__(self):
        return "undef"


class Struct:
    __slots__ = ("cls", "f")

    def __init__(self, cls, f):
        self.cls = cls; self.f = f

    def __repr__(self):
        return f"{self.cls}{self.f}"

    def with_(self, n, v):
        d = dict(self.f); d[n] = v
        return Struct(self.cls, d)


class Opt:
    __slots__ = ("has", "val")

    def __init__(self, has, val):
        self.has = has; self.val = val

    def __repr__(self):
        return f"Opt({self.has},{self.val})"


class Vec:
    __slots__ = ("n", "ety", "arr")

    def __init__(self, n, ety, arr):
        self.n = n; self.ety = ety; self.arr = arr

    def __repr__(self):
        return f"Vec({self.n},{self.arr})"


class CVec:
    __slots__ = ("items", "ety")

    def __init__(self, items, ety):
        self.items = list(items); self.ety = ety

    @property
    def n(self):
        return lit(len(self.items))

    def __repr__(self):
        return f"CVec{self.items}"


class Tup:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = list(items)

    def __repr__(self):
        return f"Tup{self.items}"


class Map:
    """map/set: has: Array(K,Bool), arr: lifted value leaves"""
    __slots__ = ("has", "kty", "vty", "arr")

    def __init__(self, has, kty, vty, arr):
        self.has = has; self.kty = kty; self.vty = vty; self.arr = arr


class Clo:
    def __init__(self, ops, caps, this, tu):
        self.ops = ops; self.caps = caps; self.this = this; self.tu = tu


class PyFn:
    def __init__(self, fn):
        self.fn = fn


class LPtr:
    __slots__ = ("loc",)

    def __init__(self, loc):
        self.loc = loc

    def __repr__(self):
        return f"&{self.loc}"


class View:
    def __init__(self, n, get, size_concrete=None):
        self.n = n; self.get = get


class Iter:
    __slots__ = ("loc", "i", "rev")

    def __init__(self, loc, i, rev=False):
        self.loc = loc; self.i = i; self.rev = rev


class Unit:
    def __repr__(self):
        return "()"


UNIT = Unit()
NULLOPT = Struct("nullopt", {})


class Loc:
    pass


class CellLoc(Loc):
    def __init__(self, id, path=()):
        self.id = id; self.path = path

    def __repr__(self):
        return f"c{self.id}{list(self.path)}"


class FieldLoc(Loc):
    def __init__(self, ref, decl, name, ty, path=()):
        self.ref = ref; self.decl = decl; self.name = name; self.ty = ty; self.path = path

    def __repr__(self):
        return f"{self.ref}.{self.name}{list(self.path)}"


class ObjLoc(Loc):
    def __init__(self, ref, ty):
        self.ref = ref; self.ty = ty

    def __repr__(self):
        return f"*{self.ref}:{self.ty}"


class ValLoc(Loc):
    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f"val({self.v})"


class State:
    def __init__(self):
        self.pc = []          # branch conditions
        self.facts = []       # assumptions
        self.cells = {}
        self.ctys = {}
        self.heap = {}
        self.ctr = 0
        self.alloc = lit(0)
        self.ghost = {}       # python-side ghost data (immutable values)

    def copy(self):
        s = State.__new__(State)
        s.pc = list(self.pc); s.facts = list(self.facts); s.cells = dict(self.cells); s.ctys = dict(self.ctys)
        s.heap = dict(self.heap); s.ctr = self.ctr; s.alloc = self.alloc; s.ghost = dict(self.ghost)
        return s


class Trace:
    def __init__(self, pre):
        self.pre = list(pre); self.i = 0; self.alts = []


class Frame:
    def __init__(self, fn, this=None, env=None):
        self.fn = fn; self.tu = fn["tu"]; self.this = this; self.env = env if env is not None else {}


def S(x):
    return z3.simplify(x)


def And(*xs):
    xs = [x for x in xs if not is_true(x)]
    return z3.BoolVal(True) if not xs else (xs[0] if len(xs) == 1 else z3.And(*xs))


VECS = {"std::vector", "std::list", "std::initializer_list", "std::deque"}
PTRS = {"std::unique_ptr", "std::shared_ptr", "std::weak_ptr"}
# records stored by value in containers of themselves: represented by the address of the element
RATE, SLACK = 2000, 3


def limits(s, ms):
    """bounds the solver's effort: so many steps for ms of a free processor, whatever the load; the clock is the last resort"""
    s.set("rlimit", int(ms * RATE)); s.set("timeout", int(ms * SLACK))


BYREF = {"TreeNode"}
STRS = {"std::basic_string", "std::filesystem::path", "std::basic_string_view", "std::filesystem::__cxx11::path"}


class Stats:
    def __init__(self):
        self.queries = 0; self.time = 0.0


class Interp:
    def __init__(self, prog, contracts=None, mode="proof", unroll=6, max_paths=40000):
        self.prog = prog
        self.contracts = contracts or {}
        self.lib = {}
        self.mode = mode
        self.unroll = unroll
        self.max_paths = max_paths
        self.paths = 0
        self.st = State()
        self.tr = [Trace([])]
        self.frames = []
        self.frame_refs = None; self.frame_skip = False
        self.mocks = {}
        self.cut = None; self.feas_tmo = 1500
        self.obls = []       # (name, hyps list, goal, loc)
        self.obl_seen = set()
        self.dry = 0
        self.inv = None      # loop schema provider: f(ctx)->dict
        self.loops_inv = 0
        self.truncated = False
        self.verifying = set()
        self.used = set()    # contracts applied
        self.inlined = set()
        self.libused = set()
        self.sortcache = {}
        self.feas_cache = {}
        self.tyfacts = {}
        self.newrefs = {}
        self.consts = {}
        self.stats = Stats()
        self.depth = 0
        self.globals_fixed = {}
        self.deadline = None
        self.real = False
        import lib
        lib.install(self)

    # ---- naming -------------------------------------------------------------
    def fresh(self, name, sort):
        self.st.ctr += 1
        return z3.Const(f"{name}{self.tag(sort)}!{self.st.ctr}", sort)

    def tag(self, sort):
        """one name, one sort"""
        k = sort.kind()
        return {z3.Z3_INT_SORT: "", z3.Z3_REAL_SORT: ".r", z3.Z3_BOOL_SORT: ".b"}.get(k) or (".a" + self.tag(sort.range()) if k == z3.Z3_ARRAY_SORT else "" if k == z3.Z3_INT_SORT else ".s")

    # ---- types --------------------------------------------------------------
    def sorts(self, ty):
        s = self.sortcache.get(ty.s)
        if s is None:
            s = self._sorts(ty)
            self.sortcache[ty.s] = s
        return s

    def _sorts(self, ty):
        I = z3.IntSort()
        if ty.k == "b":
            if ty.n == "bool": return [z3.BoolSort()]
            if ty.n in INTS: return [I]
            if ty.n in ("double", "float", "long double"): return [z3.RealSort()]
            if ty.n == "void": return []
            raise Unsupported("builtin " + ty.n)
        if ty.k in ("e", "p", "r"): return [I]
        if ty.k == "arr": return self.sorts(ty.e) * ty.num
        if ty.k == "rec":
            n = ty.n
            if n in BYREF: return [I]
            if "iterator" in n: return [I]
            if n == "std::optional": return [z3.BoolSort()] + self.sorts(ty.a[0])
            if n in VECS: return [I] + [z3.ArraySort(I, s) for s in self.sorts(ty.a[0])]
            if n in PTRS: return [I]
            if n == "std::array": return self.sorts(ty.a[0]) * ty.a[1]
            if n in ("std::pair", "std::tuple"): return [s for a in ty.a for s in self.sorts(a)]
            if n in STRS: return [z3.StringSort()]
            if n == "std::map":
                k = self.sorts(ty.a[0])[0]
                return [z3.ArraySort(k, z3.BoolSort())] + [z3.ArraySort(k, s) for s in self.sorts(ty.a[1])]
            if n == "std::set":
                return [z3.ArraySort(self.sorts(ty.a[0])[0], z3.BoolSort())]
            if n == "std::function": return [I]
            if n == "std::expected":
                return [z3.BoolSort()] + (self.sorts(ty.a[0])) + self.sorts(ty.a[1])
            if n in ("std::strong_ordering", "std::weak_ordering", "std::partial_ordering"): return [I]
            if n in ("std::allocator",): return []
            if self.prog.record(ty) is not None:
                return [s for (_, _, t) in self.prog.fields(ty) for s in self.sorts(t)]
        raise Unsupported("type " + ty.s)

    def build(self, ty, it):
        """value of type ty from an iterator of leaves"""
        if ty.k == "b" and ty.n == "void": return UNIT
        if ty.k in ("b", "e", "p", "r"): return next(it)
        if ty.k == "arr": return Tup([self.build(ty.e, it) for _ in range(ty.num)])
        n = ty.n
        if n in BYREF: return next(it)
        if "iterator" in n: return Iter(None, next(it), n == "std::reverse_iterator")
        if n == "std::optional":
            h = next(it)
            return Opt(h, self.build(ty.a[0], it))
        if n in VECS:
            ln = next(it)
            return Vec(ln, ty.a[0], [next(it) for _ in self.sorts(ty.a[0])])
        if n in PTRS or n in STRS or n == "std::function": return next(it)
        if n in ("std::strong_ordering", "std::weak_ordering", "std::partial_ordering"): return next(it)
        if n == "std::array": return Tup([self.build(ty.a[0], it) for _ in range(ty.a[1])])
        if n in ("std::pair", "std::tuple"): return Tup([self.build(a, it) for a in ty.a])
        if n == "std::map":
            h = next(it)
            return Map(h, ty.a[0], ty.a[1], [next(it) for _ in self.sorts(ty.a[1])])
        if n == "std::set": return Map(next(it), ty.a[0], None, [])
        if n == "std::expected":
            h = next(it)
            return Struct("expected", {"has": h, "val": self.build(ty.a[0], it), "err": self.build(ty.a[1], it)})
        if n == "std::allocator": return UNIT
        return Struct(ty.s, {f: self.build(t, it) for (_, f, t) in self.prog.fields(ty)})

    def symbolic(self, ty, name):
        v = self.build(ty, iter([z3.Const(f"{name}.{i}" if len(self.sorts(ty)) > 1 else name, s) for i, s in enumerate(self.sorts(ty))]))
        return v

    def fresh_val(self, ty, name):
        return self.build(ty, iter([self.fresh(name, s) for s in self.sorts(ty)]))

    def default(self, ty):
        """default initialisation"""
        if ty.k in ("b", "e", "p"):
            ss = self.sorts(ty)
            return Undef(ss[0]) if ss else UNIT
        if ty.k == "arr": return Tup([self.default(ty.e) for _ in range(ty.num)])
        if ty.k == "r": return Undef(z3.IntSort())
        n = ty.n
        if n == "std::optional": return Opt(z3.BoolVal(False), None)
        if n in VECS: return CVec([], ty.a[0])
        if n in PTRS: return lit(0)
        if n in STRS: return z3.StringVal("")
        if n == "std::array": return Tup([self.default(ty.a[0]) for _ in range(ty.a[1])])
        if n in ("std::pair", "std::tuple"): return Tup([self.default(a) for a in ty.a])
        if n in ("std::map", "std::set"):
            k = self.sorts(ty.a[0])[0]
            vt = ty.a[1] if n == "std::map" else None
            return Map(z3.K(k, z3.BoolVal(False)), ty.a[0], vt, [self.fresh("mapd", z3.ArraySort(k, s)) for s in (self.sorts(vt) if vt else [])])
        if n == "std::function": return lit(0)
        if n == "std::identity" or n.startswith("std::ranges::less") or n.startswith("std::ranges::equal_to"): return Struct("fnobj:" + n, {})
        if n == "std::allocator" or n.startswith("std::less"): return UNIT
        if n == "std::expected":
            return Struct("expected", {"has": z3.BoolVal(True), "val": self.default(ty.a[0]), "err": self.default(ty.a[1])})
        r = self.prog.record(ty)
        if r is None:
            raise Unsupported("default of " + ty.s)
        f = {}
        for b in r["bases"]:
            bv = self.default(self.prog.ty(r["tu"], b))
            f.update(bv.f)
        for fd in r["fields"]:
            t = self.prog.ty(r["tu"], fd["t"])
            if fd.get("init") is not None:
                fr = Frame({"tu": r["tu"], "q": "init"})
                self.frames.append(fr)
                try:
                    f[fd["n"]] = self.conv(self.rv(fd["init"]), t)
                finally:
                    self.frames.pop()
            else:
                f[fd["n"]] = self.default(t)
        return Struct(ty.s, f)

    def zero(self, ty):
        if ty.k in ("b",):
            s = self.sorts(ty)
            if not s: return UNIT
            if s[0] == z3.BoolSort(): return z3.BoolVal(False)
            if s[0] == z3.RealSort(): return z3.RealVal(0)
            return lit(0)
        if ty.k in ("e", "p"): return lit(0)
        if ty.k == "arr": return Tup([self.zero(ty.e) for _ in range(ty.num)])
        if ty.k == "rec" and ty.n == "std::array": return Tup([self.zero(ty.a[0]) for _ in range(ty.a[1])])
        if ty.k == "rec" and ty.n in ("std::pair", "std::tuple"): return Tup([self.zero(a) for a in ty.a])
        v = self.default(ty)
        if isinstance(v, Struct) and self.prog.record(ty) is not None:
            fs = {f: t for (_, f, t) in self.prog.fields(ty)}
            return Struct(v.cls, {k: (self.zero(fs[k]) if isinstance(x, Undef) else x) for k, x in v.f.items()})
        return v

    # ---- leaves -------------------------------------------------------------
    def flat(self, v, ty=None):
        """leaves in layout order; converts concrete vectors"""
        if isinstance(v, Undef): return [self.fresh("undef", v.sort)]
        if z3.is_expr(v): return [v]
        if isinstance(v, Struct):
            if v.cls == "expected":
                return [v.f["has"]] + self.flat(v.f["val"]) + self.flat(v.f["err"])
            out = []
            if ty is not None and ty.k == "rec" and self.prog.record(ty) is not None:
                for (_, f, t) in self.prog.fields(ty):
                    out += self.flat(v.f[f], t)
                return out
            for x in v.f.values():
                out += self.flat(x)
            return out
        if isinstance(v, Opt):
            if v.val is None:
                if ty is None: raise Unsupported("untyped empty optional")
                return [v.has] + [self.fresh("none", s) for s in self.sorts(ty.a[0])]
            return [v.has] + self.flat(v.val, ty.a[0] if ty is not None else None)
        if isinstance(v, CVec): v = self.tovec(v)
        if isinstance(v, Vec): return [v.n] + list(v.arr)
        if isinstance(v, Tup):
            ts = [None] * len(v.items)
            if ty is not None:
                if ty.k == "arr": ts = [ty.e] * len(v.items)
                elif ty.n == "std::array": ts = [ty.a[0]] * len(v.items)
                else: ts = ty.a
            return [l for x, t in zip(v.items, ts) for l in self.flat(x, t)]
        if isinstance(v, Map): return [v.has] + list(v.arr)
        if isinstance(v, Unit): return []
        if isinstance(v, Iter): return [v.i]
        if isinstance(v, LPtr):
            if isinstance(v.loc, CellLoc): return [self.spill(v.loc)]
        if isinstance(v, ObjLoc): return [v.ref]
        if isinstance(v, PyFn) or isinstance(v, Clo):
            if not hasattr(v, "handle"):
                self._clo = getattr(self, "_clo", 0) + 1
                v.handle = lit(1000000 + self._clo)
                self.__dict__.setdefault("closures", {})[1000000 + self._clo] = v
            return [v.handle]
        raise Unsupported(f"flat {type(v).__name__}")

    def spill(self, loc):
        raise Unsupported("address of a local stored in a container")

    def tovec(self, v):
        if isinstance(v, Vec): return v
        ss = self.sorts(v.ety)
        arr = [z3.K(z3.IntSort(), self.zero_of(s)) for s in ss]
        for i, x in enumerate(v.items):
            ls = self.flat(x, v.ety)
            arr = [z3.Store(a, lit(i), l) for a, l in zip(arr, ls)]
        return Vec(lit(len(v.items)), v.ety, arr)

    def zero_of(self, s):
        if s == z3.BoolSort(): return z3.BoolVal(False)
        if s == z3.RealSort(): return z3.RealVal(0)
        if s == z3.IntSort(): return lit(0)
        if s == z3.StringSort(): return z3.StringVal("")
        if isinstance(s, z3.ArraySortRef): return z3.K(s.domain(), self.zero_of(s.range()))
        raise Unsupported("zero of sort")

    def merge(self, c, a, b):
        if a is b: return a
        if isinstance(a, Undef): return b
        if isinstance(b, Undef): return a
        if z3.is_expr(a) and z3.is_expr(b):
            if a.eq(b): return a
            if a.sort() != b.sort(): raise NoMerge()
            return z3.If(c, a, b)
        if isinstance(a, (CVec, Vec)) and isinstance(b, (CVec, Vec)):
            if isinstance(a, CVec) and isinstance(b, CVec) and len(a.items) == len(b.items):
                return CVec([self.merge(c, x, y) for x, y in zip(a.items, b.items)], a.ety)
            try:
                a, b = self.tovec(a), self.tovec(b)
            except Unsupported:
                raise NoMerge()
            return Vec(self.merge(c, a.n, b.n), a.ety, [self.merge(c, x, y) for x, y in zip(a.arr, b.arr)])
        if type(a) is not type(b): raise NoMerge()
        if isinstance(a, Struct):
            if a.cls != b.cls: raise NoMerge()
            return Struct(a.cls, {k: self.merge(c, a.f[k], b.f[k]) for k in a.f})
        if isinstance(a, Opt):
            v = b.val if a.val is None else a.val if b.val is None else self.merge(c, a.val, b.val)
            return Opt(self.merge(c, a.has, b.has), v)
        if isinstance(a, Tup):
            if len(a.items) != len(b.items): raise NoMerge()
            return Tup([self.merge(c, x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, Map):
            return Map(self.merge(c, a.has, b.has), a.kty, a.vty, [self.merge(c, x, y) for x, y in zip(a.arr, b.arr)])
        if isinstance(a, Unit): return a
        if isinstance(a, Iter):
            if a.rev != b.rev or repr(a.loc) != repr(b.loc): raise NoMerge()
            return Iter(a.loc, self.merge(c, a.i, b.i), a.rev)
        if isinstance(a, LPtr):
            if repr(a.loc) == repr(b.loc): return a
        if isinstance(a, CellLoc) and repr(a) == repr(b): return a
        if isinstance(a, FieldLoc) and a.decl == b.decl and a.name == b.name and repr(a.path) == repr(b.path):
            return FieldLoc(self.merge(c, a.ref, b.ref), a.decl, a.name, a.ty, a.path)
        if isinstance(a, ObjLoc) and a.ty is b.ty: return ObjLoc(self.merge(c, a.ref, b.ref), a.ty)
        if isinstance(a, ValLoc): return ValLoc(self.merge(c, a.v, b.v))
        raise NoMerge()

    def rebuild(self, v, it, ty=None):
        """a value of the same shape with new leaves"""
        if isinstance(v, Undef): return next(it)
        if z3.is_expr(v): return next(it)
        if isinstance(v, Struct):
            return Struct(v.cls, {k: self.rebuild(x, it) for k, x in v.f.items()})
        if isinstance(v, Opt):
            h = next(it)
            return Opt(h, None if v.val is None else self.rebuild(v.val, it))
        if isinstance(v, CVec): v = self.tovec(v)
        if isinstance(v, Vec):
            n = next(it)
            return Vec(n, v.ety, [next(it) for _ in v.arr])
        if isinstance(v, Tup): return Tup([self.rebuild(x, it) for x in v.items])
        if isinstance(v, Map):
            h = next(it)
            return Map(h, v.kty, v.vty, [next(it) for _ in v.arr])
        if isinstance(v, Unit): return v
        if isinstance(v, Iter): return Iter(v.loc, next(it), v.rev)
        raise Unsupported(f"havoc of {type(v).__name__}")

    # ---- heap ---------------------------------------------------------------
    def heap_arrays(self, decl, name, ty):
        key = (decl, name)
        a = self.st.heap.get(key)
        if a is None:
            a = [z3.Const(f"H.{decl}.{name}.{i}", z3.ArraySort(z3.IntSort(), s)) for i, s in enumerate(self.sorts(ty))]
            self.st.heap[key] = a
            self.__dict__.setdefault("heap_tys", {})[key] = ty
        return a

    def sel(self, a, i):
        """select through stores with decidable index (dis)equality"""
        i = S(i) if not z3.is_int_value(i) else i
        while z3.is_app_of(a, z3.Z3_OP_STORE):
            j = a.arg(1)
            if j.eq(i): return a.arg(2)
            d = S(i - j)
            if z3.is_int_value(d) and d.as_long() != 0:
                a = a.arg(0)
                continue
            break
        if z3.is_app_of(a, z3.Z3_OP_CONST_ARRAY): return a.arg(0)
        return z3.Select(a, i)

    def heap_get(self, ref, decl, name, ty):
        v = self.build(ty, iter([self.sel(a, ref) for a in self.heap_arrays(decl, name, ty)]))
        if "iterator" in ty.s: v = self.map_iter(v, decl, ref, True)
        if self.has_enum(ty): self.type_inv(v, ty)
        return v

    def map_iter(self, v, decl, ref, out):
        """an iterator kept in a field designates the one list of that element type in the same object; kept as the position of
        its base element from the front, which appending and erasing behind it leave alone"""
        if isinstance(v, Opt): return Opt(v.has, None if v.val is None else self.map_iter(v.val, decl, ref, out))
        if not isinstance(v, Iter): return v
        r = self.prog.records.get(decl)
        cand = [f for f in (r or {}).get("fields", []) if self.prog.ty(r["tu"], f["t"]).n == "std::list"]
        if len(cand) != 1: raise Unsupported("iterator kept in an object")
        ft = self.prog.ty(r["tu"], cand[0]["t"])
        loc = FieldLoc(ref, decl, cand[0]["n"], ft)
        if not out and not (isinstance(v.loc, FieldLoc) and v.loc.name == loc.name and v.loc.ref.eq(ref) and not v.loc.path): raise Unsupported("iterator of another list kept in an object")
        n = self.heap_get(ref, decl, cand[0]["n"], ft).n
        return Iter(loc, S(n - v.i) if v.rev else v.i, v.rev)

    _he = {}

    def has_enum(self, ty):
        """the type holds an enumeration directly (not inside a sequence or behind a pointer)"""
        r = Interp._he.get(ty.s)
        if r is None:
            Interp._he[ty.s] = False
            if ty.k == "e": r = ty.n in self.prog.enums
            elif ty.k == "rec" and ty.n in VECS: r = True
            elif ty.k == "rec" and ty.n in ("std::array", "std::pair", "std::tuple"): r = any(self.has_enum(x) for x in ty.a if not isinstance(x, int))
            elif ty.k == "rec" and ty.n not in PTRS and ty.n not in STRS:
                r = any(self.has_enum(ft) for (_, _, ft) in self.prog.fields(ty)) if ty.n != "std::optional" else self.has_enum(ty.a[0])
            else: r = False
            Interp._he[ty.s] = r
        return r

    def type_inv(self, v, ty, g=None):
        """type invariant of values read from memory: an enumeration holds one of its declared values"""
        if ty.k == "e":
            if not z3.is_expr(v) or ty.n not in self.prog.enums or z3.is_int_value(v): return
            self.type_fact(v, lambda v: z3.Or(*[v == x["v"] for x in self.prog.enums[ty.n]]), g)
        elif isinstance(v, Vec):
            if not z3.is_expr(v.n) or z3.is_int_value(v.n): return
            self.type_fact(v.n, lambda n: n >= 0, g)
        elif isinstance(v, Tup):
            for x, t in zip(v.items, ty.a if ty.n != "std::array" else [ty.a[0]] * len(v.items)):
                if self.has_enum(t): self.type_inv(x, t, g)
        elif isinstance(v, Opt):
            if v.val is not None and ty.k == "rec" and ty.a: self.type_inv(v.val, ty.a[0], v.has if g is None else z3.And(g, v.has))
        elif isinstance(v, Struct):
            for (_, f, ft) in self.prog.fields(ty):
                if f in v.f and self.has_enum(ft): self.type_inv(v.f[f], ft, g)

    def type_fact(self, e, f, g):
        """recorded for every state when it concerns a whole-memory array (named after its field), else in this state only"""
        roots = []

        def go(x, idx):
            while True:
                if z3.is_app_of(x, z3.Z3_OP_STORE): x = x.arg(0)
                elif z3.is_app_of(x, z3.Z3_OP_ITE):
                    go(x.arg(1), idx); x = x.arg(2)
                elif z3.is_app_of(x, z3.Z3_OP_SELECT): idx = [x.arg(1)] + idx; x = x.arg(0)
                else: break
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith("H."):
                for i in idx: x = z3.Select(x, i)
                roots.append(x)
        if z3.is_app_of(e, z3.Z3_OP_SELECT): go(e, [])
        for r in roots:
            q = f(r)
            self.tyfacts[q.get_id()] = q
        if not (len(roots) == 1 and roots[0].eq(e)):
            q = f(e)
            self.assume(q if g is None else z3.Implies(g, q))

    def heap_set(self, ref, decl, name, ty, v):
        arrs = self.heap_arrays(decl, name, ty)
        if isinstance(v, Undef): return
        if "iterator" in ty.s: v = self.map_iter(v, decl, ref, False)
        if isinstance(v, (Struct, Tup)) and self.has_undef(v):
            old = self.heap_get(ref, decl, name, ty)
            v = self.fill_undef(v, old)
        ls = self.flat(v, ty)
        self.st.heap[(decl, name)] = [z3.Store(a, ref, l) for a, l in zip(arrs, ls)]

    def has_undef(self, v):
        if isinstance(v, Undef): return True
        if isinstance(v, Struct): return any(self.has_undef(x) for x in v.f.values())
        if isinstance(v, Tup): return any(self.has_undef(x) for x in v.items)
        return False

    def fill_undef(self, v, old):
        if isinstance(v, Undef): return old
        if isinstance(v, Struct): return Struct(v.cls, {k: self.fill_undef(x, old.f[k]) for k, x in v.f.items()})
        if isinstance(v, Tup): return Tup([self.fill_undef(x, y) for x, y in zip(v.items, old.items)])
        return v

    def new_ref(self):
        self.st.alloc = S(self.st.alloc - 1)
        self.newrefs[self.st.alloc.get_id()] = self.st.alloc
        return self.st.alloc

    # ---- locations ----------------------------------------------------------
    def new_cell(self, v, ty=None):
        self.st.ctr += 1
        i = self.st.ctr
        self.st.cells[i] = v
        if ty is not None: self.st.ctys[i] = ty
        return CellLoc(i)

    def sub(self, loc, el):
        if el[0] == "i":
            v = None
            if isinstance(loc, FieldLoc):
                t = self.path_ty(loc)
                ety = t.a[0] if t is not None and t.k == "rec" and t.n in VECS else None
            elif isinstance(loc, (CellLoc, ValLoc)):
                v = self.read(loc)
                ety = v.ety if isinstance(v, (Vec, CVec)) else None
            else: ety = None
            if ety is not None and ety.k == "rec" and ety.n in BYREF:
                v = self.read(loc)
                return ObjLoc(self.vec_get(v, el[1]), ety)
        if isinstance(loc, CellLoc): return CellLoc(loc.id, loc.path + (el,))
        if isinstance(loc, FieldLoc): return FieldLoc(loc.ref, loc.decl, loc.name, loc.ty, loc.path + (el,))
        if isinstance(loc, ValLoc): return ValLoc(self.follow(loc.v, (el,)))
        if isinstance(loc, ObjLoc):
            if el[0] == "f":
                for (d, f, t) in self.prog.fields(loc.ty):
                    if f == el[1]:
                        return FieldLoc(loc.ref, d, f, t)
                raise Unsupported(f"field {el[1]} of {loc.ty}")
            # element of a heap-allocated non-record (vector behind a pointer): box
            return FieldLoc(loc.ref, loc.ty.s, "*", loc.ty, (el,))
        raise Unsupported("sub")

    def vec_get(self, v, i):
        if isinstance(v, CVec):
            i = S(i)
            if z3.is_int_value(i):
                k = i.as_long()
                if 0 <= k < len(v.items): return v.items[k]
                if not v.items or not self.can_flat(v):
                    raise Unsupported("index outside a list")
            try:
                v = self.tovec(v)
            except Unsupported:
                r = v.items[-1]
                for k in range(len(v.items) - 2, -1, -1):
                    r = self.merge(i == k, v.items[k], r)
                return r
        return self.build(v.ety, iter([self.sel(a, i) for a in v.arr]))

    def can_flat(self, v):
        try:
            self.flat(v); return True
        except Unsupported:
            return False

    def vec_set(self, v, i, x):
        if isinstance(v, CVec):
            i = S(i)
            if z3.is_int_value(i) and 0 <= i.as_long() < len(v.items):
                it = list(v.items); it[i.as_long()] = x
                return CVec(it, v.ety)
            v = self.tovec(v)
        if isinstance(x, (Struct, Tup)) and self.has_undef(x):
            x = self.fill_undef(x, self.vec_get(v, i))
        return Vec(v.n, v.ety, [z3.Store(a, i, l) for a, l in zip(v.arr, self.flat(x, v.ety))])

    def follow(self, v, path):
        for el in path:
            if el[0] == "f":
                if not isinstance(v, Struct): raise Unsupported(f"field {el[1]} of {type(v).__name__}")
                if el[1] not in v.f: raise Unsupported(f"field {el[1]} of {v.cls}")
                v = v.f[el[1]]
            elif el[0] == "o":
                if v.val is None: raise Unsupported("value of an empty optional")
                v = v.val
            elif el[0] == "t":
                v = v.items[el[1]]
            elif el[0] == "i":
                if isinstance(v, (Vec, CVec)): v = self.vec_get(v, el[1])
                elif isinstance(v, Tup):
                    i = S(el[1])
                    if z3.is_int_value(i):
                        if i.as_long() >= len(v.items) or i.as_long() < 0: raise Unsupported("array index out of bounds")
                        v = v.items[i.as_long()]
                    else:
                        r = v.items[-1]
                        for k in range(len(v.items) - 2, -1, -1):
                            r = self.merge(i == k, v.items[k], r)
                        v = r
                else: raise Unsupported(f"index of {type(v).__name__}")
            elif el[0] == "m":     # map at key
                v = self.build(v.vty, iter([self.sel(a, el[1]) for a in v.arr]))
            else: raise Unsupported("path")
        return v

    def update(self, v, path, x):
        if not path: return x
        el, rest = path[0], path[1:]
        if el[0] == "f": return v.with_(el[1], self.update(v.f[el[1]], rest, x))
        if el[0] == "o": return Opt(v.has, self.update(v.val, rest, x))
        if el[0] == "t":
            it = list(v.items); it[el[1]] = self.update(it[el[1]], rest, x)
            return Tup(it)
        if el[0] == "i":
            if isinstance(v, (Vec, CVec)):
                return self.vec_set(v, el[1], self.update(self.vec_get(v, el[1]), rest, x) if rest else x)
            if isinstance(v, Tup):
                i = S(el[1])
                if z3.is_int_value(i):
                    it = list(v.items); it[i.as_long()] = self.update(it[i.as_long()], rest, x)
                    return Tup(it)
                return Tup([self.merge(i == k, self.update(o, rest, x), o) for k, o in enumerate(v.items)])
        if el[0] == "m":
            old = self.build(v.vty, iter([self.sel(a, el[1]) for a in v.arr]))
            nv = self.update(old, rest, x)
            return Map(v.has, v.kty, v.vty, [z3.Store(a, el[1], l) for a, l in zip(v.arr, self.flat(nv, v.vty))])
        raise Unsupported("update path")

    def read(self, loc):
        if isinstance(loc, CellLoc): return self.follow(self.st.cells[loc.id], loc.path)
        if isinstance(loc, FieldLoc): return self.follow(self.heap_get(loc.ref, loc.decl, loc.name, loc.ty), loc.path)
        if isinstance(loc, ValLoc): return loc.v
        if isinstance(loc, ObjLoc):
            if self.prog.record(loc.ty) is None:
                return self.heap_get(loc.ref, loc.ty.s, "*", loc.ty)
            return Struct(loc.ty.s, {f: self.heap_get(loc.ref, d, f, t) for (d, f, t) in self.prog.fields(loc.ty)})
        raise Unsupported("read")

    def write(self, loc, v):
        if isinstance(loc, CellLoc):
            self.st.cells[loc.id] = self.update(self.st.cells[loc.id], loc.path, v)
        elif isinstance(loc, FieldLoc):
            if loc.path:
                v = self.update(self.heap_get(loc.ref, loc.decl, loc.name, loc.ty), loc.path, v)
            self.heap_set(loc.ref, loc.decl, loc.name, loc.ty, v)
        elif isinstance(loc, ObjLoc):
            if self.prog.record(loc.ty) is None:
                self.heap_set(loc.ref, loc.ty.s, "*", loc.ty, v)
            else:
                for (d, f, t) in self.prog.fields(loc.ty):
                    if f in v.f: self.heap_set(loc.ref, d, f, t, v.f[f])
        elif isinstance(loc, ValLoc):
            loc.v = v
        else: raise Unsupported("write")

    def val(self, x):
        return self.read(x) if isinstance(x, Loc) else x

    def loc(self, x, ty=None):
        return x if isinstance(x, Loc) else self.new_cell(x, ty)

    def ptr(self, loc):
        if isinstance(loc, ObjLoc): return loc.ref
        if isinstance(loc, ValLoc): return LPtr(loc)
        return LPtr(loc)

    def deref(self, p, ty):
        """ty: pointee type"""
        if isinstance(p, LPtr): return p.loc
        if isinstance(p, Undef): raise Unsupported("deref of uninitialised pointer")
        if z3.is_expr(p):
            return ObjLoc(p, ty)
        if isinstance(p, (Clo, PyFn)): return ValLoc(p)
        raise Unsupported(f"deref {type(p).__name__}")

    # ---- path exploration ---------------------------------------------------
    def solver(self, tmo):
        s = z3.SolverFor("ALL") if False else z3.Solver()
        limits(s, tmo)
        return s

    def feasible(self, cond):
        key = (tuple(x.get_id() for x in self.st.pc), tuple(x.get_id() for x in self.st.facts), len(self.tyfacts), cond.get_id())
        r = self.feas_cache.get(key)
        if r is not None: return r[0]
        import time
        t = time.time()
        s = self.solver(self.feas_tmo)
        s.add(*self.st.pc); s.add(*[f for f in self.st.facts if not self.quantified(f)]); s.add(cond)
        s.add(*self.tyfacts.values())
        res = s.check() != z3.unsat
        self.stats.queries += 1; self.stats.time += time.time() - t
        self.feas_cache[key] = (res, list(self.st.pc), list(self.st.facts), cond)
        return res

    _qc = {}

    def quantified(self, f):
        i = f.get_id()
        r = Interp._qc.get(i)
        if r is not None and r[1].eq(f): return r[0]
        g = z3.Goal(); g.add(f)
        res = bool(z3.Probe("has-quantifiers")(g))
        Interp._qc[i] = (res, f)
        return res

    def assume(self, c):
        c = c if z3.is_expr(c) else z3.BoolVal(c)
        if is_true(c): return
        self.st.facts.append(c)

    def branch(self, cond):
        if isinstance(cond, bool): return cond
        if isinstance(cond, Undef): cond = self.fresh("undef", cond.sort)
        c = S(cond)
        if is_true(c): return True
        if is_false(c): return False
        t = self.tr[-1]
        if t.i < len(t.pre):
            d = t.pre[t.i]
        else:
            ft = self.feasible(c)
            ff = self.feasible(z3.Not(c)) if ft else True
            if ft and ff:
                t.alts.append(t.pre[:t.i] + [False])
                d = True
            else:
                d = ft
            t.pre.append(d)
        t.i += 1
        self.st.pc.append(c if d else z3.Not(c))
        return d

    def choose(self, n):
        if n == 1: return 0
        t = self.tr[-1]
        if t.i < len(t.pre):
            d = t.pre[t.i]
        else:
            for k in range(1, n):
                t.alts.append(t.pre[:t.i] + [k])
            d = 0
            t.pre.append(d)
        t.i += 1
        return d

    def explore(self, thunk):
        base = self.st
        nf = len(self.frames)
        pending = [[]]
        outs = []
        while pending:
            self.paths += 1
            if self.paths > self.max_paths: raise Unsupported("too many paths")
            if self.deadline is not None:
                import time
                if time.time() > self.deadline: raise Unsupported("time budget")
            pre = pending.pop()
            self.st = base.copy()
            self.tr.append(Trace(pre))
            dead = False
            try:
                r = thunk()
                outs.append((self.st, r))
            except Dead:
                pass
            finally:
                t = self.tr.pop()
                del self.frames[nf:]
            pending.extend(t.alts)
        self.st = base
        return outs

    def merge_outs(self, base, outs):
        """outs: [(state, result)] explored from base -> merges as much as possible, selects one; returns result"""
        groups = []
        for st, r in outs:
            for g in groups:
                m = self.try_merge(base, g, (st, r))
                if m is not None:
                    g[:] = m
                    break
            else:
                groups.append([st, r, None])
        if not groups:
            raise Dead()
        k = self.choose(len(groups))
        st, r = groups[k][0], groups[k][1]
        self.st = st
        return r

    def rmerge(self, c, a, b):
        if a is b: return a
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and a[0] == b[0]:
            return (a[0],) + tuple(self.rmerge(c, x, y) for x, y in zip(a[1:], b[1:]))
        if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
            if a == b: return a
            raise NoMerge()
        return self.merge(c, a, b)

    def try_merge(self, base, g, o):
        s1, r1 = g[0], g[1]
        s2, r2 = o
        np_ = len(base.pc); nf = len(base.facts)
        g1 = And(*s1.pc[np_:]); g2 = And(*s2.pc[np_:])
        try:
            r = self.rmerge(g1, r1, r2)
            st = base.copy()
            st.ctr = max(s1.ctr, s2.ctr)
            for k in set(s1.cells) | set(s2.cells):
                if k in s1.cells and k in s2.cells:
                    a, b = s1.cells[k], s2.cells[k]
                    if a is b: st.cells[k] = a
                    elif k in base.cells: st.cells[k] = self.merge(g1, a, b)
                    else:
                        try:
                            st.cells[k] = self.merge(g1, a, b)
                        except NoMerge:
                            if self.mentions(r, k): raise
                else:
                    st.cells[k] = s1.cells.get(k, s2.cells.get(k))
                if k in s1.ctys or k in s2.ctys: st.ctys[k] = s1.ctys.get(k, s2.ctys.get(k))
            for k in set(s1.heap) | set(s2.heap):
                a, b = s1.heap.get(k), s2.heap.get(k)
                if a is None or b is None:
                    ty = self.heap_tys[k]
                    dflt = [z3.Const(f"H.{k[0]}.{k[1]}.{i}", z3.ArraySort(z3.IntSort(), s)) for i, s in enumerate(self.sorts(ty))]
                    a = a or dflt; b = b or dflt
                st.heap[k] = [x if x.eq(y) else z3.If(g1, x, y) for x, y in zip(a, b)]
            st.alloc = s1.alloc if s1.alloc.eq(s2.alloc) else z3.If(g1, s1.alloc, s2.alloc)
            for k in set(s1.ghost) | set(s2.ghost):
                if isinstance(k, tuple) and k[0] == "k": st.ghost[k] = True; continue      # a loop counter made on one side only
                if s1.ghost.get(k) != s2.ghost.get(k): raise NoMerge()
                st.ghost[k] = s1.ghost[k]
            cond = S(z3.Or(g1, g2))
            if not is_true(cond): st.pc.append(cond)
            f1 = [f for f in s1.facts[nf:]]
            ids2 = {f.get_id() for f in s2.facts[nf:]}
            ids1 = {f.get_id() for f in f1}
            for f in f1:
                st.facts.append(f if f.get_id() in ids2 else z3.Implies(g1, f))
            for f in s2.facts[nf:]:
                if f.get_id() not in ids1: st.facts.append(z3.Implies(g2, f))
            return [st, r, None]
        except NoMerge:
            return None
        except Unsupported:
            return None

    def mentions(self, r, k):
        if isinstance(r, CellLoc): return r.id == k
        if isinstance(r, LPtr): return self.mentions(r.loc, k)
        if isinstance(r, tuple): return any(self.mentions(x, k) for x in r)
        if isinstance(r, Struct): return any(self.mentions(x, k) for x in r.f.values())
        if isinstance(r, (Tup, CVec)): return any(self.mentions(x, k) for x in r.items)
        return False

    def local(self, thunk):
        base = self.st
        outs = self.explore(thunk)
        return self.merge_outs(base, outs)

    # ---- obligations --------------------------------------------------------
    def oblige(self, name, goal):
        if self.dry: return
        g = S(goal) if z3.is_expr(goal) else z3.BoolVal(goal)
        if is_true(g):
            key = (name, "T")
            if key not in self.obl_seen:
                self.obl_seen.add(key)
                self.obls.append((name, [], g))
            return
        key = (name, g.get_id(), tuple(x.get_id() for x in self.st.pc), tuple(x.get_id() for x in self.st.facts))
        if key in self.obl_seen: return
        self.obl_seen.add(key)
        self.obls.append((name, list(self.st.pc) + list(self.st.facts), g))

    safety = False

    def used_havoc(self):
        """a contract that over-approximates its callee was applied"""
        return any(k == "post" for k in self.used_kinds)

    used_post = used_havoc
    used_kinds = ()

    def safe(self, name, cond):
        """no undefined behaviour at this point; an obligation when the contract asks for it, otherwise an assumption"""
        c = S(cond)
        if is_true(c): return
        if self.safety: self.oblige("safety: " + name, c)
        if is_false(c): raise Dead()
        self.st.facts.append(c)

    def make_value(self, t, args, e):
        if t.k == "rec" and t.n in BYREF: return self.alloc_obj(t, args, e)
        """value of type t constructed in place from args"""
        if t.k != "rec":
            return self.conv(self.val(args[0]), t) if args else self.zero(t)
        if len(args) == 1:
            v = self.val(args[0]) if not isinstance(args[0], ObjLoc) else None
            if isinstance(v, Struct) and v.cls == t.s: return v
            if t.n in VECS and isinstance(v, (Vec, CVec)): return v
            if t.n in PTRS or t.n in STRS or t.n == "std::function": return v
            if isinstance(args[0], ObjLoc) and args[0].ty is t: return self.read(args[0])
        h = self.lib.get("new:" + t.n)
        if h is not None: return h(self, t, {}, args, None)
        c = self.new_cell(self.default_raw(t), t)
        self.build_into(c, t, args, e, lambda: self.ptr(c))
        return self.read(c)

    def zero_init_state(self, t):
        return self.zero(t)

    # ---- functions ----------------------------------------------------------
    def fty(self, e):
        return self.prog.ty(self.frames[-1].tu, e["t"])

    def tyi(self, i):
        return self.prog.ty(self.frames[-1].tu, i)

    def run_body(self, fn, this, args, env=None):
        """args: list of Loc/Value matched with parameters; returns value/Loc"""
        if self.depth > 60: raise Unsupported("recursion")
        fr = Frame(fn, this, env)
        tu = fn["tu"]

        def thunk():
            self.frames.append(fr)
            self.depth += 1
            try:
                for p, a in zip(fn["params"], args):
                    pt = self.prog.ty(tu, p["t"])
                    if pt.k == "r":
                        fr.env[p["d"]] = self.loc(a, pt.e)
                    else:
                        fr.env[p["d"]] = self.new_cell(self.conv(self.val(a), pt), pt)
                if fn.get("ctor"):
                    self.ctor_inits(fn, fr)
                sig = self.stmt(fn["body"]) if fn.get("body") else None
                if sig is None: return ("ret", UNIT)
                if isinstance(sig, tuple) and sig[0] == "ret": return sig
                raise Unsupported("signal")
            finally:
                self.depth -= 1
                if self.frames and self.frames[-1] is fr: self.frames.pop()
        r = self.local(thunk)
        return r[1]

    def ctor_inits(self, fn, fr):
        tu = fn["tu"]
        this = fr.this
        cls = fn["cls"]
        cty = self.class_ty(fn)
        obj = self.deref(this, cty)
        for i in fn["inits"]:
            if i.get("deleg"):
                v = self.ev_ctor_into(i["e"], obj, cty)
            elif "base" in i:
                bt = self.prog.ty(tu, i["base"])
                self.ev_ctor_into(i["e"], obj, bt)
            else:
                target = self.sub(obj, ("f", i["f"]))
                ft = self.field_ty(cty, i["f"])
                if ft is not None and ft.k == "r":
                    self.write(target, self.ptr(self.loc(self.ev(i["e"]))))
                else:
                    self.write(target, self.conv(self.rv(i["e"]), ft) if ft is not None else self.rv(i["e"]))

    def field_ty(self, cty, name):
        for (_, f, t) in self.prog.fields(cty):
            if f == name: return t
        return None

    def class_ty(self, fn):
        c = fn["cls"]
        # templated classes: find the instance via 'clsty' when present
        if "clsty" in fn: return self.prog.ty(fn["tu"], fn["clsty"])
        for k in (c, f"{fn['tu']}:{c}"):
            if k in self.prog.tys: return self.prog.tys[k]
        raise Unsupported("class type " + c)

    def ev_ctor_into(self, e, obj, bt):
        """run constructor expression e on the (sub)object at obj viewed as bt"""
        if e is None: return
        if e["k"] == "Ctor":
            f = e["f"]
            if f.get("copy") or f.get("move"):
                v = self.rv(e["c"][0])
                for (_, n, t) in self.prog.fields(bt):
                    self.write(self.sub(obj, ("f", n)), v.f[n])
                return
            h = self.lib_ctor(bt, e, obj)
            if h: return
            fn = self.prog.fns.get(self.key(f))
            args = [self.ev(a) for a in e["c"]]
            if fn is not None:
                con = self.contract_of(fn)
                if con is not None:
                    return con.apply(self, self.as_base(obj, bt), args, fn, e)
                self.run_body(fn, self.ptr(self.as_base(obj, bt)), args)
                return
            if self.prog.record(bt) is not None and not e["c"]:
                d = self.default(bt)
                for (_, n, t) in self.prog.fields(bt):
                    self.write(self.sub(obj, ("f", n)), d.f[n])
                return
            raise Unsupported("base ctor " + f["q"])
        if e["k"] in ("InitList", "ValueInit"):
            v = self.rv(e)
            for (_, n, t) in self.prog.fields(bt):
                self.write(self.sub(obj, ("f", n)), v.f[n])
            return
        raise Unsupported("base init " + e["k"])

    def as_base(self, obj, bt):
        if isinstance(obj, ObjLoc): return obj
        return obj

    def lib_ctor(self, bt, e, obj):
        h = self.lib.get("ctor:" + (bt.n or ""))
        if h is None: return False
        return h(self, bt, e, obj)

    def key(self, f):
        return self.prog.fkey(self.frames[-1].tu, f["k"])

    def contract_of(self, fn):
        c = self.contracts.get(fn["key"])
        if c is None or (fn["key"] in self.verifying and not c.rec): return None
        return c

    def call_fn(self, fn, this, args, e=None):
        con = self.contract_of(fn)
        if con is not None:
            self.used.add(con.name)
            return con.apply(self, this, args, fn, e)
        if fn.get("body") is None and not fn.get("ctor"):
            raise Unsupported("no body " + fn["q"])
        self.inlined.add(fn["q"])
        return self.run_body(fn, this, args)

    def resolve_virtual(self, f, obj, fn):
        """obj: Loc"""
        k = f["k"]
        overs = self.prog.over.get(k, [])
        if not overs: return fn
        if isinstance(obj, ObjLoc):
            cls = obj.ty.s
        else:
            v = self.read(obj)
            cls = v.cls if isinstance(v, Struct) else None
        cands = []
        allb = [cls] + [b.s for b in self.prog.bases(cls)] if cls else []
        # nearest definition in cls's hierarchy
        for c in allb:
            for o in overs + [k]:
                g = self.prog.fns.get(o)
                if g is not None and g.get("cls") in (c, c.split("<")[0]):
                    if isinstance(obj, ObjLoc):
                        # is any strict descendant overriding?
                        for o2 in overs:
                            g2 = self.prog.fns.get(o2)
                            if g2 is not None and g2 is not g and c in [b.s for b in self.prog.bases(g2["cls"])]:
                                raise Unsupported("virtual dispatch on " + c)
                    return g
        raise Unsupported(f"virtual {f['q']} on {cls}")

    def call_method(self, f, obj, args, e):
        """obj: Loc of the implicit object"""
        key = self.key(f)
        q = f["q"]
        mk = self.mocks.get(q) or self.mocks.get((q, len(args)))
        if mk is not None and key not in self.verifying: return mk(self, obj, args)
        h = self.lib.get(q)
        fn = self.prog.fns.get(key)
        con = self.contracts.get(key)
        if con is not None and (key not in self.verifying or con.rec):
            self.used.add(con.name)
            return con.apply(self, obj, args, fn, e)
        vc = self.lib.get("virt:" + q)
        if vc is not None and f.get("virt"):
            r = vc(self, obj, args, e)
            if r is not None: return r
        if h is not None:
            self.libused.add(q)
            return h(self, obj, args, e)
        if f.get("virt") and not e.get("nonvirt"):
            fn = self.resolve_virtual(f, obj, fn)
        if fn is not None and fn.get("body") is not None:
            con = self.contract_of(fn)
            if con is not None:
                self.used.add(con.name)
                return con.apply(self, obj, args, fn, e)
            self.inlined.add(fn["q"])
            return self.run_body(fn, self.ptr(obj), args)
        if f.get("casg") or f.get("masg"):
            self.write(obj, self.val(args[0]))
            return obj
        cls = q.rsplit("::", 1)[0]
        h = self.lib.get(cls + "::*")
        if h is not None:
            self.libused.add(q)
            return h(self, obj, args, e)
        raise Unsupported("call " + q)

    def call_free(self, f, args, e):
        key = self.key(f)
        mk = self.mocks.get(f["q"]) or self.mocks.get((f["q"], len(args)))
        if mk is not None and key not in self.verifying: return mk(self, None, args)
        fn = self.prog.fns.get(key)
        con = self.contracts.get(key)
        if con is not None and key not in self.verifying:
            self.used.add(con.name)
            return con.apply(self, None, args, fn, e)
        h = self.lib.get(f["q"])
        if h is not None:
            self.libused.add(f["q"])
            return h(self, None, args, e)
        if fn is not None and fn.get("body") is not None:
            self.inlined.add(fn["q"])
            return self.run_body(fn, None, args)
        raise Unsupported("call " + f["q"])

    def call_value(self, callee, args, e=None):
        """call a closure value"""
        if z3.is_expr(callee) and z3.is_int_value(callee) and callee.as_long() in getattr(self, "closures", {}):
            callee = self.closures[callee.as_long()]
        if isinstance(callee, PyFn): return callee.fn(self, args)
        if isinstance(callee, Clo):
            op = None
            for o in callee.ops:
                fn = self.prog.fns[self.prog.fkey(callee.tu, o)]
                if len(fn["params"]) == len(args):
                    op = fn if op is None else op
                    if len(callee.ops) == 1: break
            if op is None: raise Unsupported("closure overload")
            if len(callee.ops) > 1:
                op = self.pick_op(callee, args, op)
                if e is not None and e.get("f"):      # the specialisation this call names
                    k = self.key(e["f"])
                    if any(self.prog.fkey(callee.tu, o) == k for o in callee.ops): op = self.prog.fns[k]
            return self.run_body(op, callee.this, args, dict(callee.caps))
        if z3.is_expr(callee) and callee.sort() == z3.IntSort() and getattr(self, "trace_calls", False):
            # unknown function value: what it does is not looked at, that it is called, and with what, is
            n, fs, xs = self.call_trace()
            k = self.sel(n[0], lit(0))
            self.st.heap[("Call!", "f")] = [z3.Store(fs[0], k, callee)]
            for i, a in enumerate(args):
                v = self.val(a)
                v = v.ref if isinstance(v, ObjLoc) else v
                self.st.heap[("Call!", f"a{i}")] = [z3.Store(xs[i][0], k, v)]
            self.st.heap[("Call!", "n")] = [z3.Store(n[0], lit(0), k + 1)]
            return UNIT
        if z3.is_expr(callee) and callee.sort() == z3.IntSort() and e is not None:
            # unknown function value: an uninterpreted pure function of its handle and arguments
            rt = self.fty(e)
            vs = [self.num(self.val(a)) for a in args]
            vs = [z3.ToReal(x) if x.sort() == z3.IntSort() and rt.k == "b" and rt.n == "double" else x for x in vs]
            ss = self.sorts(rt)
            if len(ss) != 1: raise Unsupported("call of opaque function value")
            f = z3.Function("apply_" + "_".join(str(x.sort()) for x in vs) + "_" + str(ss[0]), z3.IntSort(), *[x.sort() for x in vs], ss[0])
            return f(callee, *vs)
        raise Unsupported("call of opaque function value")

    def call_trace(self, st=None):
        """number of calls of unknown function values so far, their functions, their arguments (arrays over the call's number)"""
        st = st or self.st
        def arr(f):
            key = ("Call!", f)
            if key not in st.heap:
                st.heap[key] = [z3.Const(f"H.Call!.{f}.0", z3.ArraySort(z3.IntSort(), z3.IntSort()))]
                class T: pass
                t = T(); t.s = "Call!" + f; t.k = "ghost"
                self.sortcache[t.s] = [z3.IntSort()]
                self.__dict__.setdefault("heap_tys", {})[key] = t
            return st.heap[key]
        return arr("n"), arr("f"), [arr("a0"), arr("a1")]

    def pick_op(self, clo, args, dflt):
        return dflt

    def conv(self, v, ty):
        """adapt to declared type (bool/int/real literals)"""
        if ty is None: return v
        if ty.k == "rec" and ty.n == "std::optional" and isinstance(v, Struct) and v.cls == "nullopt":
            return Opt(z3.BoolVal(False), None)
        if ty.k == "rec" and ty.n == "std::optional" and not isinstance(v, (Opt, Undef)):
            return Opt(z3.BoolVal(True), self.conv(v, ty.a[0]))
        if ty.k == "rec" and ty.n in ("std::tuple", "std::pair") and isinstance(v, Tup) and len(v.items) == len(ty.a):
            return Tup([x if isinstance(x, Loc) else self.conv(x, t) for x, t in zip(v.items, ty.a)])
        if z3.is_expr(v) and ty.k == "b":
            ss = self.sorts(ty)
            if ss and v.sort() != ss[0]:
                if ss[0] == z3.RealSort() and v.sort() == z3.IntSort(): return z3.ToReal(v)
                if ss[0] == z3.IntSort() and v.sort() == z3.BoolSort(): return z3.If(v, lit(1), lit(0))
                if ss[0] == z3.BoolSort() and v.sort() == z3.IntSort(): return v != 0
        return v

    # ---- expressions --------------------------------------------------------
    def rv(self, e):
        return self.val(self.ev(e))

    def num(self, v):
        if isinstance(v, Undef): return self.fresh("undef", v.sort)
        if z3.is_expr(v): return v
        raise Unsupported(f"number expected, got {type(v).__name__}")

    def boolean(self, v):
        v = self.num(v) if not isinstance(v, LPtr) else z3.BoolVal(True)
        if v.sort() == z3.BoolSort(): return v
        return v != 0

    def ev(self, e):
        m = getattr(self, "e_" + e["k"], None)
        if m is None: raise Unsupported("expr " + e["k"] + " " + str(e.get("cls", "")))
        return m(e)

    def e_Int(self, e): return lit(int(e["v"]))
    def e_Bool(self, e): return z3.BoolVal(bool(e["v"]))
    def e_Enum(self, e): return lit(e["v"])
    def e_Null(self, e): return lit(0)
    def e_Str(self, e): return z3.StringVal("".join(c if ord(c) < 128 and c != "\\" else "\\u{%x}" % ord(c) for c in e["v"]))

    def e_Float(self, e):
        f = fractions.Fraction(float.fromhex(e["v"]))
        # decimal literals are meant as their shortest decimal spelling
        f = fractions.Fraction(repr(float.fromhex(e["v"])))
        return z3.RealVal(f)

    def e_ValueInit(self, e): return self.zero(self.fty(e))

    def e_SizeOf(self, e): return self.fresh("sizeof", z3.IntSort())

    def e_This(self, e):
        return self.frames[-1].this

    def e_Ref(self, e):
        fr = self.frames[-1]
        d = e.get("d")
        if d in fr.env: return fr.env[d]
        if "g" in e: return self.global_(e["g"], e)
        raise Unsupported("unbound " + e["n"])

    def global_(self, g, e=None):
        h = self.lib.get("var:" + g)
        if h is not None: return h(self, None, [], e)
        if g == "std::nullopt": return NULLOPT
        if g.startswith(("std::ranges", "std::views", "std::execution", "std::__pstl", "__pstl")) or "execution" in g or "::views::" in g:
            return Struct("fnobj:" + g, {})
        key = "g:" + g
        v = self.st.ghost.get(key)
        if v is not None: return v
        d = self.prog.vars.get(g)
        if d is None or d.get("init") is None:
            if g.startswith("std::ranges") or g.startswith("std::views") or "views" in g or "execution" in g:
                return Struct("fnobj:" + g, {})
            raise Unsupported("global " + g)
        fr = Frame({"tu": d["tu"], "q": "global"})
        self.frames.append(fr)
        try:
            ty = self.prog.ty(d["tu"], d["t"])
            v = self.conv(self.rv(d["init"]), ty)
            if ty.k == "rec" and isinstance(v, Tup) and self.prog.record(ty): pass
        finally:
            self.frames.pop()
        self.libused.add("global initial value " + g)
        return ValLoc(v)

    def e_Fn(self, e):
        f = e["f"]
        return PyFn(lambda I, args, f=f, tu=self.frames[-1].tu: I.call_by_key(f, tu, args))

    def call_by_key(self, f, tu, args):
        fr = Frame({"tu": tu, "q": "fnref"})
        self.frames.append(fr)
        try:
            return self.call_free(f, args, {"c": []})
        finally:
            self.frames.pop()

    def e_Member(self, e):
        b = self.ev(e["c"][0])
        if "f" in e: raise Unsupported("bound member function")
        if e["arrow"]:
            p = self.val(b)
            pt = self.fty(e["c"][0])
            loc = self.deref(p, self.pointee(pt))
        else:
            loc = b if isinstance(b, Loc) else ValLoc(b)
        r = self.member(loc, e["n"])
        ft = None
        if isinstance(r, FieldLoc): ft = r.ty
        else:
            ft = self.lookup_field_ty(e)
        if ft is not None and ft.k == "r":
            return self.deref(self.val(r), ft.e)
        return r

    def lookup_field_ty(self, e):
        c = e.get("cls")
        if c is None: return None
        for k in (c, f"{self.frames[-1].tu}:{c}"):
            r = self.prog.records.get(k)
            if r:
                for f in r["fields"]:
                    if f["n"] == e["n"]: return self.prog.ty(r["tu"], f["t"])
        bt = self.fty(e["c"][0])
        t = self.pointee(bt) if e["arrow"] else bt.strip()
        return self.field_ty(t, e["n"]) if t is not None and t.k == "rec" else None

    def member(self, loc, name):
        v = None
        if isinstance(loc, (CellLoc, ValLoc)):
            v = self.read(loc)
            if isinstance(v, Tup):    # pair.first / .second
                return self.sub(loc, ("t", {"first": 0, "second": 1}[name]))
        elif isinstance(loc, FieldLoc):
            t = self.path_ty(loc)
            if t is not None and t.k == "rec" and t.n == "std::pair":
                return self.sub(loc, ("t", {"first": 0, "second": 1}[name]))
        return self.sub(loc, ("f", name))

    def path_ty(self, loc):
        t = loc.ty
        for el in loc.path:
            if t is None: return None
            if el[0] == "f": t = self.field_ty(t, el[1])
            elif el[0] == "o": t = t.a[0]
            elif el[0] == "i": t = t.e if t.k == "arr" else t.a[0]
            elif el[0] == "t": t = t.a[0] if t.n == "std::array" else t.a[el[1]]
            elif el[0] == "m": t = t.a[1]
        return t

    def pointee(self, ty):
        ty = ty.strip()
        if ty.k == "p": return ty.e
        if ty.k == "rec" and ty.n in PTRS: return ty.a[0]
        raise Unsupported("pointee of " + ty.s)

    def e_DefaultArg(self, e): return self.ev(e["c"][0])

    def e_Cast(self, e):
        ck = e["ck"]; s = e["c"][0]
        if ck == "LValueToRValue":
            return self.val(self.ev(s))
        if ck in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "UserDefinedConversion", "ConstructorConversion",
                  "FunctionToPointerDecay", "ArrayToPointerDecay", "BitCast", "LValueBitCast"):
            v = self.ev(s)
            if ck in ("UncheckedDerivedToBase", "DerivedToBase", "BaseToDerived") and isinstance(v, ObjLoc):
                t = self.fty(e)
                if t.k == "rec" and ck == "BaseToDerived": return ObjLoc(v.ref, t)
            return v
        if ck == "ToVoid":
            self.ev(s)
            return UNIT
        v = self.rv(s)
        if ck == "NullToPointer": return lit(0)
        if ck == "IntegralToFloating": return z3.ToReal(self.num(v))
        if ck in ("FloatingCast",): return v
        if ck == "FloatingToIntegral":
            v = self.num(v)
            return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
        if ck in ("IntegralToBoolean", "FloatingToBoolean"): return self.num(v) != 0
        if ck in ("PointerToBoolean", "MemberPointerToBoolean"):
            return z3.BoolVal(True) if isinstance(v, LPtr) else self.num(v) != 0
        if ck == "IntegralCast":
            v = self.num(v)
            if v.sort() == z3.BoolSort(): return z3.If(v, lit(1), lit(0))
            t = self.fty(e)
            if t.k == "b" and t.n in UNSIGNED and not z3.is_int_value(S(v)):
                st = self.fty(s)
                if st.k == "b" and st.n in INTS and st.n not in UNSIGNED and st.n not in ("char",):
                    return z3.If(v >= 0, v, v + (1 << UNSIGNED[t.n]))
            elif t.k == "b" and t.n in UNSIGNED:
                k = S(v).as_long()
                return lit(k % (1 << UNSIGNED[t.n]))
            elif t.k == "b" and t.n in ("long", "int") and z3.is_int_value(S(v)):
                k = S(v).as_long(); w = 64 if t.n == "long" else 32
                k %= 1 << w
                return lit(k - (1 << w) if k >= 1 << (w - 1) else k)
            elif t.k == "b" and t.n in ("long", "int"):
                st = self.fty(s)
                if st.k == "b" and st.n in UNSIGNED and UNSIGNED[st.n] >= (64 if t.n == "long" else 32):
                    w = 64 if t.n == "long" else 32
                    return z3.If(v >= (1 << (w - 1)), v - (1 << w), v)
            return v
        if ck == "Dynamic":
            return self.dyncast(v, e)
        if ck == "BuiltinFnToFnPtr": return v
        raise Unsupported("cast " + ck)

    def dyncast(self, v, e):
        t = self.fty(e)
        tgt = t.e if t.k == "p" else t
        if isinstance(v, LPtr): raise Unsupported("dynamic_cast of local")
        tag = z3.Function("dyntype", z3.IntSort(), z3.IntSort())
        ids = self.__dict__.setdefault("type_ids", {})
        k = ids.setdefault(tgt.s, len(ids) + 1)
        return z3.If(z3.And(v != 0, tag(v) == k), v, lit(0))

    def arith(self, op, a, b, ty):
        a = self.num(a); b = self.num(b)
        if a.sort() == z3.BoolSort(): a = z3.If(a, lit(1), lit(0))
        if b.sort() == z3.BoolSort(): b = z3.If(b, lit(1), lit(0))
        real = a.sort() == z3.RealSort() or b.sort() == z3.RealSort()
        if real:
            if a.sort() != z3.RealSort(): a = z3.ToReal(a)
            if b.sort() != z3.RealSort(): b = z3.ToReal(b)
        if op == "+": return a + b
        if op == "*": return a * b
        if op == "-":
            if not real and ty is not None and ty.k == "b" and ty.n in UNSIGNED:
                d = S(a - b)
                if z3.is_int_value(d):
                    return lit(d.as_long() % (1 << UNSIGNED[ty.n]))
                return z3.If(a >= b, a - b, a - b + (1 << UNSIGNED[ty.n]))
            return a - b
        if op == "/":
            if real: return a / b
            if ty is not None and ty.k == "b" and ty.n in UNSIGNED: return a / b
            return z3.If(a >= 0, a / b, -((-a) / b)) if not z3.is_int_value(b) or b.as_long() <= 0 else z3.If(a >= 0, a / b, -((-a) / b))
        if op == "%":
            if ty is not None and ty.k == "b" and ty.n in UNSIGNED: return a % b
            return z3.If(a >= 0, a % b, -((-a) % b))
        raise Unsupported("op " + op)

    def compare(self, op, a, b):
        if isinstance(a, Iter) and isinstance(b, Iter):
            a, b = a.i, b.i
        if isinstance(a, (LPtr, Clo, PyFn)) or isinstance(b, (LPtr, Clo, PyFn)):
            if isinstance(a, LPtr) and isinstance(b, LPtr):
                r = self.loc_eq(a.loc, b.loc)
            else: r = z3.BoolVal(False)
            if op == "==": return r
            if op == "!=": return z3.Not(r)
            raise Unsupported("pointer order")
        a = self.num(a); b = self.num(b)
        if a.sort() != b.sort():
            if a.sort() == z3.BoolSort(): a = z3.If(a, lit(1), lit(0))
            if b.sort() == z3.BoolSort(): b = z3.If(b, lit(1), lit(0))
            if a.sort() == z3.RealSort() and b.sort() == z3.IntSort(): b = z3.ToReal(b)
            if b.sort() == z3.RealSort() and a.sort() == z3.IntSort(): a = z3.ToReal(a)
        return {"==": lambda: a == b, "!=": lambda: a != b, "<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b}[op]()

    def loc_eq(self, a, b):
        if type(a) is not type(b): return z3.BoolVal(False)
        if isinstance(a, CellLoc):
            if a.id != b.id or len(a.path) != len(b.path): return z3.BoolVal(False)
            c = []
            for x, y in zip(a.path, b.path):
                if x[0] != y[0]: return z3.BoolVal(False)
                if x[0] == "i": c.append(x[1] == y[1])
                elif x[1:] != y[1:]: return z3.BoolVal(False)
            return And(*c)
        if isinstance(a, FieldLoc):
            if (a.decl, a.name) != (b.decl, b.name) or repr(a.path) != repr(b.path): return z3.BoolVal(False)
            return a.ref == b.ref
        if isinstance(a, ObjLoc): return a.ref == b.ref
        return z3.BoolVal(a is b)

    def e_Binary(self, e):
        op = e["op"]
        if op in ("&&", "||"):
            l = self.boolean(self.rv(e["c"][0]))
            ls = S(l)
            if is_true(ls) or is_false(ls):
                if is_true(ls) == (op == "||"): return z3.BoolVal(op == "||")
                return self.boolean(self.rv(e["c"][1]))
            base = self.st

            def rest():
                if self.branch(l) == (op == "||"): return ("v", z3.BoolVal(op == "||"))
                return ("v", self.boolean(self.rv(e["c"][1])))
            return self.local(rest)[1]
        if op == "=":
            r = self.rv(e["c"][1])
            l = self.ev(e["c"][0])
            self.write(l, r)
            return l
        if op == ",":
            self.ev(e["c"][0])
            return self.ev(e["c"][1])
        a = self.rv(e["c"][0]); b = self.rv(e["c"][1])
        if op in ("==", "!=", "<", "<=", ">", ">="): return self.compare(op, a, b)
        if op == "<=>":
            a = self.num(a); b = self.num(b)
            return z3.If(a < b, lit(-1), z3.If(a > b, lit(1), lit(0)))
        if isinstance(a, Iter):
            return self.iter_add(a, b if op == "+" else -b)
        return self.arith(op, a, b, self.fty(e))

    def iter_add(self, it, n):
        return Iter(it.loc, S(it.i + n), it.rev)

    def e_CompoundAssign(self, e):
        r = self.rv(e["c"][1])
        l = self.ev(e["c"][0])
        t = self.fty(e)
        ct = self.tyi(e["ct"])
        v = self.arith(e["op"][:-1], self.val(l), r, ct)
        if t.k == "b" and t.n in INTS and v.sort() == z3.RealSort(): v = z3.ToInt(v)
        self.write(l, v)
        return l

    def e_Unary(self, e):
        op = e["op"]; s = e["c"][0]
        if op == "&":
            if s["k"] == "Fn": return self.e_Fn(s)
            return self.ptr(self.loc(self.ev(s)))
        if op == "*":
            p = self.rv(s)
            return self.deref(p, self.pointee(self.fty(s)) if not isinstance(p, LPtr) else None)
        if op == "!": return z3.Not(self.boolean(self.rv(s)))
        if op == "-":
            v = self.num(self.rv(s))
            return -v
        if op == "+": return self.rv(s)
        if op in ("++", "--"):
            l = self.ev(s)
            old = self.val(l)
            t = self.fty(s).strip()
            one = z3.RealVal(1) if old.sort() == z3.RealSort() else lit(1)
            self.write(l, S(self.arith("+" if op == "++" else "-", old, one, t)))
            return old if e["post"] else l
        raise Unsupported("unary " + op)

    def e_Cond(self, e):
        c = self.boolean(self.rv(e["c"][0]))
        lvals = bool(e.get("lv"))

        def br():
            r = self.ev(e["c"][1] if self.branch(c) else e["c"][2])
            return ("v", r if lvals else self.val(r))
        base = self.st
        return self.local(br)[1]

    def e_Index(self, e):
        b = self.ev(e["c"][0]); i = self.num(self.rv(e["c"][1]))
        return self.sub(self.loc(b), ("i", i))

    def e_StdInitList(self, e):
        v = self.rv(e["c"][0])
        t = self.fty(e)
        return CVec(v.items, t.a[0] if t.a else None)

    def e_InitList(self, e):
        t = self.fty(e)
        if t.k == "arr":
            items = [self.rv(c) for c in e["c"]]
            items = [self.conv(x, t.e) for x in items]
            while len(items) < t.num: items.append(self.rv(e["filler"]) if e.get("filler") else self.zero(t.e))
            return Tup(items)
        if t.k == "rec":
            if t.n == "std::array":
                if not e["c"]: return self.zero(t)
                v = self.rv(e["c"][0])
                if isinstance(v, Tup): return v
                return Tup([self.conv(self.rv(c), t.a[0]) for c in e["c"]])
            r = self.prog.record(t)
            if r is not None:
                f = {}
                cs = list(e["c"])
                i = 0
                for b in r["bases"]:
                    bt = self.prog.ty(r["tu"], b)
                    if i < len(cs):
                        v = self.rv(cs[i]) if cs[i] is not None else self.default(bt)
                        if isinstance(v, Struct): f.update(v.f)
                    i += 1
                for fd in r["fields"]:
                    ft = self.prog.ty(r["tu"], fd["t"])
                    if i < len(cs) and cs[i] is not None: f[fd["n"]] = self.conv(self.rv(cs[i]), ft)
                    else: f[fd["n"]] = self.zero(ft)
                    i += 1
                return Struct(t.s, f)
        if len(e["c"]) == 1: return self.ev(e["c"][0])
        if not e["c"]: return self.zero(t)
        raise Unsupported("init list of " + t.s)

    def e_Lambda(self, e):
        caps = {}
        this = None
        for c in e["caps"]:
            if c.get("this"):
                this = self.frames[-1].this
            elif "init" in c:
                v = self.ev(c["init"])
                caps[c["d"]] = v if (c.get("byref") and isinstance(v, Loc)) else self.new_cell(self.val(v))
            else:
                src = self.frames[-1].env.get(c["d"])
                if src is None: raise Unsupported("capture " + c["n"])
                caps[c["d"]] = src if c["byref"] else self.new_cell(self.val(src))
        return Clo(e["ops"], caps, this, self.frames[-1].tu)

    def e_New(self, e):
        t = self.tyi(e["at"])
        r = self.new_ref()
        v = self.rv(e["c"][0]) if e["c"][0] is not None else self.default(t)
        self.write(ObjLoc(r, t), v)
        return r

    def e_Throw(self, e): raise Unsupported("throw")

    # ---- construction -------------------------------------------------------
    def construct(self, t, f, args, e=None, into=None):
        """value of record type t by constructor f (JSON callee) with evaluated args"""
        if (f.get("copy") or f.get("move")) and len(args) >= 1 and (f.get("impl") or not f.get("src")):
            v = self.val(args[0])
            if f.get("move") and isinstance(args[0], (CellLoc, FieldLoc)) and isinstance(v, (Vec, CVec)):
                self.write(args[0], CVec([], v.ety))
            return v
        h = self.lib.get("new:" + t.n)
        if h is not None:
            self.libused.add("new:" + t.n)
            return h(self, t, f, args, e)
        fn = self.prog.fns.get(self.key(f))
        if fn is not None:
            if fn.get("defaulted") and not fn.get("inits") and not args:
                return self.default(t)
            obj = into or self.new_cell(self.default_raw(t), t)
            con = self.contract_of(fn)
            if con is not None:
                self.used.add(con.name)
                con.apply(self, obj, args, fn, e)
            else:
                self.inlined.add(fn["q"])
                self.run_body(fn, self.ptr(obj), args)
            return obj if into is not None else self.read(obj)
        if not args and self.prog.record(t) is not None:
            return self.default(t)
        if t.n and t.n.startswith("std::less"): return UNIT
        raise Unsupported("construct " + t.s)

    def default_raw(self, t):
        """object storage before construction: every scalar undefined"""
        r = self.prog.record(t)
        f = {}
        for (_, n, ft) in self.prog.fields(t):
            try:
                f[n] = self.default_raw(ft) if self.prog.record(ft) is not None and ft.k == "rec" else (self.default(ft) if ft.k == "rec" else self.undef(ft))
            except Unsupported:
                f[n] = Undef(z3.IntSort())
        return Struct(t.s, f)

    def undef(self, ft):
        if ft.k == "arr": return Tup([self.undef(ft.e)] * ft.num)
        ss = self.sorts(ft)
        return Undef(ss[0]) if ss else UNIT

    def e_Ctor(self, e):
        t = self.fty(e)
        f = e["f"]
        if t.k == "rec" and t.n.startswith("Progress"): return UNIT
        args = [self.ev(a) for a in e["c"]]
        if f.get("silist") or e.get("silist"): pass
        return self.construct(t, f, args, e)

    def alloc_obj(self, t, f_args, e):
        """make_shared/make_unique<t>(args)"""
        r = self.new_ref()
        obj = ObjLoc(r, t)
        rec = self.prog.record(t)
        if rec is None: # non record payload
            self.write(obj, self.conv(self.val(f_args[0]), t))
            return r
        self.build_into(obj, t, f_args, e, lambda: r)
        return r

    def build_into(self, obj, t, f_args, e, this):
        # the constructor: by arity/types amongst the constructors of the class
        cname = t.n.rsplit("::", 1)[-1]
        base_q = t.n + "::" + cname
        cands = [self.prog.fns[k] for k in self.prog.byq.get(base_q, []) if self.prog.fns[k].get("ctor")]
        best = None
        for fn in cands:
            np_ = len(fn["params"])
            if np_ < len(f_args): continue
            if t.a and fn.get("clsty") is not None and self.prog.ty(fn["tu"], fn["clsty"]) is not t: continue
            sc = self.match_args(fn, f_args)
            if sc is None: continue
            st = self.match_static(fn, e, len(f_args))
            if st is None: continue
            sc += st
            if np_ > len(f_args):
                if not all(p.get("def") is not None for p in fn["params"][len(f_args):]): continue
            if best is None or sc > best[0]: best = (sc, fn)
        if best is None:
            if not f_args:
                self.write(obj, self.default(t))
                return
            v = self.val(f_args[0])
            if len(f_args) == 1 and isinstance(v, Struct) and v.cls == t.s:
                self.write(obj, v)
                return
            raise Unsupported("constructor of " + t.s)
        fn = best[1]
        args = list(f_args)
        for p in fn["params"][len(f_args):]:
            fr = Frame(fn)
            self.frames.append(fr)
            try:
                args.append(self.ev(p["def"]))
            finally:
                self.frames.pop()
        con = self.contract_of(fn)
        if con is not None:
            self.used.add(con.name)
            con.apply(self, obj, args, fn, e)
        else:
            self.inlined.add(fn["q"])
            self.run_body(fn, this(), args)

    def match_static(self, fn, e, n):
        """pointer arguments against pointer parameters, by their declared types"""
        cs = (e or {}).get("c") or []
        if len(cs) != n: return 0
        sc = 0
        for p, a in zip(fn["params"], cs):
            if a is None or "t" not in a: continue
            pt = self.prog.ty(fn["tu"], p["t"]).strip()
            at = self.fty(a)
            at = at.strip() if at is not None else None
            if at is None or at.k != "p": continue
            if pt.k == "p":
                x, y = at.e.s, pt.e.s
                if x == y: sc += 3
                elif y in [b.s for b in self.prog.bases(at.e)]: sc += 1
                elif at.e.n == "void" or at.e.n is None: pass
                else: return None
        return sc

    def match_args(self, fn, args):
        sc = 0
        for p, a in zip(fn["params"], args):
            pt = self.prog.ty(fn["tu"], p["t"]).strip()
            v = self.val(a) if not isinstance(a, ObjLoc) else a
            if isinstance(v, ObjLoc):
                if pt.k != "rec": return None
                continue
            if z3.is_expr(v):
                try:
                    ss = self.sorts(pt)
                except Unsupported:
                    return None
                if len(ss) != 1: return None
                if ss[0] == v.sort(): sc += 2
                elif ss[0] == z3.RealSort() and v.sort() == z3.IntSort(): sc += 1
                else: return None
            elif isinstance(v, Struct):
                if pt.k != "rec": return None
                if v.cls == pt.s: sc += 2
                elif pt.n == "std::optional": sc += 1
                elif pt.s in [b.s for b in self.prog.bases(v.cls)]: sc += 1
                else: return None
            elif isinstance(v, LPtr):
                if pt.k != "p": return None
                sc += 1
        return sc

    # ---- calls --------------------------------------------------------------
    def e_Call(self, e):
        if "f" not in e:
            c = self.rv(e["fe"])
            return self.call_value(c, [self.ev(a) for a in e["c"]], e)
        f = e["f"]
        if f["q"].startswith("Progress"):
            return Tup([UNIT, lit(0), lit(0)]) if f["q"].endswith("::build") else UNIT
        h = self.lib.get("raw:" + f["q"])
        if h is not None: return h(self, e)
        args = [self.ev(a) for a in e["c"]]
        return self.call_free(f, args, e)

    def e_MCall(self, e):
        f = e.get("f")
        if f is None: raise Unsupported("member pointer call")
        q = f["q"]
        if q.startswith("Progress"):
            for a in e["c"]:
                try: self.ev(a)
                except Unsupported: pass
            return UNIT
        o = self.ev(e["obj"])
        if e.get("arrow"):
            p = self.val(o)
            pt = self.fty(e["obj"])
            obj = self.deref(p, self.pointee(pt)) if not isinstance(p, LPtr) else p.loc
        else:
            obj = o if isinstance(o, Loc) else ValLoc(o)
        args = [self.ev(a) for a in e["c"]]
        v = None
        if isinstance(obj, (CellLoc, ValLoc)):
            v = self.read(obj)
            if isinstance(v, (Clo, PyFn)): return self.call_value(v, args, e)
        return self.call_method(f, obj, args, e)

    def e_OpCall(self, e):
        f = e.get("f")
        if f is None: raise Unsupported("opcall")
        if f["q"].startswith("Progress"): return UNIT
        h = self.lib.get("raw:" + f["q"])
        if h is not None: return h(self, e)
        args = [self.ev(a) for a in e["c"]]
        if f.get("m"):
            obj = args[0] if isinstance(args[0], Loc) else ValLoc(args[0])
            if e["op"] == "()":
                v = self.val(args[0])
                if isinstance(v, (Clo, PyFn)): return self.call_value(v, args[1:], e)
            return self.call_method(f, obj, args[1:], e)
        if e["op"] == "()" and args:
            v = self.val(args[0])
            if isinstance(v, (Clo, PyFn)): return self.call_value(v, args[1:], e)
        return self.call_free(f, args, e)

    # ---- statements ---------------------------------------------------------
    def stmt(self, s):
        if s is None: return None
        m = getattr(self, "s_" + s["k"], None)
        if m is None: raise Unsupported("stmt " + s["k"] + " " + str(s.get("cls", "")))
        return m(s)

    def s_Block(self, s):
        for c in s["c"]:
            r = self.stmt(c)
            if self.cut is not None and r is None and s is self.frames[-1].fn.get("body") and self.frames[-1].fn["key"] in self.verifying: self.cut()
            if r is not None: return r
        return None

    def s_Nop(self, s): return None
    def s_Break(self, s): return ("brk",)
    def s_Continue(self, s): return ("cont",)

    def s_Expr(self, s):
        self.ev(s["c"][0])
        return None

    def s_Decl(self, s):
        for v in s["c"]: self.declare(v)
        return None

    def declare(self, v):
        env = self.frames[-1].env
        t = self.tyi(v["t"])
        if t.k == "rec" and t.n.startswith("Progress"):
            env[v["d"]] = ValLoc(UNIT); return
        if "bind" in v:
            x = self.ev(v["init"])
            base = x if (isinstance(x, Loc) and t.k == "r") else self.new_cell(self.val(x))
            bv = self.read(base) if not isinstance(base, ObjLoc) else None
            for i, b in enumerate(v["bind"]):
                if isinstance(bv, Tup):
                    el = bv.items[i]
                    loc = el if isinstance(el, Loc) else self.sub(base, ("t", i))
                elif isinstance(bv, Struct):
                    loc = self.sub(base, ("f", list(bv.f)[i]))
                else: raise Unsupported("binding")
                env[b["d"]] = loc
                if "hd" in b: env[b["hd"]] = loc
            return
        if t.k == "r":
            x = self.ev(v["init"])
            env[v["d"]] = x if isinstance(x, Loc) else self.new_cell(x, t.e)
            return
        if v.get("static"): raise Unsupported("static local")
        if v.get("init") is not None:
            x = self.conv(self.rv(v["init"]), t)
        else:
            x = self.default(t)
        env[v["d"]] = self.new_cell(x, t)

    def s_Return(self, s):
        e = s["c"][0]
        if e is None: return ("ret", UNIT)
        v = self.ev(e)
        rt = self.prog.ty(self.frames[-1].tu, self.frames[-1].fn["ret"])
        if rt.k == "r":
            return ("ret", v if isinstance(v, Loc) else ValLoc(v))
        return ("ret", self.conv(self.val(v), rt))

    def s_If(self, s):
        if s.get("init"): self.stmt(s["init"])
        if s.get("cv"): self.declare(s["cv"])
        c = self.boolean(self.rv(s["cond"]))
        cs = S(c)
        if is_true(cs): return self.stmt(s["then"])
        if is_false(cs): return self.stmt(s["else"]) if s.get("else") else None
        base = self.st

        def br():
            if self.branch(cs): return self.wrap(self.stmt(s["then"]))
            return self.wrap(self.stmt(s["else"]) if s.get("else") else None)
        return self.unwrap(self.local(br))

    def wrap(self, sig): return ("none",) if sig is None else sig
    def unwrap(self, sig): return None if sig == ("none",) else sig

    def s_Switch(self, s):
        if s.get("init"): self.stmt(s["init"])
        c = self.num(self.rv(s["cond"]))
        # type invariant: an enumeration holds one of its declared values
        x = s["cond"]
        while x.get("k") == "Cast" and x.get("ck") in ("IntegralCast", "NoOp", "LValueToRValue"): x = x["c"][0]
        try: et = self.fty(x).strip()
        except Exception: et = None
        if et is not None and et.k == "e" and et.n in self.prog.enums: self.assume(z3.Or(*[c == v["v"] for v in self.prog.enums[et.n]]))
        body = s["body"]["c"] if s["body"]["k"] == "Block" else [s["body"]]
        # flatten case labels
        items = []
        for st in body:
            labels = []
            x = st
            while x is not None and x["k"] in ("Case", "Default"):
                labels.append(x.get("v") if x["k"] == "Case" else "default")
                x = x["c"][0]
            items.append((labels, x))
        alll = [l for ls, _ in items for l in ls if l != "default"]

        def run(start):
            for _, x in items[start:]:
                r = self.stmt(x)
                if r is not None:
                    return None if r == ("brk",) else r
            return None
        base = self.st

        def br():
            for i, (ls, _) in enumerate(items):
                for l in ls:
                    if l == "default": continue
                    if self.branch(c == l): return self.wrap(run(i))
            for i, (ls, _) in enumerate(items):
                if "default" in ls: return self.wrap(run(i))
            return ("none",)
        if z3.is_int_value(S(c)): return self.unwrap(br())
        return self.unwrap(self.local(br))

    # ---- loops --------------------------------------------------------------
    def s_While(self, s):
        def guard():
            if s.get("cv"): self.declare(s["cv"])
            return self.boolean(self.rv(s["cond"]))
        return self.loop(guard, lambda: self.stmt(s["body"]), lambda: None, s)

    def s_For(self, s):
        if s.get("init"): self.stmt(s["init"])
        return self.loop(lambda: self.boolean(self.rv(s["cond"])) if s.get("cond") else z3.BoolVal(True),
                         lambda: self.stmt(s["body"]), lambda: self.ev(s["inc"]) if s.get("inc") else None, s)

    def s_Do(self, s):
        flag = self.new_cell(z3.BoolVal(True))

        def guard():
            f = self.read(flag)
            if is_true(S(f)): return z3.BoolVal(True)
            return self.boolean(self.rv(s["cond"]))
        # do { body } while(c): first iteration unconditionally

        def first():
            r = self.stmt(s["body"])
            return self.wrap(r)
        sig = self.unwrap(self.local(first))
        if sig == ("brk",): return None
        if sig is not None and sig != ("cont",): return sig
        return self.loop(lambda: self.boolean(self.rv(s["cond"])), lambda: self.stmt(s["body"]), lambda: None, s)

    def seq_of(self, x):
        """(n, getter) for anything iterable"""
        if isinstance(x, View): return x.n, x.get
        if isinstance(x, Loc):
            v = self.read(x) if not isinstance(x, FieldLoc) else None
            if isinstance(v, View): return v.n, v.get
            if isinstance(x, FieldLoc):
                t = self.path_ty(x)
                if t is not None and t.k == "rec" and t.n in VECS:
                    v = self.read(x)
                else: v = self.read(x)
        else:
            v = x
            x = ValLoc(v)
        if isinstance(v, (Vec, CVec)): return v.n, (lambda k: self.sub(x, ("i", k)))
        if isinstance(v, Tup): return lit(len(v.items)), (lambda k: self.sub(x, ("i", k)))
        raise Unsupported(f"iteration over {type(v).__name__}")

    def s_RangeFor(self, s):
        if s.get("init"): self.stmt(s["init"])
        r = self.ev(s["range"])
        n, get = self.seq_of(r)
        n = S(n)
        var = s["var"]
        vt = self.tyi(var["t"])

        def bind(k):
            el = get(k)
            env = self.frames[-1].env
            if "bind" in var:
                base = el if (isinstance(el, Loc) and vt.k == "r") else self.new_cell(self.val(el))
                bv = self.read(base)
                for i, b in enumerate(var["bind"]):
                    if isinstance(bv, Tup):
                        x = bv.items[i]
                        loc = x if isinstance(x, Loc) else self.sub(base, ("t", i))
                    elif isinstance(bv, Struct): loc = self.sub(base, ("f", list(bv.f)[i]))
                    else: raise Unsupported("binding")
                    env[b["d"]] = loc
                    if "hd" in b: env[b["hd"]] = loc
            elif vt.k == "r":
                env[var["d"]] = el if isinstance(el, Loc) else self.new_cell(el, vt.e)
            else:
                env[var["d"]] = self.new_cell(self.conv(self.val(el), vt), vt)
        kc = self.new_cell(lit(0), self.prog.tys.get("unsigned long"))
        self.st.ghost[("k", kc.id)] = True
        return self.loop(lambda: self.read(kc) < n, lambda: (bind(self.read(kc)), self.stmt(s["body"]))[1],
                         lambda: self.write(kc, S(self.read(kc) + 1)), s, seq=(r, n, get), ghost=kc)

    def loop(self, guard, body, inc, s, seq=None, ghost=None):
        # concrete unrolling
        count = 0
        if seq is None and s.get("k") in ("For", "While") and self.forever(s):
            return self.loop_bounded(guard, body, inc, s) if self.mode == "bounded" else self.loop_inv(guard, body, inc, s, seq, ghost)
        while True:
            if count > 400: raise Unsupported("unrolling")
            nf = len(self.st.facts)
            st0 = self.st.copy()
            g = self.num(guard())
            g = S(g)
            if is_false(g): return None
            if not is_true(g):
                if self.mode == "bounded":
                    return self.loop_bounded(guard, body, inc, s)
                self.st = st0
                return self.loop_inv(guard, body, inc, s, seq, ghost)
            r = self.iter_once(body)
            if r == ("brk",): return None
            if r is not None and r != ("cont",): return r
            inc()
            count += 1

    def forever(self, s):
        """the loop is left by break or return only"""
        e = s.get("cond")
        while e is not None and e.get("k") in ("Paren", "Cast", "ImplicitCast", "Cleanups"): e = e.get("e") or e.get("sub")
        return e is None or (e.get("k") in ("Bool", "BoolLit", "Int", "IntLit") and bool(e.get("v")))

    def iter_once(self, body):
        return self.unwrap(self.local(lambda: self.wrap(body())))

    def loop_bounded(self, guard, body, inc, s):
        for _ in range(self.unroll):
            g = self.num(guard())
            if not self.branch(g): return None
            r = self.iter_once(body)
            if r == ("brk",): return None
            if r is not None and r != ("cont",): return r
            inc()
        g = self.num(guard())
        if self.branch(g):
            self.truncated = True
            raise Dead()
        return None

    def changed(self, a, b):
        """keys differing between states a (earlier) and b"""
        ch = set()
        for k, v in a.cells.items():
            w = b.cells.get(k)
            if w is not v and not self.same(v, w):
                ch.add(("c", k))
                ch |= self.changed_parts(k, v, w)
        for k, v in b.heap.items():
            w = a.heap.get(k)
            if w is None:
                ty = self.heap_tys[k]
                w = [z3.Const(f"H.{k[0]}.{k[1]}.{i}", z3.ArraySort(z3.IntSort(), so)) for i, so in enumerate(self.sorts(ty))]
            if any(not x.eq(y) for x, y in zip(v, w)): ch.add(("h", k))
        if not a.alloc.eq(b.alloc): ch.add(("alloc",))
        for k in set(a.ghost) | set(b.ghost):
            if a.ghost.get(k) != b.ghost.get(k) and not (isinstance(k, tuple) and k[0] == "k"):
                raise Unsupported("ghost effect in a loop: " + str(k))
        return ch

    def changed_parts(self, k, v, w):
        """which components of an aggregate differ; ("cf", k) when it must be taken as a whole"""
        if isinstance(v, (Struct, Tup)) and type(v) is type(w) and not self.deep_unshaped(v) and not self.deep_unshaped(w):
            try: a, b = self.flat0(v), self.flat0(w)
            except Unsupported: return {("cf", k)}
            if len(a) == len(b): return {("cc", k, i) for i, (x, y) in enumerate(zip(a, b)) if not (x is y or (z3.is_expr(x) and z3.is_expr(y) and x.eq(y)))}
        return {("cf", k)}

    def same(self, a, b):
        if a is b: return True
        if type(a) is not type(b): return False
        if z3.is_expr(a): return a.eq(b)
        try:
            fa, fb = self.flat0(a), self.flat0(b)
        except Unsupported:
            return repr(a) == repr(b)
        return len(fa) == len(fb) and all(x is y or (z3.is_expr(x) and z3.is_expr(y) and x.eq(y)) for x, y in zip(fa, fb))

    def flat0(self, v):
        if isinstance(v, Undef): return [v]
        if z3.is_expr(v): return [v]
        if isinstance(v, Struct): return [l for x in v.f.values() for l in self.flat0(x)]
        if isinstance(v, Opt): return [v.has] + (self.flat0(v.val) if v.val is not None else [])
        if isinstance(v, CVec): return [l for x in v.items for l in self.flat0(x)]
        if isinstance(v, Vec): return [v.n] + list(v.arr)
        if isinstance(v, Tup): return [l for x in v.items for l in self.flat0(x)]
        if isinstance(v, Map): return [v.has] + list(v.arr)
        if isinstance(v, Iter): return [v.i]
        if isinstance(v, Unit): return []
        raise Unsupported("flat0")

    def havoc(self, mod):
        for m in sorted(mod, key=repr):
            if m[0] == "c":
                v = self.st.cells[m[1]]
                ty = self.st.ctys.get(m[1])
                if isinstance(v, (CVec, Vec)):
                    ety = v.ety
                    nv = Vec(self.fresh("n", z3.IntSort()), ety, [self.fresh("arr", z3.ArraySort(z3.IntSort(), so)) for so in self.sorts(ety)])
                    self.assume(nv.n >= 0)
                elif isinstance(v, Opt) and v.val is None and ty is not None:
                    nv = self.fresh_val(ty, "hv")
                elif isinstance(v, Iter):
                    nv = Iter(v.loc, self.fresh("it", z3.IntSort()), v.rev)
                elif isinstance(v, Struct) and ty is not None and self.deep_unshaped(v):
                    nv = self.fresh_val(ty, "hv")
                    self.wf(nv)
                else:
                    ls = self.flat0(v)
                    part = None if ("cf", m[1]) in mod else {q[2] for q in mod if q[0] == "cc" and q[1] == m[1]}
                    fr = [l if part is not None and i not in part and z3.is_expr(l) else self.fresh("hv", l.sort if isinstance(l, Undef) else l.sort()) for i, l in enumerate(ls)]
                    nv = self.rebuild(v, iter(fr))
                    if ty is not None and ty.k == "b" and ty.n in UNSIGNED: self.assume(fr[0] >= 0)
                    if ty is not None and ty.k == "e" and ty.n in self.prog.enums:
                        self.assume(z3.Or(*[fr[0] == x["v"] for x in self.prog.enums[ty.n]]))
                self.st.cells[m[1]] = nv
            elif m[0] == "h":
                k = m[1]
                self.st.heap[k] = [self.fresh(f"H.{k[0]}.{k[1]}.{i}~", z3.ArraySort(z3.IntSort(), so)) for i, so in enumerate(self.sorts(self.heap_tys[k]))]
            elif m[0] == "alloc":
                a = self.fresh("alloc", z3.IntSort())
                self.assume(a <= self.st.alloc)
                self.st.alloc = a
        r, t = z3.Ints("used!r used!t")
        for m in mod:            # nothing was given a state at a timepoint that does not exist yet
            if m[0] == "h" and m[1][1] == "used!":
                x = z3.Select(z3.Select(self.st.heap[m[1]][0], r), t)
                self.assume(z3.ForAll([r, t], z3.Implies(t < self.st.alloc, z3.Not(x)), patterns=[x]))

    def deep_unshaped(self, v):
        if isinstance(v, (CVec,)): return True
        if isinstance(v, Opt): return v.val is None or self.deep_unshaped(v.val)
        if isinstance(v, Struct): return any(self.deep_unshaped(x) for x in v.f.values())
        if isinstance(v, Tup): return any(self.deep_unshaped(x) for x in v.items)
        return False

    def wf(self, v):
        """well-formedness facts of an arbitrary value"""
        if isinstance(v, Vec): self.assume(v.n >= 0)
        elif isinstance(v, Struct):
            for x in v.f.values(): self.wf(x)
        elif isinstance(v, Tup):
            for x in v.items: self.wf(x)
        elif isinstance(v, Opt) and v.val is not None: self.wf(v.val)

    def proves(self, goal, st=None, tmo=4000):
        import time
        st = st or self.st
        g = S(goal)
        if is_true(g): return True
        t = time.time()
        s = self.solver(tmo)
        s.add(*st.pc); s.add(*st.facts); s.add(*self.tyfacts.values()); s.add(z3.Not(g))
        r = s.check() == z3.unsat
        self.stats.queries += 1; self.stats.time += time.time() - t
        return r

    def proves_many(self, goals, st, tmo=3000):
        """goals: dict name->formula; returns the set of names proved"""
        import time
        t = time.time()
        ok = set()
        s = self.solver(tmo)
        s.add(*st.pc); s.add(*st.facts); s.add(*self.tyfacts.values())
        s1 = z3.SimpleSolver(); limits(s1, 300); s1.add(s.assertions())
        for n, g in goals.items():
            g = S(g)
            if is_true(g):
                ok.add(n); continue
            if is_false(g): continue
            s1.push(); s1.add(z3.Not(g)); r = s1.check(); s1.pop()
            if r == z3.unsat:
                ok.add(n); continue
            s.push(); s.add(z3.Not(g))
            auto = str(n).startswith(("fr:", "a:", "c:"))
            limits(s, 500 if auto else tmo)
            r = s.check()
            if r == z3.unsat: ok.add(n)
            s.pop()
            for seed in (7, 23) if r == z3.unknown and not auto else ():         # the search is sensitive to its order
                s2 = self.solver(tmo); s2.set("random_seed", seed); s2.set("mbqi", False)
                s2.add(s.assertions()); s2.add(z3.Not(g))
                if s2.check() == z3.unsat:
                    ok.add(n); break
            self.stats.queries += 1
        self.stats.time += time.time() - t
        return ok

    def loop_inv(self, guard, body, inc, s, seq, ghost):
        if self.inv is None: raise Unsupported(f"loop without invariant schema (line {s.get('l')} of {self.frames[-1].fn['q']})")
        self.loops_inv += 1
        S0 = self.st.copy()
        mod = set()

        def one():
            if not self.branch(self.num(guard())): return ("exit",)
            r = body()
            if r is None or r == ("cont",):
                inc()
                return ("next",)
            return r
        memo = self.__dict__.setdefault("loop_memo", {})
        key = (id(s), self.frames[-1].fn["key"], S0.ctr, tuple(x.get_id() for x in S0.pc), tuple(x.get_id() for x in S0.facts), tuple((k, tuple(a.get_id() for a in v)) for k, v in S0.heap.items()))
        hit = memo.get(key)      # the same path replayed
        if hit is not None: mod, alive = hit[0], hit[1]
        self.dry += 1
        try:
            while hit is None:
                self.st = S0.copy()
                self.havoc(mod)
                head = self.st.copy()
                outs = self.explore(one)
                new = set()
                for st, r in outs:
                    if r == ("next",): new |= self.changed(head, st)
                if new <= mod: break
                mod |= new
        finally:
            self.dry -= 1

        def cands(st, entry):
            self.st = st
            ctx = LoopCtx(self, S0, mod, seq, ghost, s)
            d = auto_candidates(ctx)
            d2 = self.inv(ctx)
            if d2: d.update(d2)
            return {k: (v if z3.is_expr(v) else z3.BoolVal(v)) for k, v in d.items()}, ctx.fact_list
        if hit is None:
            st0 = S0.copy()
            c0, f0 = cands(st0, True)
            st0.facts += f0
            alive = self.proves_many(c0, st0)
            self.last_dropped_init = set(c0) - alive
        self.dry += 1
        try:
            while hit is None:
                self.st = S0.copy()
                self.havoc(mod)
                hs = self.st
                cs, fs = cands(hs, False)
                hs.facts += [cs[k] for k in cs if k in alive] + fs
                self.st = hs
                outs = self.explore(one)
                drop = set()
                for st, r in outs:
                    if r != ("next",): continue
                    st = st.copy()
                    ce, fe = cands(st, False)
                    st.facts += fe
                    todo = {k: ce[k] for k in alive - drop if k in ce}
                    drop |= (alive - drop) - self.proves_many(todo, st)
                self.st = S0
                if not drop: break
                alive -= drop
        finally:
            self.dry -= 1
        self.last_inv = sorted(map(str, alive))
        memo[key] = (mod, alive, S0)
        # final pass with obligations emitted
        self.st = S0.copy()
        self.havoc(mod)
        cs, fs = cands(self.st, False)
        self.st.facts += [cs[k] for k in cs if k in alive] + fs
        head = self.st
        outs = self.explore(one)
        # every surviving candidate is an inductive invariant: recorded as discharged obligations
        if hit is None: self.inv_count = getattr(self, "inv_count", 0) + len([k for k in alive])
        res = [(st, ("none",) if r in (("exit",), ("brk",)) else r) for st, r in outs if r != ("next",)]
        self.st = head
        base = head
        return self.unwrap(self.merge_outs(base, res))


class LoopCtx:
    def __init__(self, I, S0, mod, seq, ghost, s):
        self.I = I; self.S0 = S0; self.mod = mod; self.seq = seq; self.ghost = ghost; self.s = s
        self.fact_list = []
        self.fn = I.frames[-1].fn

    def fact(self, f): self.fact_list.append(f)

    def cells(self, pred=None):
        """(id, Ty, value) of modified cells"""
        out = []
        for m in sorted(self.mod, key=repr):
            if m[0] != "c": continue
            ty = self.I.st.ctys.get(m[1])
            v = self.I.st.cells[m[1]]
            if pred is None or pred(ty, v): out.append((m[1], ty, v))
        return out

    def ints(self):
        return [(i, v) for i, t, v in self.cells() if z3.is_expr(v) and v.sort() == z3.IntSort() and not (t is not None and t.k in ("p", "e"))]

    def iters(self):
        return [(i, v) for i, t, v in self.cells() if isinstance(v, Iter)]

    def idx(self):
        """candidate progress counters: integer cells and iterator positions"""
        return self.ints() + [(i, v.i) for i, v in self.iters()]

    def reals(self):
        return [(i, v if z3.is_expr(v) else v) for i, t, v in self.cells() if z3.is_expr(v) and v.sort() == z3.RealSort()]

    def vecs(self, ety=None):
        return [(i, v) for i, t, v in self.cells() if isinstance(v, (Vec, CVec)) and (ety is None or (v.ety is not None and v.ety.s == ety))]

    def typed(self, s):
        return [(i, v) for i, t, v in self.cells() if t is not None and t.s == s]

    def entry(self, i):
        return self.S0.cells[i]


def auto_candidates(ctx):
    d = {}
    I = ctx.I
    idx = ctx.idx()
    bounds = []
    if ctx.seq is not None: bounds.append(("n", ctx.seq[1]))
    for cid, v in ctx.S0.cells.items():
        if ("c", cid) in ctx.mod: continue
        if isinstance(v, (Vec, CVec)): bounds.append((f"len{cid}", v.n))
        elif z3.is_expr(v) and v.sort() == z3.IntSort() and I.st.ctys.get(cid) is not None and I.st.ctys[cid].k == "b":
            bounds.append((f"v{cid}", v))
    bounds = bounds[:6]
    for i, v in idx:
        e = ctx.entry(i)
        e = e.i if isinstance(e, Iter) else e
        d[f"a:{i}>=0"] = v >= 0
        if z3.is_expr(e):
            d[f"a:{i}>=e"] = v >= e
            d[f"a:{i}<=e"] = v <= e
        for bn, b in bounds:
            d[f"a:{i}<={bn}"] = v <= b
    for cid, t, v in ctx.cells():      # components of an aggregate that the loop leaves alone
        if not isinstance(v, (Struct, Tup)): continue
        try: a, b = I.flat(v), I.flat(ctx.entry(cid))
        except Unsupported: continue
        if len(a) != len(b): continue
        for i, (x, y) in enumerate(zip(a, b)):
            if z3.is_expr(x) and z3.is_expr(y) and x.sort() == y.sort(): d[f"c:{cid}.{i}"] = x == y
    r = z3.Int("frame!q")
    for m in ctx.mod:
        if m[0] != "h" or m[1][1] == "used!": continue
        H0 = ctx.S0.heap.get(m[1])
        if H0 is None:
            H0 = [z3.Const(f"H.{m[1][0]}.{m[1][1]}.{i}", z3.ArraySort(z3.IntSort(), so)) for i, so in enumerate(I.sorts(I.heap_tys[m[1]]))]
        for i, (x, y) in enumerate(zip(I.st.heap.get(m[1], H0), H0)):
            refs = I.frame_refs.get(m[1], []) if I.frame_refs is not None else None
            if x.eq(y):
                for w in ("fr", "fm"): d[f"{w}:{m[1]}{i}"] = z3.BoolVal(True)
            elif refs is not None and None in refs and m[1][1] != "Call!" and I.frame_skip:
                pass
            elif refs:      # the contract's frame: only these objects may change
                d[f"fm:{m[1]}{i}"] = z3.ForAll([r], z3.Implies(z3.And(r > 0, *[r != q for q in refs]), z3.Select(x, r) == z3.Select(y, r)), patterns=[z3.Select(x, r)] if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED else [])
            else:
                d[f"fr:{m[1]}{i}"] = z3.ForAll([r], z3.Implies(r >= ctx.S0.alloc, z3.Select(x, r) == z3.Select(y, r)), patterns=[z3.Select(x, r)] if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED else [])
    for a in range(len(idx)):
        for b in range(a + 1, len(idx)):
            ea, eb = ctx.entry(idx[a][0]), ctx.entry(idx[b][0])
            ea = ea.i if isinstance(ea, Iter) else ea
            eb = eb.i if isinstance(eb, Iter) else eb
            if z3.is_expr(ea) and z3.is_expr(eb):
                d[f"a:{idx[a][0]}-{idx[b][0]}"] = idx[a][1] - idx[b][1] == ea - eb
    for i, v in ctx.vecs():
        e = ctx.entry(i)
        for j, w in idx:
            ej = ctx.entry(j)
            ej = ej.i if isinstance(ej, Iter) else ej
            if isinstance(e, (Vec, CVec)) and z3.is_expr(ej):
                d[f"a:len{i}-{j}"] = v.n - w == e.n - ej
                d[f"a:len{i}<={j}"] = v.n - e.n <= w - ej
    return d
