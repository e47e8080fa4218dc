"""The proximity step runs until no two enabled policies are too close: M05 (the fixpoint loop)."""
import z3
from verify import *
import lib
from geometrics import d
from mesh import axes, fa, at_old
from zones import ptr_to, all_of
from intervals import seq_of
from app import ref

P5 = ["M05"]
Z = z3.IntSort()
FREE = ("MeshlinePolicy", "MeshlinePolicyManager", "ConflictManager", "ConflictTooCloseMeshlinePolicies")


def got(I, f):
    I.call_trace()
    return I.sel(I.st.heap[("Call!", f)][0], lit(0))


def put(I, f, v):
    I.call_trace()
    I.st.heap[("Call!", f)] = [z3.Store(I.st.heap[("Call!", f)][0], lit(0), v)]


def pend(I): return got(I, "f")      # the conflict registered and not yet solved (0: none), as ghost state


def set_pend(I, v): put(I, "f", v)


def forget(c):
    """any state of policies, managers and conflicts may be another one"""
    I = c.I
    for n in FREE:
        o = ObjLoc(z3.Int("any!"), I.prog.tys["domain::" + n])
        for l in (lib.cur_field(I, o), lib.tp_field(I, o)):
            I.st.heap[(l.decl, l.name)] = [I.fresh("then", x.sort()) for x in I.heap_arrays(l.decl, l.name, l.ty)]


def apart(c, es, n, lim):
    I = c.I
    i, j = z3.Ints("i!ap j!ap")
    P = lambda k: ptr_to(c, "MeshlinePolicy", es[k])
    ci, cj = d(P(i).coord), d(P(j).coord)
    body = Implies(And(i >= 0, i < n, j >= 0, j < n, i != j, P(i).state.is_enabled, P(j).state.is_enabled), If(ci >= cj, ci - cj, cj - ci) > lim)
    return i, j, body


def m_closest(c, o, a):
    """as its own contract states (M04): nothing only when all enabled policies given are further apart than the limit"""
    I = c.I
    I.oblige("a conflict registered is solved before the next pair is looked for", pend(I) == 0)
    w = wrap(I, a[0], c.I.prog.tys["std::vector<domain::MeshlinePolicy*,std::allocator<domain::MeshlinePolicy*>>"])
    lim = wrap(I, a[1], I.prog.tys["domain::Coord"])
    es, n = seq_of(w), w.n
    has = I.fresh("found", z3.BoolSort())
    x, y = I.fresh("one", Z), I.fresh("other", Z)
    I.assume(Implies(has, And(x > 0, y > 0, x != y)))
    i, j, body = apart(c, es, n, d(lim))
    I.assume(Implies(Not(has), fa([i, j], body, z3.MultiPattern(es[i], es[j]))))
    put(I, "a0", x); put(I, "a1", y)
    return Opt(has, Tup([x, y]))


def m_add(c, o, a):
    """whatever registering does (its own contract, M05)"""
    I = c.I
    x, y = got(I, "a0"), got(I, "a1")
    I.oblige("the closest pair is what gets registered", Or(And(ref(I, a[0]) == x, ref(I, a[1]) == y), And(ref(I, a[0]) == y, ref(I, a[1]) == x)))
    I.oblige("in the design's conflicts", ref(I, o) == c.this.conflict_manager.raw)
    forget(c)
    r = I.fresh("registered", Z)
    I.assume(r >= 0)
    set_pend(I, r)
    return r


def m_solve(c, o, a):
    I = c.I
    I.oblige("the conflict just registered is what gets solved", And(ref(I, o) == pend(I), pend(I) != 0))
    I.oblige("with this axis' policies", ref(I, a[0]) == c.this.target()[0].ref)
    forget(c)
    set_pend(I, lit(0))
    return UNIT


MOD = [("Call!", x) for x in ("n", "f", "a0", "a1")]


def modifies(c, *a):
    out = list(MOD)
    for n in FREE: out += all_of(c, n)
    return out


@post("domain::MeshlinePolicyManager::detect_and_solve_too_close_meshline_policies", ["*"], props=P5, at_call=False, frame_inv=True,
      mocks={"domain::detect_closest_meshline_policies": m_closest, "domain::ConflictManager::add_too_close_meshline_policies": m_add, "domain::ConflictTooCloseMeshlinePolicies::auto_solve": m_solve},
      modifies=modifies, pre=lambda c, axis: [pend(c.I) == 0, c.this.global_params.raw > 0, c.this.conflict_manager.raw > 0], inv=lambda c, lc, axis: {"pending": pend(c.I) == 0})
def _(c, r, axis):
    l = c.this.state.line_policies[axis]
    i, j, body = apart(c, seq_of(l), l.n, d(c.this.global_params.state.proximity_limit))
    return [("at the end no two enabled policies of the axis are within the limit", body), ("nothing is left unsolved", pend(c.I) == 0)]
