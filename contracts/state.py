"""Contracts of the history: the tree of points in time, the objects that record states, the caretaker (S01..S05)."""
import z3
from verify import *
import lib
from mesh import pattern_ok

Z = z3.IntSort()
DEPTH = z3.Function("DEPTH", Z, Z)              # number of ancestors
UP = z3.Function("UP", Z, Z, Z)                 # k-th ancestor, 0-th is the node itself


def node_ty(c): return c.I.prog.tys["TreeNode"]


def parents(c):
    pt = [t for d, f, t in c.I.prog.fields(node_ty(c)) if f == "_parent"][0]
    return c.I.heap_arrays("TreeNode", "_parent", pt)[0]


def whole(vs, p):
    """p may serve as a pattern for vs: no logic in it, and every variable"""
    seen, todo = set(), [p]
    while todo:
        x = todo.pop()
        if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT): return False
        if z3.is_quantifier(x): return False
        seen.add(x.get_id()); todo += x.children() if z3.is_app(x) or isinstance(x, z3.PatternRef) else []
    return all(v.get_id() in seen for v in vs)


def fa(vs, body, *pats):
    try: return z3.ForAll(vs, body, patterns=[p for p in pats if pattern_ok(p) and (isinstance(p, z3.PatternRef) or whole(vs, p))])
    except z3.Z3Exception: return z3.ForAll(vs, body)


def step(c, n, k):
    """definition of UP at (n, k+1)"""
    return Implies(And(n > 0, k >= 0, k < DEPTH(n)), UP(n, k + 1) == z3.Select(parents(c), UP(n, k)))


def tree_wf(c):
    """every chain of parents ends: DEPTH counts it, UP walks it (parents are set once, at construction)"""
    P = parents(c)
    n, k = z3.Ints("n!wf k!wf")
    return [fa([n], Implies(n > 0, And(DEPTH(n) >= 0, UP(n, 0) == n)), DEPTH(n)),
            fa([n], Implies(n > 0, And(DEPTH(n) >= 0, (P[n] == 0) == (DEPTH(n) == 0), Implies(P[n] != 0, And(P[n] > 0, DEPTH(P[n]) == DEPTH(n) - 1)))), P[n]),
            fa([n, k], Implies(And(n > 0, k >= 0, k <= DEPTH(n)), And(UP(n, k) > 0, DEPTH(UP(n, k)) == DEPTH(n) - k)), UP(n, k)),
            fa([n, k], Implies(And(n > 0, k >= 0, k < DEPTH(n)), UP(n, k + 1) == P[UP(n, k)]), P[UP(n, k)])]


def root(n): return UP(n, DEPTH(n))


def desc(a, b): return And(DEPTH(b) < DEPTH(a), UP(a, DEPTH(a) - DEPTH(b)) == b)


def on_chain(a, b, itself):
    """b is a or one of its ancestors (the former only when itself)"""
    return Or(desc(a, b), And(itself, a == b))


def ptr(w): return w.ref


def ptrs(lc):
    """pointer variables the loop changes"""
    return [(i, v) for i, t, v in lc.cells() if t is not None and t.k == "p" and z3.is_expr(v)]


@spec("TreeNode::parent", props=["S05"], real=True)
def _(c): return z3.Select(parents(c), c.this.ref)


@spec("TreeNode::is_root", props=["S05"], real=True)
def _(c): return z3.Select(parents(c), c.this.ref) == 0


@spec("TreeNode::is_leaf", props=["S05"], real=True)
def _(c): return c.this.children.n == 0


@spec("TreeNode::operator==", props=["S05"], real=True)
def _(c, b): return c.this.ref == b.ref


def walk_inv(c, lc):
    t = c.this.ref
    out = {}
    for i, v in ptrs(lc):
        out[f"up{i}"] = And(v > 0, DEPTH(v) <= DEPTH(t), v == UP(t, DEPTH(t) - DEPTH(v)))
    return out


@post("TreeNode::root", props=["S05"], real=True, pre=lambda c: tree_wf(c), inv=walk_inv, modifies=lambda c: [])
def _(c, r):
    return [("the top of the chain", r.raw == root(c.this.ref)), ("a root", And(z3.Select(parents(c), r.raw) == 0, r.raw > 0))]


def anc_inv(c, lc, itself):
    out = walk_inv(c, lc)
    t = c.this.ref
    i = z3.Int("i!anc")
    off = If(itself, lit(0), lit(1))
    for vi, v in lc.vecs():
        v = c.I.tovec(v)
        out[f"list{vi}"] = And(v.n >= 0, fa([i], Implies(And(i >= 0, i < v.n), v.arr[0][i] == UP(t, i + off)), v.arr[0][i]))
        for pi, p in ptrs(lc):
            out[f"len{vi}{pi}"] = v.n == DEPTH(t) - DEPTH(p) + 1 - off
    return out


@post("TreeNode::ancestors", props=["S05"], real=True, pre=lambda c, itself: tree_wf(c), inv=anc_inv, modifies=lambda c, itself: [])
def _(c, r, itself):
    t = c.this.ref
    off = If(itself, lit(0), lit(1))
    v = c.I.tovec(r.raw)
    i = z3.Int("i!anc")
    f = lambda i: Implies(And(i >= 0, i < v.n), And(v.arr[0][i] == UP(t, i + off), v.arr[0][i] > 0))
    out = [("as many as the depth", v.n == DEPTH(t) + 1 - off), ("the chain, nearest first", fa([i], f(i), v.arr[0][i]) if c.call_site else f(i))]
    if c.call_site: out.append(fa([i], Implies(And(i >= off, i <= DEPTH(t)), v.arr[0][i - off] == UP(t, i)), UP(t, i)))     # the same, from the chain's side
    return out


def desc_inv(c, lc, node):
    out = walk_inv(c, lc)
    t, n = c.this.ref, node.ref
    k = z3.Int("k!dsc")
    for i, v in ptrs(lc):
        out[f"not{i}"] = Or(DEPTH(n) >= DEPTH(t), DEPTH(n) < DEPTH(v), UP(t, DEPTH(t) - DEPTH(n)) != n)
    return out


@spec("TreeNode::is_descendant_of", props=["S05"], real=True, inv=desc_inv, pre=lambda c, node: tree_wf(c))
def _(c, node): return desc(c.this.ref, node.ref)


@spec("TreeNode::is_ancestor_of", props=["S05"], real=True, pre=lambda c, node: tree_wf(c))
def _(c, node): return desc(node.ref, c.this.ref)


def common(a, b, itself, r):
    """r is the nearest node on both chains, 0 when there is none"""
    k = z3.Int("k!ca")
    off = If(itself, lit(0), lit(1))
    on = lambda k: on_chain(b, UP(a, k), itself)
    return If(r == 0, fa([k], Implies(And(k >= off, k <= DEPTH(a)), Not(on(k))), UP(a, k)),
              And(r > 0, on_chain(a, r, itself), on_chain(b, r, itself), fa([k], Implies(And(k >= off, k < DEPTH(a) - DEPTH(r)), Not(on(k))), UP(a, k))))


def ca_inv(c, lc, node, itself):
    out = {}
    a, b = c.this.ref, node.ref
    off = If(itself, lit(0), lit(1))
    k = z3.Int("k!ca")
    for i, v in lc.idx():
        out[f"none{i}"] = fa([k], Implies(And(k >= off, k < v + off), Not(on_chain(b, UP(a, k), itself))), UP(a, k))
    return out


def common_facts(c, a, b, itself, r):
    k = z3.Int("k!ca")
    off = If(itself, lit(0), lit(1))
    if c.call_site: return [common(a, b, itself, r)]
    on = on_chain(b, UP(a, k), itself)
    return [("none only when the chains do not meet", Implies(And(r == 0, k >= off, k <= DEPTH(a)), Not(on))),
            ("on both chains", Implies(r != 0, And(r > 0, on_chain(a, r, itself), on_chain(b, r, itself)))),
            ("the nearest one", Implies(And(r != 0, k >= off, k < DEPTH(a) - DEPTH(r)), Not(on)))]


@post("TreeNode::common_ancestor", props=["S05"], real=True, inv=ca_inv, pre=lambda c, node, itself: tree_wf(c), modifies=lambda c, node, itself: [])
def _(c, r, node, itself): return common_facts(c, c.this.ref, node.ref, itself, r.raw)


@post("common_ancestor", props=["S05"], real=True, pre=lambda c, a, b, itself: tree_wf(c), modifies=lambda c, a, b, itself: [])
def _(c, r, a, b, itself): return common_facts(c, a.ref, b.ref, itself, r.raw)


def wf0():
    n, k = z3.Ints("n!wf k!wf")
    return [fa([n], Implies(n > 0, And(DEPTH(n) >= 0, UP(n, 0) == n)), DEPTH(n)),
            fa([n, k], Implies(And(n > 0, k >= 0, k <= DEPTH(n)), And(UP(n, k) > 0, DEPTH(UP(n, k)) == DEPTH(n) - k)), UP(n, k))]


@lemma("family relations", props=["S05"])
def _(c):
    a, b, r, s = z3.Ints("a b r s")
    i = z3.Bool("itself")
    h = wf0() + [a > 0, b > 0]
    n, k, m = z3.Ints("n k m")
    P = z3.Array("P!lem", Z, Z)
    stp = lambda n, k: Implies(And(n > 0, k >= 0, k < DEPTH(n)), UP(n, k + 1) == P[UP(n, k)])
    comp = lambda m: UP(UP(a, k), m) == UP(a, k + m)
    return [("never of itself", h, Not(desc(a, a))), ("not both ways", h, Not(And(desc(a, b), desc(b, a)))),
            ("the root is every other node's ancestor in its tree", h, Implies(root(a) != a, desc(a, root(a)))),
            ("common ancestor: same whichever is asked first", h + [common(a, b, i, r), common(b, a, i, s)], r == s),
            ("common ancestor of a node with itself", h + [common(a, a, z3.BoolVal(True), r)], r == a),
            ("ancestors of an ancestor (induction base)", h + [k >= 0, k <= DEPTH(a)], comp(lit(0))),
            ("ancestors of an ancestor (induction step)", h + [k >= 0, m >= 0, k + m < DEPTH(a), comp(m), stp(UP(a, k), m), stp(a, k + m)], comp(m + 1)),
            ("descent is transitive", h + [r > 0, desc(a, b), desc(b, r), UP(UP(a, DEPTH(a) - DEPTH(b)), DEPTH(b) - DEPTH(r)) == UP(a, DEPTH(a) - DEPTH(b) + DEPTH(b) - DEPTH(r))], desc(a, r))]


@post("TreeNode::TreeNode", None, props=["S05"], real=True, at_call=False, nullable=(0,), modifies=lambda c, p: [])
def _(c, r, p): return [("child of the given parent", z3.Select(parents(c), c.this.ref) == p.raw), ("no child yet", c.this.children.n == 0)]


@post("TreeNode::add_child", props=["S05"], real=True, pre=lambda c: tree_wf(c), modifies=lambda c: [c.this.children], result=lambda c: ObjLoc(c.I.new_ref(), node_ty(c)))
def _(c, r):
    new, t = r.ref, c.this.ref
    with At(c.I, c.old): old = c.this.children.raw
    now = c.I.tovec(c.this.children.raw); old = c.I.tovec(old)
    m = z3.Int("m!kid")
    f = lambda m: Implies(And(m >= 0, m < old.n), now.arr[0][m] == old.arr[0][m])
    return [("its parent is this node", z3.Select(parents(c), new) == t), ("one more child, the last one", And(now.n == old.n + 1, now.arr[0][old.n] == new)),
            ("earlier children kept", fa([m], f(m), now.arr[0][m]) if c.call_site else f(m))]

# ---- the tree's lists of children (S03, S05) ---------------------------------------------
ATT = z3.Function("ATTACHED", Z, z3.BoolSort())       # the node is in its tree before the call


def kids(c):
    ct = [t for d, f, t in c.I.prog.fields(node_ty(c)) if f == "children"][0]
    a = c.I.heap_arrays("TreeNode", "children", ct)
    return a[0], a[1]


def kid(K, p, i): return z3.Select(z3.Select(K[1], p), i)


def compose():
    """ancestors of an ancestor are ancestors (lemma "family relations")"""
    a, b = z3.Ints("a!cmp b!cmp")
    k, m = z3.Ints("k!cmp m!cmp")
    return fa([a, k, m], Implies(And(a > 0, k >= 0, m >= 0, k + m <= DEPTH(a)), UP(UP(a, k), m) == UP(a, k + m)), UP(UP(a, k), m))


def child_ok(c, K, p, i):
    P = parents(c)
    return Implies(And(p > 0, i >= 0, i < z3.Select(K[0], p)), And(kid(K, p, i) > 0, z3.Select(P, kid(K, p, i)) == p, Implies(ATT(p), ATT(kid(K, p, i)))))


def listed(c, K, n, gone=None):
    """every attached node (but those gone) is in its parent's list"""
    P = parents(c)
    j = z3.Int("j!ls")
    p = z3.Select(P, n)
    return Implies(And(n > 0, ATT(n), p != 0, *([Not(z3.Select(gone, n))] if gone is not None else [])), z3.Exists([j], And(j >= 0, j < z3.Select(K[0], p), kid(K, p, j) == n)))


def att_up():
    n, k = z3.Ints("n!au k!au")
    return fa([n, k], Implies(And(n > 0, ATT(n), k >= 0, k <= DEPTH(n)), ATT(UP(n, k))), UP(n, k))


def kids_wf(c, gone=None):
    K = kids(c); P = parents(c)
    p, i, n = z3.Ints("p!kw i!kw n!kw")
    return [att_up(), fa([p, i], child_ok(c, K, p, i), kid(K, p, i)), fa([n], listed(c, K, n, gone), z3.Select(P, n)), compose()]


def under(n, t): return desc(n, t)


def branch(n, t):
    """the child of t above n (or n)"""
    return UP(n, DEPTH(n) - DEPTH(t) - 1)


def vmem(v, n):
    w = z3.Int("w!vm")
    return z3.Exists([w], And(w >= 0, w < v.n, v.arr[0][w] == n))


def walked_inv(c, lc, want, base):
    """the list gathered so far: the nodes wanted under the children already passed"""
    out = {}
    t = c.this.ref
    K = kids(c); P = parents(c)
    n, j, w = z3.Ints("n!wk j!wk w!wk")
    k = c.I.read(lc.ghost) if lc.ghost is not None else None
    for vi, v in lc.vecs():
        v = c.I.tovec(v)
        e = v.arr[0][w]
        out[f"len{vi}"] = v.n >= 0
        out[f"only{vi}"] = fa([w], Implies(And(w >= 0, w < v.n), And(e > 0, Or(base(e), And(ATT(e), want(e), desc(e, t))))), e)
        if k is None: continue
        out[f"all{vi}"] = fa([n, j], Implies(And(j >= 0, j < k, n > 0, ATT(n), want(n), desc(n, t), branch(n, t) == kid(K, t, j)), vmem(v, n)), z3.MultiPattern(UP(n, DEPTH(n) - DEPTH(t) - 1), kid(K, t, j)))
        out[f"base{vi}"] = fa([n], Implies(And(n > 0, base(n)), vmem(v, n)), ATT(n))
    return out


def walked(c, v, want, base):
    t = c.this.ref
    n, w = z3.Ints("n!wk w!wk")
    v = c.I.tovec(v)
    e = v.arr[0][w]
    f = Implies(And(w >= 0, w < v.n), And(e > 0, Or(base(e), And(ATT(e), want(e), desc(e, t)))))
    g = Implies(And(n > 0, Or(base(n), And(ATT(n), want(n), desc(n, t)))), vmem(v, n))
    return [("only such nodes", fa([w], f, e) if c.call_site else f), ("all such nodes", fa([n], g, ATT(n), UP(n, DEPTH(n) - DEPTH(t))) if c.call_site else g)]


def tree_pre(c, *a): return tree_wf(c) + kids_wf(c) + [ATT(c.this.ref)]


ANY = lambda n: z3.BoolVal(True)


@post("TreeNode::cluster", props=["S03"], real=True, rec=True, pre=tree_pre, modifies=lambda c, itself: [], inv=lambda c, lc, itself: walked_inv(c, lc, ANY, lambda n: And(itself, n == c.this.ref)))
def _(c, r, itself): return walked(c, r.raw, ANY, lambda n: And(itself, n == c.this.ref))


def is_leaf(c): return lambda n: z3.Select(kids(c)[0], n) == 0


@post("TreeNode::leafs", props=["S03"], real=True, rec=True, pre=tree_pre, modifies=lambda c, itself: [], inv=lambda c, lc, itself: walked_inv(c, lc, is_leaf(c), lambda n: And(itself, n == c.this.ref, is_leaf(c)(n))))
def _(c, r, itself): return walked(c, r.raw, is_leaf(c), lambda n: And(itself, n == c.this.ref, is_leaf(c)(n)))

def in_subtree(n, t): return Or(n == t, desc(n, t))


def clean(c, K, gone, p, i):
    """no child of p is among the nodes to remove"""
    return Implies(And(i >= 0, i < z3.Select(K[0], p)), Not(z3.Select(gone, kid(K, p, i))))


def closed(gone):
    """with a node to remove, all below it are to be removed"""
    a, b = z3.Ints("a!cl b!cl")
    return fa([a, b], Implies(And(a > 0, b > 0, ATT(a), z3.Select(gone, b), desc(a, b)), z3.Select(gone, a)), z3.MultiPattern(z3.Select(gone, b), ATT(a)))


def efd_gone(c, nodes):
    with At(c.I, c.old): return nodes.raw.has


def efd_pre(c, nodes):
    g = nodes.raw.has
    return tree_wf(c) + kids_wf(c, g) + [ATT(c.this.ref), Not(z3.Select(g, c.this.ref)), closed(g)]


def efd_inv(c, lc, nodes):
    g = efd_gone(c, nodes)
    K, K0, t, P = kids(c), old(c, kids), c.this.ref, parents(c)
    p, i, n, j = z3.Ints("p!ef i!ef n!ef j!ef")
    with At(c.I, lc.S0): KS = kids(c)
    if lc.ghost is None: return {}
    k = c.I.read(lc.ghost)
    same = And(z3.Select(K[0], p) == z3.Select(K0[0], p), z3.Select(K[1], p) == z3.Select(K0[1], p))
    live = And(p > 0, ATT(p), Not(z3.Select(g, p)))
    return {"ok": fa([p, i], child_ok(c, K, p, i), kid(K, p, i)), "listed": fa([n], listed(c, K, n, g), z3.Select(P, n)),
            "mine": fa([i], clean(c, K, g, t, i), kid(K, t, i)), "own": And(z3.Select(K[0], t) == z3.Select(KS[0], t), z3.Select(K[1], t) == z3.Select(KS[1], t)),
            "outside": fa([p], Implies(And(p > 0, step(c, p, DEPTH(p) - DEPTH(t) - 1), Not(in_subtree(p, t))), same), z3.Select(K[1], p)),
            "done": fa([p, i, j], Implies(And(live, desc(p, t), j >= 0, j < k, kid(K, t, j) == branch(p, t)), clean(c, K, g, p, i)), z3.MultiPattern(kid(K, p, i), kid(K, t, j)))}


@post("TreeNode::erase_from_descendants", props=["S03"], real=True, rec=True, pre=efd_pre, inv=efd_inv, modifies=lambda c, nodes: [("TreeNode", "children")], tmo=20)
def _(c, r, nodes):
    g = efd_gone(c, nodes)
    K, K0, t, P = kids(c), old(c, kids), c.this.ref, parents(c)
    p, i, n = z3.Ints("p!ef i!ef n!ef")
    q = (lambda vs, f, *ps: fa(vs, f, *ps)) if c.call_site else (lambda vs, f, *ps: f)
    return [("children are real children", q([p, i], child_ok(c, K, p, i), kid(K, p, i))), ("nodes to keep stay in their parent's list", q([n], listed(c, K, n, g), z3.Select(P, n))),
            ("nothing to remove is left below", q([p, i], Implies(And(p > 0, ATT(p), Not(z3.Select(g, p)), in_subtree(p, t), step(c, p, DEPTH(p) - DEPTH(t) - 1)), clean(c, K, g, p, i)), kid(K, p, i))),
            ("the rest of the tree is untouched", q([p], Implies(And(p > 0, Not(in_subtree(p, t))), And(z3.Select(K[0], p) == z3.Select(K0[0], p), z3.Select(K[1], p) == z3.Select(K0[1], p))), z3.Select(K[1], p)))]


# ---- objects that record states: Originator<State>, every instance ---------------------
class Rec:
    """the fields of an originator in the present state"""
    def __init__(self, c):
        t, I = c.this, c.I
        self.init = t.init_timepoint.raw; self.cur = t.current_timepoint.raw
        lz = t.lazy_go.raw
        self.lazy, self.dest = lz.has, lz.val
        m = t.states.raw
        self.has, self.arr = m.has, m.arr
        o = I.tovec(t.ordered_timepoints.raw)
        self.n, self.ord = o.n, o.arr[0]


def old(c, f=Rec):
    with At(c.I, c.old): return f(c)


IX = z3.Function("index_of", Z, Z, Z)      # a position of a time in the list of an object (its initial state)


def rep_inv(c, o=None):
    """times and states correspond one to one; the presented one and the initial one are recorded"""
    o = o or Rec(c)
    i, j, t = z3.Ints("i!rep j!rep t!rep")
    w = z3.Int("w!rep")
    return [o.n >= 1, o.ord[0] == o.init, o.init > 0,
            fa([i], Implies(And(i >= 0, i < o.n), And(o.ord[i] != 0, z3.Select(o.has, o.ord[i]))), o.ord[i]),
            fa([i, j], Implies(And(i >= 0, i < j, j < o.n), o.ord[i] != o.ord[j]), z3.MultiPattern(o.ord[i], o.ord[j])),
            fa([t], Implies(z3.Select(o.has, t), z3.Exists([w], And(w >= 0, w < o.n, o.ord[w] == t))), z3.Select(o.has, t)),
            z3.Select(o.has, o.cur)]


def rep_goals(c, o=None):
    """rep_inv as obligations, for arbitrary indices"""
    o = o or Rec(c)
    i, j, t, w = z3.Ints("i!g j!g t!g w!g")
    return [("times: the initial one first", And(o.n >= 1, o.ord[0] == o.init)),
            ("every time has its state", Implies(And(i >= 0, i < o.n), And(o.ord[i] != 0, z3.Select(o.has, o.ord[i])))),
            ("no time twice", Implies(And(i >= 0, i < j, j < o.n), o.ord[i] != o.ord[j])),
            ("every state has its time", Implies(z3.Select(o.has, t), z3.Exists([w], And(w >= 0, w < o.n, o.ord[w] == t)))),
            ("the presented one is recorded", z3.Select(o.has, o.cur))]


def known(c, o=None):
    """the recorded times are nodes of the tree"""
    o = o or Rec(c)
    i = z3.Int("i!kn")
    return fa([i], Implies(And(i >= 0, i < o.n), o.ord[i] > 0), o.ord[i])


def latest(o, t, x, k=None):
    """x is the most recently recorded of the times t or above it, the initial one when there is none"""
    i, w = z3.Ints("i!lt w!lt")
    k = z3.Int("k!lt") if k is None else k
    none = fa([i], Implies(And(i >= 0, i < o.n), Not(on_chain(t, o.ord[i], True))), o.ord[i])
    last = z3.Exists([w], And(w >= 0, w < o.n, o.ord[w] == x, on_chain(t, o.ord[w], True), fa([i], Implies(And(i > w, i < o.n), Not(on_chain(t, o.ord[i], True))), o.ord[i])))
    return If(t == 0, x == o.init, Or(last, And(none, x == o.init)))


def presented(o, x):
    """x is the time the object presents"""
    return If(o.lazy, latest(o, o.dest, x), x == o.cur)


def same_rec(a, b, but=()):
    """fields equal, except those named"""
    fs = {"init": a.init == b.init, "cur": a.cur == b.cur, "lazy": And(a.lazy == b.lazy, Implies(a.lazy, a.dest == b.dest)),
          "states": And(a.has == b.has, *[x == y for x, y in zip(a.arr, b.arr)]), "ord": And(a.n == b.n, a.ord == b.ord)}
    return And(*[f for k, f in fs.items() if k not in but])


def go_mod(c): return [c.this.current_timepoint, c.this.lazy_go]


def rec_pre(c, *a):
    o = Rec(c)
    return tree_wf(c) + rep_inv(c, o) + [known(c, o), Implies(o.lazy, o.dest >= 0)]


def back_inv(c, lc):
    """going backwards through the times: none of those passed is on the path"""
    o = Rec(c)
    out = {}
    i = z3.Int("i!bk")
    d = old(c).dest
    for ki, k in lc.idx():
        out[f"passed{ki}"] = fa([i], Implies(And(i >= o.n - k, i >= 0, i < o.n), Not(on_chain(d, o.ord[i], True))), o.ord[i])
    return out


def moved(c):
    """the pending move was applied"""
    o0, o = old(c), Rec(c)
    return [("presents the latest recorded on the path", presented(o0, o.cur)), ("the move is no longer pending", Not(o.lazy)),
            ("recorded states left alone", same_rec(o, o0, ("cur", "lazy"))), ("the presented one is recorded", z3.Select(o.has, o.cur))]


@post("Originator::actually_go", props=["S01"], real=True, pre=rec_pre, inv=back_inv, modifies=lambda c: go_mod(c))
def _(c, r): return moved(c)


@post("Originator::get_current_timepoint", props=["S01"], real=True, pre=rec_pre, modifies=lambda c: go_mod(c))
def _(c, r): return moved(c) + [("the time presented", r.raw == Rec(c).cur)]


@post("Originator::get_current_state", props=["S01"], real=True, pre=rec_pre, modifies=lambda c: go_mod(c),
      result=lambda c: c.I.sub(FieldLoc(c.this.ref, *state_field(c)), ("m", c.this.current_timepoint.raw)))
def _(c, r):
    out = moved(c)
    if c.call_site: return out
    o = Rec(c)
    got = c.I.flat(r.raw)
    return out + [("the state recorded at the time presented", And(*[g == z3.Select(a, o.cur) for g, a in zip(got, o.arr)]))]


def state_field(c):
    for d, f, t in c.I.prog.fields(c.this._t):
        if f == "states": return d, f, t


@effect("Originator::get_init_timepoint", props=["S01"], real=True)
def _(c): return c.this.init_timepoint.raw


@post("Originator::go", props=["S01"], real=True, nullable=(0,), modifies=lambda c, t: [c.this.lazy_go])
def _(c, r, t):
    o0, o = old(c), Rec(c)
    return [("remembers where to", And(o.lazy, o.dest == t.raw)), ("nothing else", same_rec(o, o0, ("lazy",)))]


# ---- recording (S02) ------------------------------------------------------------------
def in_list(o, t):
    w = z3.Int("w!in")
    return z3.Exists([w], And(w >= 0, w < o.n, o.ord[w] == t))


def recorded(c, o0, o, t, state):
    """t with this state was added to the recorded ones, and is presented; nothing when t already has one"""
    had = z3.Select(o0.has, t)
    i, k = z3.Ints("i!rec k!rec")
    st = c.I.flat(state)
    q = (lambda f, *p: fa([i], f, *p)) if c.call_site else (lambda f, *p: f)
    qk = (lambda f, *p: fa([k], f, *p)) if c.call_site else (lambda f, *p: f)
    return [("nothing changes when the time already has a state", Implies(had, same_rec(o, o0))),
            ("one more time, the last one", Implies(Not(had), And(o.n == o0.n + 1, o.ord[o0.n] == t))),
            ("earlier times kept in order", q(Implies(And(Not(had), i >= 0, i < o0.n), o.ord[i] == o0.ord[i]), o.ord[i])),
            ("the state is recorded", Implies(Not(had), And(z3.Select(o.has, t), *[z3.Select(a, t) == x for a, x in zip(o.arr, st)]))),
            ("earlier states kept", qk(Implies(And(Not(had), k != t), And(z3.Select(o.has, k) == z3.Select(o0.has, k), *[z3.Select(a, k) == z3.Select(b, k) for a, b in zip(o.arr, o0.arr)])), z3.Select(o.has, k))),
            ("it is presented, no move pending", Implies(Not(had), And(o.cur == t, Not(o.lazy)))), ("same initial time", o.init == o0.init)]


def rec_mod(c, *a): return [getattr(c.this, f) for f in ("current_timepoint", "lazy_go", "states", "ordered_timepoints")]


@post("Originator::set_state", props=["S02", "S01"], real=True, nullable=(0,), pre=lambda c, t, s: rep_inv(c) + [t.raw != 0], modifies=rec_mod)
def _(c, r, t, state):
    with At(c.I, c.old): sv = state.raw
    o0, o = old(c), Rec(c)
    return recorded(c, o0, o, t.raw, sv) + (rep_inv(c, o) if c.call_site else rep_goals(c, o))


@post("Originator::Originator", None, props=["S02", "S01"], real=True, at_call=False, modifies=lambda c, *a: [])
def _(c, r, t, *rest):
    o = Rec(c)
    k = z3.Int("k!ct")
    out = [("presents the initial state", And(o.init == t.raw, o.cur == t.raw, Not(o.lazy), o.n == 1, o.ord[0] == t.raw)), ("no other state", z3.Select(o.has, k) == (k == t.raw))]
    st = [x for x in rest if isinstance(x, W) and x._t.s == c.this._t.a[0].s]
    if st: out.append(("the state given", And(*[z3.Select(a, t.raw) == x for a, x in zip(o.arr, c.I.flat(st[0].raw))])))
    return out


@post("Originator::erase", props=["S03", "S02"], real=True, pre=lambda c, ts: rec_pre(c), modifies=rec_mod, tmo=15)
def _(c, r, ts):
    o0, o = old(c), Rec(c)
    with At(c.I, c.old): s = ts.raw.has
    k, i, j, w = z3.Ints("k!er i!er j!er w!er")
    gone = lambda k: And(z3.Select(s, k), k != o0.init, k != o.cur)
    return [("presents what it presented", presented(o0, o.cur)), ("same initial time", o.init == o0.init),
            ("exactly the states at the given times go, but the initial and the presented one", z3.Select(o.has, k) == And(z3.Select(o0.has, k), Not(gone(k)))),
            ("the others keep their value", And(*[Implies(z3.Select(o.has, k), z3.Select(a, k) == z3.Select(b, k)) for a, b in zip(o.arr, o0.arr)]))] + rep_goals(c, o)


# ---- the caretaker (S03, S04) -----------------------------------------------------------
class Car:
    def __init__(self, c):
        t, I = c.this, c.I
        self.root = t.history_root.raw; self.cur = t.current_timepoint.raw; self.auto = t.auto_gc
        h = I.tovec(t.user_history.raw); self.n, self.h = h.n, h.arr[0]
        ft = [f for f in I.prog.fields(c.this._t) if f[1] == "user_history_browser"][0]
        a = I.heap_arrays(*ft)
        self.has, self.base = z3.Select(a[0], c.this.ref), z3.Select(a[1], c.this.ref)     # browsed: the one before base
        p = I.tovec(t.pinned_timepoints.raw); self.pn, self.p = p.n, p.arr[0]
        o = I.tovec(t.originators.raw); self.on, self.o = o.n, o.arr[0]
        m = t.annotations.raw; self.ahas, self.ann = m.has, m.arr[0]


def car_inv(c, s=None):
    s = s or Car(c)
    i = z3.Int("i!ci")
    return [s.n >= 1, s.n < 2**60, s.h[0] == s.root, s.root > 0, s.cur > 0, z3.Select(parents(c), s.root) == 0, Implies(s.has, And(s.base >= 1, s.base < s.n)),
            fa([i], Implies(And(i >= 0, i < s.n), s.h[i] > 0), s.h[i]), fa([i], Implies(And(i >= 0, i < s.pn), s.p[i] > 0), s.p[i])]


def car_pre(c, *a): return tree_wf(c) + car_inv(c)


def car_goals(c, s=None):
    s = s or Car(c)
    return [("the initial time stays the first remembered", And(s.n >= 1, s.h[0] == s.root)), ("browsing stays within what is remembered", Implies(s.has, And(s.base >= 1, s.base < s.n)))]


def position(s):
    """how many remembered times are behind the present one"""
    return If(s.has, s.base - 1, If(s.h[s.n - 1] == s.cur, s.n - 1, s.n))


def may_undo(s, k): return And(k > 0, k <= position(s))
def may_redo(s, k): return And(k > 0, s.has, k <= s.n - s.base)


@spec("Caretaker::can_undo", props=["S04"], real=True, pre=car_pre)
def _(c, k): return may_undo(Car(c), k)


@spec("Caretaker::can_redo", props=["S04"], real=True, pre=car_pre)
def _(c, k): return may_redo(Car(c), k)


for _f, _g in (("get_history_root", "history_root"), ("get_current_timepoint", "current_timepoint")):
    post("Caretaker::" + _f, props=["S04"], real=True, modifies=lambda c: [])(lambda c, r, g=_g: [("the field", r.raw == getattr(c.this, g).raw)])


def told_at(c, r): return c.I.read(lib.told(c.I, r))
def TOLD(): return ("IOriginator", "told!")


def all_told(c, t, s=None):
    """every live originator taken care of was told to go to t"""
    s = s or Car(c)
    i = z3.Int("i!told")
    f = lambda i: Implies(And(i >= 0, i < s.on, s.o[i] != 0, lib.ALIVE(s.o[i])), told_at(c, s.o[i]) == t)
    return fa([i], f(i), s.o[i]) if c.call_site else f(i)


def init_told(c):
    """names the ghost memory, so that frames can speak of it"""
    told_at(c, lit(1))


def told_inv(c, lc, t):
    out = {}
    init_told(c)
    s = old(c, Car)
    i = z3.Int("i!told")
    ks = [("g", c.I.read(lc.ghost))] if lc.ghost is not None else []
    for kn, k in ks + lc.idx():
        out[f"told{kn}"] = fa([i], Implies(And(i >= 0, i < k, s.o[i] != 0, lib.ALIVE(s.o[i])), told_at(c, s.o[i]) == t.raw), s.o[i])
    return out


def same_car(a, b, but=()):
    fs = {"root": a.root == b.root, "cur": a.cur == b.cur, "auto": a.auto == b.auto, "history": And(a.n == b.n, a.h == b.h), "browser": And(a.has == b.has, Implies(a.has, a.base == b.base)),
          "pinned": And(a.pn == b.pn, a.p == b.p), "originators": And(a.on == b.on, a.o == b.o), "annotations": And(a.ahas == b.ahas, a.ann == b.ann)}
    return [(k + " as before", f) for k, f in fs.items() if k not in but]


def in_tree(c, t): return And(t > 0, root(t) == c.this.history_root.raw)


@post("Caretaker::go_without_remembering", props=["S04", "S01"], real=True, nullable=(0,), inv=lambda c, lc, t: told_inv(c, lc, t), pre=lambda c, t: car_pre(c) + [t.raw >= 0],
      modifies=lambda c, t: [c.this.current_timepoint, TOLD()])
def _(c, r, t):
    init_told(c)
    s0, s = old(c, Car), Car(c)
    with At(c.I, c.old): ok = in_tree(c, t.raw); init_told(c); told0 = c.I.st.heap[TOLD()][0]
    rv = r if z3.is_expr(r) else r.raw
    return [("succeeds exactly for times of this history", rv == ok), ("the present time is the one asked for", s.cur == If(ok, t.raw, s0.cur)),
            ("everything taken care of is told", Implies(ok, all_told(c, t.raw, s0))), ("nothing is told otherwise", Implies(Not(ok), c.I.st.heap[TOLD()][0] == told0))] + same_car(s, s0, ("cur",))


def browse(c, delta, ok, k):
    """the history moved by delta remembered steps when ok; nothing happened otherwise"""
    s0, s = old(c, Car), Car(c)
    q = position(s0) + delta
    top = q == s0.n - 1
    return [("goes to the remembered time so many steps away", Implies(And(ok, root(s0.h[q]) == s0.root), And(s.cur == s0.h[q], all_told(c, s0.h[q], s0)))),
            ("that time is within what is remembered", Implies(ok, And(q >= 0, q < s0.n))),
            ("remembers where it is, unless back at the top", Implies(ok, And(s.has == Not(top), Implies(s.has, s.base == q + 1)))),
            ("history kept", And(s.n == s0.n, s.h == s0.h))] + [(n, Implies(Not(ok), f)) for n, f in same_car(s, s0)] + same_car(s, s0, ("cur", "browser", "history")) + ([] if c.call_site else car_goals(c, s))


BROWSE = lambda c, k: [c.this.current_timepoint, c.this.user_history_browser, TOLD()]


@post("Caretaker::undo", props=["S04"], real=True, pre=car_pre, modifies=BROWSE)
def _(c, r, k):
    init_told(c)
    return browse(c, -k, may_undo(old(c, Car), k), k)


@post("Caretaker::redo", props=["S04"], real=True, pre=car_pre, modifies=BROWSE)
def _(c, r, k):
    init_told(c)
    return browse(c, k, may_redo(old(c, Car), k), k)


@post("Caretaker::pin_current_timepoint", props=["S03"], real=True, pre=car_pre, modifies=lambda c: [c.this.pinned_timepoints])
def _(c, r):
    s0, s = old(c, Car), Car(c)
    i, w = z3.Ints("i!pin w!pin")
    had = z3.Exists([w], And(w >= 0, w < s0.pn, s0.p[w] == s0.cur))
    return [("pinned once", s.pn == If(had, s0.pn, s0.pn + 1)), ("pinned", Implies(s.pn > s0.pn, s.p[s0.pn] == s0.cur)), ("earlier pins kept", Implies(And(i >= 0, i < s0.pn), s.p[i] == s0.p[i]))] + same_car(s, s0, ("pinned",))

# ---- garbage collection (S03) --------------------------------------------------------------
KEPT = z3.Function("KEPT", Z, z3.BoolSort())      # definition: pinned, remembered, current, or above one of these


def kept_def(c, s):
    pf = getattr(s, "pf", lambda x: z3.BoolVal(True))      # which pins count
    i, k, n, w = z3.Ints("i!kp k!kp n!kp w!kp")
    P = parents(c)
    up = lambda lst, cnt, *pf: fa([i, k], Implies(And(i >= 0, i < cnt, *[f(lst[i]) for f in pf], k >= 0, k <= DEPTH(lst[i])), KEPT(UP(lst[i], k))), UP(lst[i], k))
    some = lambda lst, cnt, *pf: z3.Exists([w], And(w >= 0, w < cnt, *[f(lst[w]) for f in pf], on_chain(lst[w], n, True)))
    return [up(s.p, s.pn, pf), up(s.h, s.n), fa([k], Implies(And(k >= 0, k <= DEPTH(s.cur)), KEPT(UP(s.cur, k))), UP(s.cur, k)),
            fa([n], Implies(And(n > 0, KEPT(n)), Or(some(s.p, s.pn, pf), some(s.h, s.n), on_chain(s.cur, n, True))), KEPT(n))]


def gc_tree(c, s):
    """what is pinned, remembered or current is in the tree"""
    i, n = z3.Ints("i!gt n!gt")
    return [ATT(s.root), ATT(s.cur), s.on >= 0, s.pn >= 0, fa([i], Implies(And(i >= 0, i < s.n), ATT(s.h[i])), s.h[i]), fa([i], Implies(And(i >= 0, i < s.pn), ATT(s.p[i])), s.p[i]),
            fa([n], Implies(And(n > 0, ATT(n)), UP(n, DEPTH(n)) == s.root), ATT(n))]


def gc_pre(c, *a):
    s = Car(c)
    return car_pre(c) + kids_wf(c) + gc_tree(c, s) + kept_def(c, s)


def dropped(n): return And(n > 0, ATT(n), DEPTH(n) > 0, Not(KEPT(n)))


def erased_at(c, r, n): return z3.Select(c.I.read(lib.erased(c.I, r)).has, n)


def sets(lc): return [(i, v.has) for i, t, v in lc.cells() if isinstance(v, lib.Map)]


def gc_inv(c, lc):
    out = {}
    s = old(c, Car)
    n, i, d, o = z3.Ints("n!gc i!gc d!gc o!gc")
    if lc.ghost is None: return {}
    k = c.I.read(lc.ghost)
    n0 = z3.simplify(lc.seq[1]) if lc.seq is not None else None
    which = "pins" if n0 is not None and n0.eq(z3.simplify(s.pn)) else "history" if n0 is not None and n0.eq(z3.simplify(s.n)) else None
    for si, has in sets(lc):
        out[f"only{si}"] = fa([n], Implies(z3.Select(has, n), And(n > 0, ATT(n), KEPT(n))), z3.Select(has, n))
        cov = lambda lst, cnt: fa([i, d], Implies(And(i >= 0, i < cnt, d >= 0, d <= DEPTH(lst[i])), z3.Select(has, UP(lst[i], d))), UP(lst[i], d))
        for nm, lst, cnt in (("pins", s.p, s.pn), ("history", s.h, s.n)):
            if which is None or (which, nm) == ("history", "pins"): out[f"{nm}{si}"] = cov(lst, cnt)
            if which in (None, nm): out[f"{nm}so{si}"] = cov(lst, k)
        if which is None: out[f"cur{si}"] = fa([d], Implies(And(k >= 1, d >= 0, d <= DEPTH(s.cur)), z3.Select(has, UP(s.cur, d))), UP(s.cur, d))
    er = lambda o, n: erased_at(c, o, n)
    if any("erased!" in repr(m) for m in lc.mod): out["erased"] = fa([i, n], Implies(And(i >= 0, i < k, s.o[i] != 0, lib.ALIVE(s.o[i]), n > 0), er(s.o[i], n) == dropped(n)), er(s.o[i], n))
    return out


@post("Caretaker::garbage_collector", props=["S03"], real=True, pre=gc_pre, inv=gc_inv, tmo=20, modifies=lambda c: [c.this.originators, c.this.annotations, ("TreeNode", "children"), ("IOriginator", "erased!")])
def _(c, r):
    s0, s = old(c, Car), Car(c)
    K = kids(c); P = parents(c)
    i, n, p, a, w = z3.Ints("i!gc n!gc p!gc a!gc w!gc")
    q = (lambda vs, f, *ps: fa(vs, f, *ps)) if c.call_site else (lambda vs, f, *ps: f)
    live = lambda o: And(o != 0, lib.ALIVE(o))
    return [("every live object is told exactly the unreachable times", q([i, n], Implies(And(i >= 0, i < s0.on, live(s0.o[i]), n > 0), erased_at(c, s0.o[i], n) == dropped(n)), erased_at(c, s0.o[i], n))),
            ("annotations of reachable times stay, others go", q([n], Implies(n > 0, z3.Select(s.ahas, n) == And(z3.Select(s0.ahas, n), Not(dropped(n)))), z3.Select(s.ahas, n))),
            ("an annotation that stays is the same", q([n], Implies(z3.Select(s.ahas, n), s.ann[n] == s0.ann[n]), s.ann[n])),
            ("reachable times stay in the tree", q([n], Implies(And(n > 0, ATT(n), P[n] != 0, KEPT(n)), z3.Exists([w], And(w >= 0, w < z3.Select(K[0], P[n]), kid(K, P[n], w) == n))), P[n])),
            ("no other one is left in the tree", q([p, i], Implies(And(p > 0, ATT(p), Or(KEPT(p), DEPTH(p) == 0), i >= 0, i < z3.Select(K[0], p)), KEPT(kid(K, p, i))), kid(K, p, i))),
            ("live objects are still taken care of", q([i], Implies(And(i >= 0, i < s0.on, live(s0.o[i])), z3.Exists([w], And(w >= 0, w < s.on, s.o[w] == s0.o[i]))), s0.o[i])),
            ("dead ones no more", q([i], Implies(And(i >= 0, i < s.on), live(s.o[i])), s.o[i])), ("nothing new is taken care of", And(s.on >= 0, s.on <= s0.on))] + same_car(s, s0, ("originators", "annotations"))

class View_:
    """a caretaker's state with some fields replaced"""
    def __init__(self, s, **k): self.__dict__.update(s.__dict__); self.__dict__.update(k)


def truncated(s): return View_(s, n=If(s.has, s.base, s.n))


def with_gc(c, s):
    """preconditions of what ends in a collection, in state s"""
    s0 = Car(c)
    return car_pre(c) + kids_wf(c) + gc_tree(c, s0) + kept_def(c, s)


def no_other_left(c, cond):
    K = kids(c)
    p, i = z3.Ints("p!gc i!gc")
    f = Implies(And(cond, p > 0, ATT(p), Or(KEPT(p), DEPTH(p) == 0), i >= 0, i < z3.Select(K[0], p)), KEPT(kid(K, p, i)))
    return fa([p, i], f, kid(K, p, i)) if c.call_site else f


def kept_left(c, cond):
    K = kids(c); P = parents(c)
    n, w = z3.Ints("n!gc w!gc")
    f = Implies(And(cond, n > 0, ATT(n), P[n] != 0, KEPT(n)), z3.Exists([w], And(w >= 0, w < z3.Select(K[0], P[n]), kid(K, P[n], w) == n)))
    return fa([n], f, P[n]) if c.call_site else f


GC_MOD = lambda c: [c.this.originators, c.this.annotations, ("TreeNode", "children"), ("IOriginator", "erased!")]


@post("Caretaker::stop_browsing_user_history", props=["S04", "S03"], real=True, pre=lambda c: with_gc(c, truncated(Car(c))), modifies=lambda c: GC_MOD(c) + [c.this.user_history, c.this.user_history_browser], tmo=20)
def _(c, r):
    s0, s = old(c, Car), Car(c)
    i, n = z3.Ints("i!sb n!sb")
    f = Implies(And(i >= 0, i < s.n), s.h[i] == s0.h[i])
    return [("forgets exactly what was undone", And(s.n == If(s0.has, s0.base, s0.n), Not(s.has))), ("what is behind stays", fa([i], f, s.h[i]) if c.call_site else f),
            ("unreachable times go", no_other_left(c, And(s0.has, s0.auto))), ("reachable ones stay", kept_left(c, z3.BoolVal(True)))] + same_car(s, s0, ("history", "browser", "originators", "annotations")) \
        + [(nm, Implies(Not(s0.has), f)) for nm, f in same_car(s, s0)] + ([] if c.call_site else car_goals(c, s))


def remembers(s0, cur):
    """whether cur, now the present time, is not the one last gone to in what is remembered"""
    return If(s0.has, s0.h[s0.base - 1], s0.h[s0.n - 1]) != cur


def remembered(s0, s, new, cur):
    """remembering another time while browsing forgets what was undone"""
    return [("remembered once", And(s.n == If(new, If(s0.has, s0.base, s0.n) + 1, s0.n), Implies(new, s.h[s.n - 1] == cur))), ("no longer browsing another time", And(s.has == And(s0.has, Not(new)), Implies(s.has, s.base == s0.base))),
            ("what is remembered last is the present time", If(s.has, s.h[s.base - 1], s.h[s.n - 1]) == cur)]


@post("Caretaker::remember_current_timepoint", props=["S04"], real=True, pre=lambda c: with_gc(c, truncated(Car(c))), modifies=lambda c: GC_MOD(c) + [c.this.user_history, c.this.user_history_browser], tmo=20)
def _(c, r):
    s0, s = old(c, Car), Car(c)
    new = remembers(s0, s0.cur)
    i = z3.Int("i!rem")
    f = Implies(And(i >= 0, i < If(And(new, s0.has), s0.base, s0.n)), s.h[i] == s0.h[i])
    return remembered(s0, s, new, s0.cur) + [("earlier ones kept", fa([i], f, s.h[i]) if c.call_site else f)] + same_car(s, s0, ("history", "browser", "originators", "annotations")) \
        + [(nm, Implies(Not(And(s0.has, new)), f)) for nm, f in same_car(s, s0, ("history",))] + ([] if c.call_site else car_goals(c, s))


@post("Caretaker::go_and_remember", props=["S04"], real=True, nullable=(0,), pre=lambda c, t: [t.raw >= 0, Implies(in_tree(c, t.raw), ATT(t.raw))] + with_gc(c, View_(truncated(Car(c)), cur=If(in_tree(c, t.raw), t.raw, Car(c).cur))),
      modifies=lambda c, t: GC_MOD(c) + [c.this.current_timepoint, c.this.user_history, c.this.user_history_browser, TOLD()], tmo=20)
def _(c, r, t):
    init_told(c)
    s0, s = old(c, Car), Car(c)
    with At(c.I, c.old): ok = in_tree(c, t.raw)
    rv = r if z3.is_expr(r) else r.raw
    new = remembers(s0, t.raw)
    i = z3.Int("i!rem")
    f = Implies(And(i >= 0, i < If(And(ok, new, s0.has), s0.base, s0.n)), s.h[i] == s0.h[i])
    return [("succeeds exactly for times of this history", rv == ok), ("there now", s.cur == If(ok, t.raw, s0.cur))] + [(nm, Implies(ok, g)) for nm, g in remembered(s0, s, new, t.raw)] + \
           [(nm + " otherwise", Implies(Not(ok), g)) for nm, g in same_car(s, s0)] + [("earlier ones kept", f), ("everything taken care of is told", Implies(ok, all_told(c, t.raw, s0)))] + same_car(s, s0, ("cur", "history", "browser", "originators", "annotations"))


@post("Caretaker::make_next_timepoint", props=["S04", "S03"], real=True, pre=lambda c: with_gc(c, truncated(Car(c))), modifies=lambda c: GC_MOD(c) + [c.this.user_history, c.this.user_history_browser, c.this.current_timepoint], tmo=20)
def _(c, r):
    s0, s = old(c, Car), Car(c)
    i = z3.Int("i!mn")
    P = parents(c)
    f = Implies(And(i >= 0, i < s.n), s.h[i] == s0.h[i])
    return [("the new time is the present one, right after the former", And(r.raw == s.cur, P[s.cur] == s0.cur)), ("forgets exactly what was undone", And(s.n == If(s0.has, s0.base, s0.n), Not(s.has))),
            ("what is behind stays", fa([i], f, s.h[i]) if c.call_site else f)] + same_car(s, s0, ("cur", "history", "browser", "originators", "annotations"))


@post("Caretaker::unpin", props=["S03"], real=True, nullable=(0,), pre=lambda c, t: with_gc(c, View_(Car(c), pf=lambda x: x != t.raw)), modifies=lambda c, t: GC_MOD(c) + [c.this.pinned_timepoints], tmo=20)
def _(c, r, t):
    s0, s = old(c, Car), Car(c)
    i, w = z3.Ints("i!up w!up")
    g = lambda a, n: z3.Exists([w], And(w >= 0, w < n, a[w] == s0.p[i]))
    return [("no longer pinned", Implies(And(i >= 0, i < s.pn), s.p[i] != t.raw)), ("the others still are", Implies(And(i >= 0, i < s0.pn, s0.p[i] != t.raw), g(s.p, s.pn))),
            ("unreachable times go", no_other_left(c, s0.auto)), ("reachable ones stay", kept_left(c, z3.BoolVal(True)))] + same_car(s, s0, ("pinned", "originators", "annotations"))


@post("Caretaker::reset", props=["S03", "S04"], real=True, pre=lambda c: with_gc(c, View_(Car(c), n=lit(1), pn=lit(0), on=lit(0), cur=Car(c).root)),
      modifies=lambda c: GC_MOD(c) + [c.this.user_history, c.this.user_history_browser, c.this.current_timepoint, c.this.pinned_timepoints], tmo=20)
def _(c, r):
    s0, s = old(c, Car), Car(c)
    k = z3.Int("k!rs")
    return [("back at the initial time", And(s.cur == s0.root, s.root == s0.root)), ("only the initial time is remembered", And(s.n == 1, s.h[0] == s.root, Not(s.has))), ("nothing pinned", s.pn == 0),
            ("nothing taken care of", s.on == 0), ("no annotation", Implies(k > 0, Not(z3.Select(s.ahas, k)))), ("no other time is left", no_other_left(c, z3.BoolVal(True))), ("automatic collection as before", s.auto == s0.auto)]


@post("Caretaker::annotate_current_timepoint", props=["S03"], real=True, pre=car_pre, modifies=lambda c, a: [c.this.annotations])
def _(c, r, a):
    with At(c.I, c.old): av = a.raw
    s0, s = old(c, Car), Car(c)
    k = z3.Int("k!an")
    q = lambda f, *p: fa([k], f, *p) if c.call_site else f
    return [("annotated", z3.Select(s.ahas, s0.cur)), ("with the given annotation, when there was none", Implies(Not(z3.Select(s0.ahas, s0.cur)), s.ann[s0.cur] == av)),
            ("other annotations kept", q(Implies(Or(k != s0.cur, z3.Select(s0.ahas, k)), And(z3.Select(s.ahas, k) == z3.Select(s0.ahas, k), Implies(z3.Select(s0.ahas, k), s.ann[k] == s0.ann[k]))), z3.Select(s.ahas, k)))] + same_car(s, s0, ("annotations",))


@post("Caretaker::get_annotation", props=["S03"], real=True, nullable=(0,), modifies=lambda c, t: [])
def _(c, r, t):
    s = Car(c)
    return [("the time's annotation", r.raw == If(z3.Select(s.ahas, t.raw), s.ann[t.raw], lit(0)))]


def first_inv(c, lc, *a):
    s = Car(c)
    out = {}
    off = If(a[-1], lit(0), lit(1))
    j = z3.Int("j!ff")
    for ki, k in ([("g", c.I.read(lc.ghost))] if lc.ghost is not None else []) + lc.idx():
        out[f"none{ki}"] = fa([j], Implies(And(j >= off, j < k + off), Not(z3.Select(s.ahas, UP(s.cur, j)))), UP(s.cur, j))
    return out


@post("Caretaker::find_first_ancestor_with_annotation", props=["S03", "S05"], real=True, pre=car_pre, inv=first_inv, modifies=lambda c, itself: [])
def _(c, r, itself):
    s = Car(c)
    j = z3.Int("j!ff")
    off = If(itself, lit(0), lit(1))
    v = r.raw
    f = Implies(And(j >= off, j <= DEPTH(s.cur), Or(v == 0, j < DEPTH(s.cur) - DEPTH(v))), Not(z3.Select(s.ahas, UP(s.cur, j))))
    return [("annotated, on the chain", Implies(v != 0, And(v > 0, z3.Select(s.ahas, v), on_chain(s.cur, v, itself)))), ("the nearest one", fa([j], f, UP(s.cur, j)) if c.call_site else f)]


@post("Caretaker::take_care_of", props=["S03"], real=True, nullable=(0,), pre=car_pre, modifies=lambda c, o: [c.this.originators])
def _(c, r, o):
    s0, s = old(c, Car), Car(c)
    i = z3.Int("i!tc")
    o = o.raw
    I = c.I
    it = I.read(lib.iface(I, o, "init!", "TreeNode*"))
    ok = And(o != 0, I.read(lib.iface(I, o, "caretaker!", "TreeNode*")) == c.this.ref, it != 0, root(it) == s0.root)
    return [("taken care of when it belongs to this history", Implies(ok, And(s.on == s0.on + 1, s.o[s0.on] == o))), ("not otherwise", Implies(Not(ok), s.on == s0.on)), ("the others as before", Implies(And(i >= 0, i < s0.on), s.o[i] == s0.o[i]))] \
        + same_car(s, s0, ("originators",))


@post("Caretaker::Caretaker", None, props=["S04", "S03"], real=True, at_call=False, modifies=lambda c: [])
def _(c, r):
    s = Car(c)
    k = z3.Int("k!ck")
    return [("starts at its initial time, the only one remembered", And(s.root != 0, s.cur == s.root, s.n == 1, s.h[0] == s.root, Not(s.has))), ("nothing pinned, taken care of or annotated", And(s.pn == 0, s.on == 0, Not(z3.Select(s.ahas, k)))),
            ("collects by itself", s.auto), ("the initial time has no predecessor", z3.Select(parents(c), s.root) == 0)]


@lemma("undo and redo are inverse", props=["S04"])
def _(c):
    n, base, p, k, j = z3.Ints("n base p k j"); has = z3.Bool("has")
    h = z3.Array("h", Z, Z); cur = z3.Int("cur")

    class St: pass

    def st(has, base, cur):
        s = St(); s.n, s.h, s.has, s.base, s.cur = n, h, has, base, cur
        return s
    s = st(has, base, cur)
    inv = [n >= 1, Implies(has, And(base >= 1, base < n)), Implies(has, h[base - 1] == cur)]
    def moved(s, q): return st(q != n - 1, q + 1, h[q])
    u = moved(s, position(s) - k)
    d_ = moved(s, position(s) + k)
    remembered = Or(has, h[n - 1] == cur)
    uu = moved(moved(s, position(s) - k), position(s) - k - j)
    return [("redo after undo is possible", inv + [remembered, may_undo(s, k)], may_redo(u, k)),
            ("redo after undo returns", inv + [remembered, may_undo(s, k)], And(h[position(u) + k] == cur, position(u) + k == position(s))),
            ("undo after redo is possible and returns", inv + [may_redo(s, k)], And(may_undo(d_, k), h[position(d_) - k] == cur)),
            ("undoing in two goes is undoing in one", inv + [may_undo(s, k), j > 0], And(may_undo(u, j) == may_undo(s, k + j), Implies(may_undo(s, k + j), h[position(u) - j] == h[position(s) - (k + j)]))),
            ("as many redos as were undone", inv + [remembered, may_undo(s, k), Not(has), j > 0], may_redo(u, j) == (j <= k))]
