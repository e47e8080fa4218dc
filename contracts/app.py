"""Contracts of the application level: the order in which steps are run, marks in history, what a step calls (A01)."""
import z3
from verify import *
from tables import STEPS, step as step_, pos

PA1 = ["A01"]
Z, B = z3.IntSort(), z3.BoolSort()
NEXT, MARK, REMEMBER, GO, GO_REMEMBER, RUN = 1, 2, 3, 4, 5, 6
STEP0, PART0 = 100, 200
TRACE = [("Call!", x) for x in ("n", "f", "a0", "a1")]
# what the history answers, as a function of how many calls were made before
NOW = z3.Function("current_point", Z, Z)
ANN = z3.Function("mark_of", Z, Z, Z)
FIRST = z3.Function("first_marked_ancestor", Z, B, Z)

CALLS = ("adjust_edges_to_materials detect_diagonal_angles detect_diagonal_zones solve_diagonal_zones_angles detect_edges_in_polygons detect_colinear_edges add_fixed_meshline_policies auto_solve_all_edge_in_polygon "
         "auto_solve_all_colinear_edges detect_individual_edges detect_and_solve_too_close_meshline_policies detect_intervals detect_intervals_per_diagonal_zones solve_diagonal_zones_intervals mesh").split()


def num(x): return x if z3.is_expr(x) else lit(x)


def ref(I, x):
    if isinstance(x, (W,)): x = x.raw
    if not isinstance(x, (z3.ExprRef, int, ObjLoc)): x = I.val(x)
    return x.ref if isinstance(x, ObjLoc) else num(x)


def nm(I, x):
    """a name for a value"""
    if x.num_args() == 0: return x
    k = I.fresh("v", x.sort()); I.assume(k == x)
    return k


def emit(I, code, a0=0, a1=0):
    n, fs, xs = I.call_trace()
    fs, xs = [nm(I, fs[0])], [[nm(I, x[0])] for x in xs]
    k = nm(I, I.sel(n[0], lit(0)))
    for f, v, arr in (("f", code, fs), ("a0", a0, xs[0]), ("a1", a1, xs[1])):
        I.st.heap[("Call!", f)] = [z3.Store(arr[0], k, num(v))]
    I.st.heap[("Call!", "n")] = [z3.Store(n[0], lit(0), k + 1)]
    return UNIT


def made(I, st=None):
    n, f, a = I.call_trace(st)
    return I.sel(n[0], lit(0)), f[0], a[0][0], a[1][0]


def ann_step(c, a):
    """the step an annotation stands for"""
    I = c.I
    t = I.prog.tys["app::Annotation"]
    return wrap(I, ObjLoc(a, t), t).before_step


def m_mark(c, o, a):
    I = c.I
    return emit(I, MARK, ann_step(c, ref(I, a[0])))


def m_annotation(c, o, a):
    r = ANN(ref(c.I, a[0]), made(c.I)[0])
    c.I.assume(r >= 0)
    return r


HISTORY = {
    "Caretaker::get_current_timepoint": lambda c, o, a: NOW(made(c.I)[0]),
    "Caretaker::get_annotation": m_annotation,
    "Caretaker::make_next_timepoint": lambda c, o, a: (emit(c.I, NEXT), NOW(made(c.I)[0]))[1],
    "Caretaker::annotate_current_timepoint": m_mark,
    "Caretaker::remember_current_timepoint": lambda c, o, a: emit(c.I, REMEMBER),
    "Caretaker::find_first_ancestor_with_annotation": lambda c, o, a: FIRST(made(c.I)[0], c.I.num(c.I.val(a[0])) if a else z3.BoolVal(False)),
    "Caretaker::go_without_remembering": lambda c, o, a: emit(c.I, GO, ref(c.I, a[0])),
    "Caretaker::go_and_remember": lambda c, o, a: emit(c.I, GO_REMEMBER, ref(c.I, a[0])),
}
PIPELINE = {("domain::Board::" + f, 0): (lambda c, o, a, i=i: emit(c.I, STEP0 + i, ref(c.I, o))) for i, f in enumerate(CALLS)}


def board(c): return c.this.board.raw


def run_step(c, has, i, n, tr):
    """what step i adds to the trace from its n-th call on: (statements, position after it)"""
    I = c.I
    f, a0 = tr[0], tr[1]
    a = ANN(NOW(n), n)
    I.assume(a >= 0)
    # a point in time already marked for another step is left first
    pre = And(a != 0, ann_step(c, a) != step_(c, i))
    m = nm(I, If(pre, n + 1, n))
    still = NOW(m) == NOW(m + 2)
    s = STEPS[i]
    return [(s + " is marked, then run", Implies(has(i), And(I.sel(f, m) == MARK, I.sel(a0, m) == step_(c, i), I.sel(f, m + 1) == STEP0 + i, I.sel(a0, m + 1) == board(c)))),
            (s + " does not share its mark's point in time", Implies(has(i), And(Implies(pre, I.sel(f, n) == NEXT), Implies(still, I.sel(f, m + 2) == NEXT))))], \
        If(has(i), If(still, m + 3, m + 2), n)


def cut(c):
    """between two statements of run: the last one added what step i adds, and changed nothing before; from here on only that is known (a cut of the proof, every part of it an obligation)"""
    I = c.I
    N, *arrs = made(I)
    seen = I.st.ghost.get("cut", ())
    if not seen:
        with At(I, c.old): seen = (made(I),)
    N0, *old = seen[-1]
    if N.eq(N0) or len(seen) > len(STEPS): return
    i = len(seen) - 1
    steps = c.args[0]
    k = z3.Int("k!cut")
    has = lambda i: I.sel(steps.raw.has, step_(c, i))
    facts, nxt = run_step(c, has, i, N0, arrs)
    for nme, g in facts + [(STEPS[i] + " adds nothing else", N == nxt)]: I.oblige("run: " + nme, g)
    I.oblige("run: the trace grows", N >= N0)
    for x, o in zip(arrs, old): I.oblige("run: earlier calls stay", Implies(k < N0, I.sel(x, k) == I.sel(o, k)))
    key = ("app::Annotation", "before_step")
    if key in I.st.heap:      # marks made meanwhile are history's: from now on nothing is known of them
        x, o = I.st.heap[key][0], z3.Const("H.app::Annotation.before_step.0", I.st.heap[key][0].sort())
        I.oblige("run: earlier marks keep their step", Implies(k > 0, I.sel(x, k) == I.sel(o, k)))
        I.st.heap[key] = [o]
    I.st.facts = list(I.st.ghost.get("known", c.old.facts))
    ys = []
    for x, o in zip(arrs, old):
        y = I.fresh("trace", x.sort())
        I.assume(z3.ForAll([k], Implies(k < N0, y[k] == o[k]), patterns=[y[k]]))
        ys.append(y)
    n = I.fresh("calls", Z)
    facts, nxt = run_step(c, has, i, N0, ys)
    for nme, g in facts + [("", n == nxt), ("", n >= N0)]: I.assume(g)
    for f, y in zip(("f", "a0", "a1"), ys): I.st.heap[("Call!", f)] = [y]
    I.st.heap[("Call!", "n")] = [z3.Store(z3.Const("H.Call!.n.0", z3.ArraySort(Z, Z)), lit(0), n)]
    I.st.ghost["known"] = tuple(I.st.facts)
    I.st.ghost["cut"] = seen + ((n, *ys),)


@post("app::OpenEMSH::run", None, props=PA1, at_call=False, budget=200, feas=40, quiet=True, cut=cut, mocks={**HISTORY, **PIPELINE}, modifies=lambda c, *a: TRACE,
      pre=lambda c, steps: [c.this.board.raw > 0])
def _(c, r, steps):
    I = c.I
    seen = I.st.ghost.get("cut", ())
    if len(seen) != len(STEPS) + 1: raise Unsupported("run is not one statement per step")
    N, f, a0, a1 = made(I)
    out = []
    for i, x in enumerate(seen[:-1]): out += run_step(c, lambda i: I.sel(steps.raw.has, step_(c, i)), i, x[0], (f, a0))[0]
    n = seen[-1][0]
    return out + [("nothing else is run, the end is remembered", And(N == n + 1, f[n] == REMEMBER))]


# ---- which steps are run, and from where ---------------------------------------------
def m_run(c, o, a):
    I = c.I
    m = I.val(a[0])
    I.st.ghost["ran"] = I.st.ghost.get("ran", ()) + ((m, ref(I, o)),)
    return emit(I, RUN)


RUNS = {**HISTORY, "app::OpenEMSH::run": m_run}


def ran(c): return c.I.st.ghost.get("ran", ())


def one_run(c, want, when=None):
    """exactly one run, on this object, of exactly the steps wanted"""
    I = c.I
    r = ran(c)
    if len(r) != 1: return [("the steps are run once", z3.BoolVal(False) if when is None else Not(when))]
    m, this = r[0]
    w = when if when is not None else z3.BoolVal(True)
    return [("something is to be run", w), ("on the same design", this == c.this.target()[0].ref)] + [(f"{s} is run exactly when it is due", I.sel(m.has, step_(c, i)) == want(i)) for i, s in enumerate(STEPS)]


def simple(name, params=None, mocks=None, **k):
    return post("app::OpenEMSH::" + name, params, props=PA1, at_call=False, mocks=mocks or RUNS, modifies=lambda c, *a: TRACE, **k)


@simple("run_all_steps")
def _(c, r): return one_run(c, lambda i: z3.BoolVal(True))


@simple("run_from_step")
def _(c, r, s): return one_run(c, lambda i: pos(c, s) <= i + 1)


def last_mark(c, itself=False):
    with At(c.I, c.old): n = made(c.I)[0]
    a = ANN(FIRST(n, z3.BoolVal(itself)), n)
    return a, ann_step(c, a)


@simple("run_next_step")
def _(c, r):
    a, s = last_mark(c)
    c.I.assume(a >= 0)
    last = len(STEPS) - 1
    due = lambda i: If(a == 0, z3.BoolVal(i == 0), s == step_(c, i - 1)) if i else a == 0
    return one_run(c, due, Or(a == 0, s != step_(c, last)))


@simple("can_run_a_next_step")
def _(c, r):
    a, s = last_mark(c)
    c.I.assume(a >= 0)
    return [("unless the last step was run", r == Or(a == 0, s != step_(c, len(STEPS) - 1))), ("nothing is run", z3.BoolVal(not ran(c)))]


@simple("can_go_before")
def _(c, r):
    with At(c.I, c.old): n = made(c.I)[0]
    return [("when a marked point comes before", r == (FIRST(n, z3.BoolVal(False)) != 0))]


@simple("get_current_step")
def _(c, r):
    a, s = last_mark(c, True)
    c.I.assume(a >= 0)
    return [("known when something is marked", r.has == (a != 0)), ("the step of that mark", Implies(a != 0, r.value == s))]


def moved(c, code, where):
    I = c.I
    with At(I, c.old): n = made(I)[0]
    N, f, a0, a1 = made(I)
    return [("history is moved in once", And(N == n + 1, f[n] == code)), ("to that point", a0[n] == where)]


@simple("go_before_previous_step")
def _(c, r):
    with At(c.I, c.old): n = made(c.I)[0]
    return moved(c, GO_REMEMBER, FIRST(n, z3.BoolVal(False)))


WITH = z3.Function("first_ancestor_marked_for", Z, Z, Z)


def m_that(c, o, a):
    """the search itself is under contract (S03); here: what is searched for"""
    I = c.I
    step, = c.args
    x = z3.Int("any!mark")
    I.assume(x > 0)
    got = I.call_value(I.val(a[0]), [x])
    I.oblige("go_before: looks for the mark of that step", I.num(I.val(got)) == (ann_step(c, x) == step))
    return WITH(made(I)[0], step)


@simple("go_before", mocks={**RUNS, "Caretaker::find_first_ancestor_with_annotation_that": m_that})
def _(c, r, s):
    with At(c.I, c.old): n = made(c.I)[0]
    return moved(c, GO, WITH(n, s))


# ---- each step does its work on every plane, every axis -------------------------------
EACH = [(f, "Plane", "domain::Board::" + f, None) for f in "adjust_edges_to_materials detect_diagonal_angles detect_diagonal_zones detect_edges_in_polygons detect_colinear_edges detect_individual_edges".split()]
EACH += [("solve_diagonal_zones_angles", "Axis", "domain::ConflictManager::auto_solve_all_diagonal_angles", "conflict_manager"),
         ("solve_diagonal_zones_intervals", "Axis", "domain::ConflictManager::auto_solve_all_diagonal_zones", "conflict_manager"),
         ("auto_solve_all_edge_in_polygon", "Plane", "domain::ConflictManager::auto_solve_all_edge_in_polygon", "conflict_manager"),
         ("auto_solve_all_colinear_edges", "Axis", "domain::ConflictManager::auto_solve_all_colinear_edges", "conflict_manager")]
EACH += [(f, "Axis", "domain::MeshlinePolicyManager::" + f, "line_policy_manager") for f in "detect_and_solve_too_close_meshline_policies detect_intervals detect_intervals_per_diagonal_zones mesh".split()]
ENUM = {"Plane": ("XY", "YZ", "ZX"), "Axis": ("X", "Y", "Z")}


def each(f, kind, q, member):
    mock = {(q, 1): lambda c, o, a: emit(c.I, PART0, c.I.val(a[0]), ref(c.I, o))}

    @post("domain::Board::" + f, [], props=PA1, at_call=False, mocks=mock, modifies=lambda c, *a: TRACE, label="Board::" + f + "()",
          pre=lambda c: [c.this.conflict_manager.raw > 0, c.this.line_policy_manager.raw > 0])
    def _(c, r):
        I = c.I
        with At(I, c.old): n = made(I)[0]
        N, fn, a0, a1 = made(I)
        on = getattr(c.this, member).raw if member else c.this.target()[0].ref
        out = [("done three times", N == n + 3)]
        for v in ENUM[kind]:
            x = c.enum(kind, v)
            out.append((f"{v} is done, by the design's own part", Or(*[And(fn[n + j] == PART0, a0[n + j] == x, a1[n + j] == on) for j in range(3)])))
        return out


for e in EACH: each(*e)


# ---- A02 -----------------------------------------------------------------------------
STR = z3.StringSort()
EXISTS = z3.Function("file_exists", STR, B)


def sval(c, x): return c.I.num(c.I.val(x))


FILES = {"std::filesystem::exists": lambda c, o, a: EXISTS(sval(c, a[0]))}


@post("app::OpenEMSH::is_about_overwriting", None, props=["A02"], at_call=False, mocks=FILES, pre=lambda c: [Or(c.this.board.raw == 0, c.this.board.global_params.raw > 0)])
def _(c, r):
    p = c.this.params
    csx = p.output_format == c.enum("app::OpenEMSH::Params::OutputFormat", "CSX")
    grid = And(c.this.board.raw != 0, p.input == p.output, c.this.board.global_params.state.has_grid_already)
    return [("announced exactly when a file or a grid would be lost", r == And(csx, Not(p.force), Or(EXISTS(p.output), grid)))]
