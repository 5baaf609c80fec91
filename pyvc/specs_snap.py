"""Contracts of the snapshot graphs: the store of snapshots, updates over a range of time and
per-snapshot queries, from an arbitrary sequence of snapshots that do not overlap."""
import itertools
from .logic import *
from .core import *
from .theory_graph import *
from .theory_snap import *
from .specs_graph import Task, wname, WIN
from .specs_tree import paths, no_raise, body

CLASSES = (("SnapshotGraph", "dynetworkx.classes.snapshotgraph"), ("SnapshotDiGraph", "dynetworkx.classes.snapshotdigraph"))


class State:
    """the sequence of snapshots a task starts from"""


def arb_snaps(eng, cls, mod, loose=False):
    """any snapshot graph; loose: any distinct intervals, overlapping or not"""
    s = State()
    s.n = z3.Int("count")
    s.lo, s.hi, s.gr = z3.Function("lo0", Int, Real), z3.Function("hi0", Int, Real), z3.Function("gr0", Int, GR)
    s.con = z3.Function("con0", Cell, Con)
    s.valid = lambda i: And(0 <= i, i < s.n)
    i, j = z3.Int("i"), z3.Int("j")
    eng.fact(s.n >= 0)
    eng.fact(z3.ForAll([i], Implies(s.valid(i), And(s.lo(i) <= s.hi(i), NINF < s.lo(i), s.hi(i) < INF)), patterns=[s.lo(i)]))
    eng.fact(z3.ForAll([i, j], Implies(And(0 <= i, i < j, j < s.n), Or(s.lo(i) < s.lo(j), And(s.lo(i) == s.lo(j), s.hi(i) < s.hi(j))) if loose else And(s.hi(i) <= s.lo(j), s.lo(i) < s.lo(j))), patterns=[z3.MultiPattern(s.lo(i), s.lo(j))]))
    eng.fact(z3.ForAll([i, j], Implies(And(0 <= i, i < j, j < s.n), Not(CELL(s.gr(i)) == CELL(s.gr(j)))), patterns=[z3.MultiPattern(s.gr(i), s.gr(j))]))
    eng.fact(z3.ForAll([i], BORN(CELL(s.gr(i))) <= 0, patterns=[s.gr(i)]))
    s.seq = Seq(s.n, s.lo, s.hi, s.gr)
    s.sref = eng.alloc(s.seq)
    s.ref = eng.alloc(ObjRec(eng.classes[(mod, cls)], {"graph": PyDict(), "snapshots": s.sref}))
    s.gh = eng.gh
    return s


def unchanged(eng, s, graphs=True):
    f = eng.heap[s.ref.id].fields
    if not (isinstance(f["snapshots"], HRef) and eng.heap[f["snapshots"].id] is s.seq):
        raise Unsupported("a query changes the snapshots")
    if graphs and eng.gh is not s.gh:
        raise Unsupported("a query changes a snapshot")


def now(eng, s):
    f = eng.heap[s.ref.id].fields["snapshots"]
    q = eng.heap[f.id] if isinstance(f, HRef) else None
    if not isinstance(q, Seq):
        raise Unsupported("SnapshotGraph.snapshots")
    return q


def window(eng, b, n):
    w = (z3.Real("start") if b else None, z3.Real("end") if n else None)
    for t in w:
        if t is not None:
            eng.fact(And(NINF < t, t < INF))
    if b and n:
        eng.fact(w[0] < w[1])
    return w


def meets(s, i, b, n):
    """the interval of a snapshot (one point, or closed below and open above) meets [b, n)"""
    c = [TRUE]
    if n is not None:
        c.append(s.lo(i) < n)
    if b is not None:
        c.append(Or(b < s.hi(i), s.lo(i) >= b))
    return And(c)


def positions(eng, s, bad=False):
    """a list of positions, counted from either end"""
    m, at, j = z3.Int("picks"), z3.Function("pick", Int, Int), z3.Int("j")
    eng.fact(m >= 0)
    s.m, s.pick = m, lambda j: z3.If(at(j) < 0, at(j) + s.n, at(j))
    s.raw = at
    if not bad:
        eng.fact(z3.ForAll([j], Implies(And(0 <= j, j < m), And(-s.n <= at(j), at(j) < s.n)), patterns=[at(j)]))
    return eng.alloc(CollRec("list", [Part((j,), And(0 <= j, j < m), at(j))], "pos"))


SEL = [("sbunch", None)] + [("range", w) for w in WIN]


def selname(k, w): return "positions" if k == "sbunch" else "range=" + "s-"[not w[0]] + "e-"[not w[1]]


def select(eng, s, kind, w):
    """(keyword arguments, guard(j), position(j)): the j-th selected snapshot"""
    if kind == "sbunch":
        sb = positions(eng, s)
        return {"sbunch": sb}, (lambda j: And(0 <= j, j < s.m)), s.pick, s.raw
    b, n = window(eng, *w)
    kw = {}
    if b is not None:
        kw["start"] = b
    if n is not None:
        kw["end"] = n
    return kw, (lambda j: And(s.valid(j), meets(s, j, b, n))), (lambda j: j), None


def sel_index(e, decl, sub):
    """the argument of the first application of decl in what the element is made of"""
    todo, seen = [t for t in vfree(e) if isinstance(t, z3.ExprRef)] if not isinstance(e, z3.ExprRef) else [e], set()
    while todo:
        t = todo.pop(0)
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t):
            if t.num_args() == 1 and t.decl().eq(decl):
                return t.arg(0)
            todo += t.children()
    return None


def check_seq(eng, rv, what, guard, want, decl, same):
    """rv lists want(j) for j with guard(j), in increasing order of j"""
    if isinstance(rv, Fam):
        r = rv
    elif isinstance(rv, HRef) and isinstance(eng.heap[rv.id], CollRec):
        r = eng.heap[rv.id]
    else:
        raise Unsupported("result %r" % (rv,))
    if r.kind != "list" or not is_pos(Fam(r.parts, r.kind, (), r.order)) and r.parts:
        raise Unsupported("order of the results")
    ps = []
    for p in map(rename, r.parts):
        t = sel_index(p.elem, decl, None)
        if t is None:
            # nothing identifies the snapshot: then it must be wrong wherever it is produced
            eng.oblige(what + ": each result is about a selected snapshot", Not(Exists(p.vars, p.guard)))
            continue
        ps.append((p, t))
    for p, t in ps:
        eng.oblige(what + ": a result for selected snapshots only", Implies(p.guard, guard(t)))
        eng.oblige(what + ": the result is the one of that snapshot, with the caller's parameters", Implies(p.guard, same(p.elem, want(t))))
    for i, (p, t) in enumerate(ps):
        for j, (q, u) in enumerate(ps):
            r2 = rename(Part(q.vars, q.guard, u))
            if j > i:
                eng.oblige(what + ": one result for each snapshot", Not(And(p.guard, subst(q.guard, [(q.vars[0], p.vars[0])]))))
            eng.oblige(what + ": results in the order of the snapshots", Implies(And(p.guard, r2.guard, p.vars[0] < r2.vars[0]), t < r2.elem))
    z = fresh("any", Int)
    eng.oblige(what + ": a result for every selected snapshot", Implies(guard(z), Or([Exists(p.vars, And(p.guard, Eq(t, z))) for p, t in ps])))


def decl_of(f):
    return f(z3.Int("i")).decl()


# ---------------------------------------------------------------- C17: per-snapshot queries
def plain(*names): return lambda eng: ([], {}, {})


def q_args(method, shape):
    """arguments beside the selection: keyword arguments, and what the networkx call gets"""
    def f(eng):
        tok = lambda n: Token(n)
        if method == "has_node":
            t = tok("n")
            return {"n": t}, ("has_node", {"n": t})
        if method == "size":
            if shape == "weight":
                t = tok("weight")
                return {"weight": t}, ("size", {"weight": t})
            return {}, ("size", {})
        if method == "degree":
            kw, loc = {}, {}
            if "nbunch" in shape:
                kw["nbunch"] = loc["nbunch"] = tok("nbunch")
            if "weight" in shape:
                kw["weight"] = loc["weight"] = tok("weight")
            return kw, ("degree", loc)
        if method == "compute_network_statistic":
            fn = UserFn("statistic")
            kw = {"nx_statistic_function": fn}
            if "params" in shape:
                kw["param"] = z3.Const("param", Val)
            return kw, ("call", {"fn": fn, "rest": (), "kw": eng.content_of(eng.make_kwargs(None, {k: v for k, v in kw.items() if k == "param"}))})
        return {}, ("order" if method == "number_of_nodes" else method, {})
    return f


QUERIES = [(m, "") for m in ("number_of_nodes", "order", "is_multigraph", "is_directed", "to_directed", "to_undirected", "has_node", "size")] + \
          [("size", "weight"), ("degree", ""), ("degree", "nbunch"), ("degree", "weight"), ("degree", "nbunch+weight"),
           ("compute_network_statistic", ""), ("compute_network_statistic", "params")]


def t_query(cls, mod, method, shape, kind, w):
    def run(eng):
        s = arb_snaps(eng, cls, mod)
        kw, guard, pos, raw = select(eng, s, kind, w)
        extra, (name, loc) = q_args(method, shape)(eng)
        what = "%s.%s" % (cls, method)
        rv = no_raise(eng, what, lambda: body(eng, s.ref, method, **dict(kw, **extra)))
        unchanged(eng, s)
        check_seq(eng, rv, what, guard, lambda j: NXVal(name, s.gr(pos(j)), loc), decl_of(s.gr) if raw is None else raw,
                  lambda a, b: vsame(eng, a, b) if isinstance(a, NXVal) else FALSE)
    return run


def t_subgraph(cls, mod, kind, w):
    def run(eng):
        s = arb_snaps(eng, cls, mod)
        kw, guard, pos, raw = select(eng, s, kind, w)
        nb = Token("nbunch")
        what = "%s.subgraph" % cls
        rv = no_raise(eng, what, lambda: body(eng, s.ref, "subgraph", nbunch=nb, **kw))
        unchanged(eng, s)
        o = eng.heap[rv.id] if isinstance(rv, HRef) else None
        if not isinstance(o, ObjRec) or "SnapshotGraph" not in o.cls.mro_names():
            raise Unsupported("result %r" % (rv,))
        m = eng.heap[o.fields["snapshots"].id]
        if isinstance(m, Seq) and z3.is_int_value(m.n) and m.n.as_long() == 0:
            m = SMap([])
        if not isinstance(m, SMap):
            raise Unsupported("the snapshots of a subgraph")
        ps = list(map(rename, m.parts))
        for p in ps:
            (a, b), v = p.elem
            if not isinstance(v, NXVal):
                eng.oblige(what + ": induced subgraphs are stored", Not(Exists(p.vars, p.guard)))
                continue
            j = sel_index(v.g, decl_of(s.gr) if raw is None else raw, None)
            if j is None:
                raise Unsupported("a stored subgraph")
            eng.oblige(what + ": selected snapshots only", Implies(p.guard, guard(j)))
            eng.oblige(what + ": under the interval of its snapshot", Implies(p.guard, And(Eq(a, s.lo(pos(j))), Eq(b, s.hi(pos(j))))))
            eng.oblige(what + ": the subgraph induced by the caller's nodes", Implies(p.guard, vsame(eng, v, NXVal("subgraph", s.gr(pos(j)), {"nodes": nb}))))
        z = fresh("any", Int)
        eng.oblige(what + ": every selected snapshot", Implies(guard(z), Or([Exists(p.vars, And(p.guard, Eq(p.elem[0][0], s.lo(pos(z))), Eq(p.elem[0][1], s.hi(pos(z))))) for p in ps])))
    return run


# ---------------------------------------------------------------- C15: the store
def t_get(cls, mod, kind, w):
    def run(eng):
        s = arb_snaps(eng, cls, mod)
        kw, guard, pos, raw = select(eng, s, kind, w)
        what = cls + ".get"
        rv = no_raise(eng, what, lambda: body(eng, s.ref, "get", **kw))
        unchanged(eng, s)
        check_seq(eng, rv, what, guard, lambda j: s.gr(pos(j)), decl_of(s.gr) if raw is None else raw, lambda a, b: Eq(a, b) if is_gr(a) else FALSE)
    return run


def t_iter(cls, mod):
    def run(eng):
        s = arb_snaps(eng, cls, mod)
        what = cls + ".__iter__"
        rv = no_raise(eng, what, lambda: eng.iter(body(eng, s.ref, "__iter__")))
        unchanged(eng, s)
        check_seq(eng, rv, what, s.valid, lambda j: s.gr(j), decl_of(s.gr), lambda a, b: Eq(a, b) if is_gr(a) else FALSE)
    return run


def t_len(cls, mod):
    def run(eng):
        s = arb_snaps(eng, cls, mod)
        rv = no_raise(eng, cls + ".__len__", lambda: body(eng, s.ref, "__len__"))
        unchanged(eng, s)
        eng.oblige(cls + ".__len__: the number of snapshots", eng.num(rv) == s.n)
    return run


def t_contains(cls, mod):
    def run(eng):
        s = arb_snaps(eng, cls, mod)
        g, i = z3.Const("graph", GR), fresh("i", Int)
        rv = no_raise(eng, cls + ".__contains__", lambda: body(eng, s.ref, "__contains__", graph=g))
        unchanged(eng, s)
        eng.oblige(cls + ".__contains__: stored", Iff(bool_(rv), Exists([i], And(s.valid(i), s.gr(i) == g))))
    return run


def t_init(cls, mod):
    def run(eng):
        r = no_raise(eng, cls + "()", lambda: eng.instantiate(eng.classes[(mod, cls)], [], {}))
        q = eng.heap[eng.heap[r.id].fields["snapshots"].id]
        if not isinstance(q, Seq):
            raise Unsupported("SnapshotGraph.snapshots")
        eng.oblige(cls + "(): no snapshots", q.n == 0)
    return run


def t_selection_error(cls, mod, method, extra):
    """positions and a range cannot both be given"""
    def run(eng):
        s = arb_snaps(eng, cls, mod)
        for b, n in ((1, 0), (0, 1), (1, 1)):
            pass
        b = eng.decide(z3.Bool("start given"))
        n = eng.decide(z3.Bool("end given"))
        if not (b or n):
            raise Infeasible()
        w = window(eng, b, n)
        kw = dict(extra(eng), sbunch=positions(eng, s))
        if b:
            kw["start"] = w[0]
        if n:
            kw["end"] = w[1]
        try:
            body(eng, s.ref, method, **kw)
        except PyRaise as r:
            eng.oblige("%s.%s: ValueError for positions and a range" % (cls, method), TRUE if r.exc.name == "ValueError" else FALSE)
            unchanged(eng, s)
            return
        eng.oblige("%s.%s: ValueError for positions and a range" % (cls, method), FALSE)
    return run


def insert_post(eng, s, what, key, content):
    """the snapshot is stored at its interval and no other is touched"""
    q = now(eng, s)
    con = eng.gh.con
    i, j = fresh("i", Int), fresh("j", Int)
    cand = lambda i: [i + d for d in (0, 1, -1, 2, -2)]
    other = lambda S, i: Not(And(S.lo(i) == key[0], S.hi(i) == key[1]))
    eng.oblige(what + ": every other snapshot is kept", Implies(And(s.valid(i), other(s, i)), Or([And(q.valid(k), q.lo(k) == s.lo(i), q.hi(k) == s.hi(i), q.gr(k) == s.gr(i)) for k in cand(i)])))
    eng.oblige(what + ": nothing else is added", Implies(And(q.valid(j), other(q, j)), Or([And(s.valid(k), q.lo(j) == s.lo(k), q.hi(j) == s.hi(k), q.gr(j) == s.gr(k)) for k in cand(j)])))
    pts = [t for t in eng.bisects] + [z3.IntVal(0)]
    eng.oblige(what + ": the snapshot is stored under its interval", Or([And(q.valid(k), q.lo(k) == key[0], q.hi(k) == key[1], content(q.gr(k))) for p in pts for k in cand(p)]))
    eng.oblige(what + ": whatever is under that interval is the snapshot", Implies(And(q.valid(j), q.lo(j) == key[0], q.hi(j) == key[1]), content(q.gr(j))))
    eng.oblige(what + ": the contents of the stored snapshots stay", Implies(s.valid(i), con(CELL(s.gr(i))) == s.con(CELL(s.gr(i)))))


TIMES = ["start+end", "time", "none", "start", "end", "time+start", "time+end", "time+start+end"]


def t_insert(cls, mod, method, times, graph, multi=None):
    def run(eng):
        s = arb_snaps(eng, cls, mod, True)
        kw = {k: z3.Real(k) for k in times.split("+") if k != "none"}
        for t in kw.values():
            eng.fact(And(NINF < t, t < INF))
        what = "%s.%s" % (cls, method)
        order = kw["start"] <= kw["end"] if "start" in kw and "end" in kw else TRUE
        good = times in ("start+end", "time")
        if graph:
            kw["graph"] = z3.Const("graph", GR)
            eng.fact(BORN(CELL(kw["graph"])) <= 0)
        else:
            kw["ebunch"] = Token("ebunch")
        if multi is not None:
            kw["multi"] = multi
        try:
            body(eng, s.ref, method, **kw)
        except PyRaise as r:
            eng.oblige(what + ": rejected only when the interval is missing, given twice or reversed", TRUE if not good else Not(order))
            eng.oblige(what + ": rejected with ValueError", TRUE if r.exc.name == "ValueError" else FALSE)
            if now(eng, s) is not s.seq:
                raise Unsupported("snapshots changed by a rejected call")
            return
        eng.oblige(what + ": accepted only with an interval", And(TRUE if good else FALSE, order))
        if not good:
            return
        key = (kw["time"],) * 2 if "time" in kw else (kw["start"], kw["end"])
        if graph:
            insert_post(eng, s, what, key, lambda g: And(g == kw["graph"], eng.gh.con(CELL(g)) == s.con(CELL(g))))
        else:
            kind = "Graph" if cls == "SnapshotGraph" else "MultiDiGraph" if multi else "DiGraph"
            U = eng.op("add_edges_from", {"ebunch_to_add": kw["ebunch"], "**": eng.content_of(eng.make_kwargs(None, {}))})
            insert_post(eng, s, what, key, lambda g: eng.gh.con(CELL(g)) == U(empty_con(kind)))
    return run


# ---------------------------------------------------------------- C16: updates
def by_cases(eng, q, name, hyp, goal, *idx):
    """one obligation, discharged separately for where the indices lie: among the pieces of the
    new sequence, or (indices of the old one) among the positions the code computed. goal gives
    the alternatives of a disjunction, one of which may be enough"""
    cases = [([], [])]
    for new, i in idx:
        out = []
        for c, w in cases:
            if new:
                start = z3.IntVal(0)
                for end, it in q.segs:
                    vals = it if isinstance(it, tuple) else [f(z3.simplify(i + it)) for f in q.base]
                    # (the values there follow from the definition of the sequence)
                    out.append((c + [start <= i, i < end] + [f(i) == v for f, v in zip((q.lo, q.hi, q.gr), vals)], w + ([] if isinstance(it, tuple) else [i + it])))
                    start = end
            else:
                out += [(c + [d], w) for d in near_cases(eng, i)]
        cases = [(c, w) for c, w in out if not Solver.quick_unsat(eng.ctx() + c + [hyp], 100000)]
    # the cases cover the hypothesis: each split is a partition and only refuted cells are dropped
    k = len(eng.conds), len(eng.facts)
    for c, w in cases:
        eng.conds += [hyp] + c
        alts = goal(w)
        for g in alts:
            if len(alts) > 1 and Solver.quick_unsat(eng.ctx() + [Not(g)], 400000):
                eng.oblige(name, g)
                break
        else:
            eng.oblige(name, Or(alts))
        del eng.conds[k[0]:], eng.facts[k[1]:]


def near_cases(eng, i):
    ps = list({p.get_id(): p for p in eng.bisects}.values())
    out = [[]]
    for p in ps:
        out = [c + [d] for c in out for d in (i < p - 1, i == p - 1, i == p, i > p)]
    return [And(c) for c in out]


def covers(S, i, t): return Or(And(S.lo(i) <= t, t < S.hi(i)), And(S.lo(i) == t, S.hi(i) == t))


def t_update(cls, mod, method, kind, w, attrs):
    bunch = "nbunch" if method == "add_nodes_from" else "ebunch"

    def run(eng):
        s = arb_snaps(eng, cls, mod)
        kw, guard, pos, raw = select(eng, s, kind, w)
        if kind == "sbunch":
            i, j = z3.Int("i"), z3.Int("j")
            eng.fact(z3.ForAll([i, j], Implies(And(0 <= i, i < j, j < s.m), Not(pos(i) == pos(j))), patterns=[z3.MultiPattern(raw(i), raw(j))]))
        items = Token(bunch)
        extra = {"attr": z3.Const("value", Val)} if attrs else {}
        what = "%s.%s" % (cls, method)
        no_raise(eng, what, lambda: body(eng, s.ref, method, **dict(kw, **dict({bunch: items}, **extra))))
        U = eng.op(method, {"nodes_for_adding" if bunch == "nbunch" else "ebunch_to_add": items, "**": eng.content_of(eng.make_kwargs(None, extra))})
        q, con = now(eng, s), eng.gh.con
        i, j, k = fresh("i", Int), fresh("j", Int), fresh("k", Int)
        if kind == "sbunch":
            if q is not s.seq:
                raise Unsupported("positions change the snapshots")
            inn = Exists([k], And(guard(k), pos(k) == i))
            c = CELL(s.gr(i))
            eng.oblige(what + ": exactly the snapshots at the positions change", Implies(s.valid(i), And(
                Implies(inn, con(c) == U(s.con(c))), Implies(Not(inn), con(c) == s.con(c)))))
            return
        b, n = kw.get("start"), kw.get("end")
        t = fresh("t", Real)
        asked = And(TRUE if b is None else b <= t, TRUE if n is None else t < n)
        oldc = lambda i: z3.If(asked, U(s.con(CELL(s.gr(i)))), s.con(CELL(s.gr(i)))) if not z3.is_true(asked) else U(s.con(CELL(s.gr(i))))
        near = lambda j: [j + d for d in (0, -1, -2, 1, 2)]
        two = And(0 <= j, j < k, k < q.n)
        by_cases(eng, q, what + ": snapshots do not overlap", two, lambda w: [And(q.hi(j) <= q.lo(k), q.lo(j) < q.lo(k))], (1, j), (1, k))
        by_cases(eng, q, what + ": intervals run forward", q.valid(j), lambda w: [q.lo(j) <= q.hi(j)], (1, j))
        by_cases(eng, q, what + ": snapshots are independent", two, lambda w: [Not(CELL(q.gr(j)) == CELL(q.gr(k)))], (1, j), (1, k))
        # proved for any two positions: usable below
        x, y = z3.Int("x"), z3.Int("y")
        for f, g in ((q.lo, And(q.hi(x) <= q.lo(y), q.lo(x) < q.lo(y))), (q.gr, Not(CELL(q.gr(x)) == CELL(q.gr(y))))):
            if f(x).decl().kind() == z3.Z3_OP_UNINTERPRETED:
                eng.facts.append(z3.ForAll([x, y], Implies(And(0 <= x, x < y, y < q.n), g), patterns=[z3.MultiPattern(f(x), f(y))]))
        some = lambda w, j: w + near(j) + [z3.simplify(p + d) for p in eng.bisects for d in (-1, 0)]
        by_cases(eng, q, what + ": every instant of a snapshot stays covered", And(s.valid(i), covers(s, i, t)),
                 lambda w: [And(q.valid(k), covers(q, k, t)) for k in near(i)] + [Or([And(q.valid(k), covers(q, k, t)) for k in near(i)])], (0, i))
        by_cases(eng, q, what + ": the update is seen at exactly the instants of the range, and no instant becomes covered", And(q.valid(j), covers(q, j, t)),
                 lambda w: [And(s.valid(k), covers(s, k, t), con(CELL(q.gr(j))) == oldc(k)) for k in some(w, j)], (1, j))
        by_cases(eng, q, what + ": only the ends of the range split a snapshot", q.valid(j),
                 lambda w: [q.lo(j) == x for x in (b, n) if x is not None] + [And(s.valid(k), q.lo(j) == s.lo(k)) for k in some(w, j)], (1, j))
    return run


def snap_tasks():
    out = []

    def add(cls, id, method, fn, props):
        t = Task("%s.%s" % (cls, id), cls, method, paths(fn), props)
        t.props, t.engine = set(props), SEngine
        out.append(t)
    for cls, mod in CLASSES:
        add(cls, "__init__", "__init__", t_init(cls, mod), ("C15",))
        add(cls, "__iter__", "__iter__", t_iter(cls, mod), ("C15",))
        add(cls, "__len__", "__len__", t_len(cls, mod), ("C15",))
        add(cls, "__contains__", "__contains__", t_contains(cls, mod), ("C15",))
        for k, w in SEL:
            add(cls, "get %s" % selname(k, w), "get", t_get(cls, mod, k, w), ("C15",))
            for m in ("add_nodes_from", "add_edges_from"):
                for a in (False, True):
                    add(cls, "%s %s%s" % (m, selname(k, w), " attrs" if a else ""), m, t_update(cls, mod, m, k, w, a), ("C16",))
            for m, shape in QUERIES:
                add(cls, "%s(%s) %s" % (m, shape, selname(k, w)), m, t_query(cls, mod, m, shape, k, w), ("C17",))
            add(cls, "subgraph %s" % selname(k, w), "subgraph", t_subgraph(cls, mod, k, w), ("C17",))
        add(cls, "get positions+range", "get", t_selection_error(cls, mod, "get", lambda eng: {}), ("C15",))
        for tm in TIMES:
            add(cls, "insert %s" % tm, "insert", t_insert(cls, mod, "insert", tm, True), ("C15",))
            for g in (True, False):
                for mu in ((None,) if cls == "SnapshotGraph" or g else (None, True, False)):
                    add(cls, "add_snapshot %s %s%s" % ("graph" if g else "ebunch", tm, "" if mu is None else " multi=%s" % mu), "add_snapshot",
                        t_insert(cls, mod, "add_snapshot", tm, g, mu), ("C15",))
    return out
