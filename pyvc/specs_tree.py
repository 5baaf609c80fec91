"""Contracts of IntervalTree: its recursive operations against the subtree invariant, and its
public operations against the set of edges it holds."""
import itertools
from .logic import *
from .core import *
from .theory_graph import *
from .theory_tree import *
from .specs_graph import Task, check_parts, check_state, t_query as reading_task, more, wname, WIN


def arb_tree(eng):
    """a tree object in any state satisfying its invariant"""
    c = eng.new_chunk(tag="root")
    S, E = c.S, eng.th.E
    has, at = z3.Function("idx", Real, Real, Bool), z3.Function("at", Real, Real, TN)
    m, e, a, b = z3.Const("m", TN), z3.Const("e", IEdge), z3.Real("a"), z3.Real("b")
    W = z3.Function("someedge", TN, IEdge)
    k = lambda m: (LOW(m), HIGH(m))
    eng.fact(z3.ForAll([m], Implies(S(m), And(has(*k(m)), at(*k(m)) == m, NINF < LOW(m), HIGH(m) < INF, E(m, W(m)))), patterns=[S(m)]))
    eng.fact(z3.ForAll([a, b], Implies(has(a, b), And(S(at(a, b)), LOW(at(a, b)) == a, HIGH(at(a, b)) == b)), patterns=[has(a, b), at(a, b)]))
    eng.fact(z3.ForAll([m, e], Implies(And(S(m), E(m, e)), And(LOW(m) == IEdge.ib(e), HIGH(m) == IEdge.in_(e))), patterns=[E(m, e)]))
    begin, end, w = z3.Real("t.begin"), z3.Real("t.end"), z3.Const("first0", TN)
    eng.fact(z3.ForAll([m], Implies(S(m), begin <= LOW(m)), patterns=[S(m)]))
    eng.fact(If3(c.root == null, And(begin == INF, end == NINF), And(S(w), LOW(w) == begin, end == c.mx)))
    cls = eng.classes[("dynetworkx.classes.intervaltree", "IntervalTree")]
    nd = eng.alloc(NodeDict(has, at))
    ref = eng.alloc(ObjRec(cls, {"nodes": nd, "root": c.root, "number_of_edges": z3.Int("t.count"), "begin": begin, "end": end}))
    T0 = lambda f: And(has(IEdge.ib(f), IEdge.in_(f)), E(at(IEdge.ib(f), IEdge.in_(f)), f))
    return ref, c, T0


def If3(c, a, b): return And(Implies(c, a), Implies(Not(c), b))


def tree_post(eng, ref, T, count, what):
    """the tree satisfies its invariant and holds exactly T"""
    o = eng.heap[ref.id].fields
    if not (isinstance(o["nodes"], HRef) and isinstance(eng.heap[o["nodes"].id], NodeDict)):
        raise Unsupported("IntervalTree.nodes")
    N = eng.heap[o["nodes"].id]
    has, at, E = N.has, N.at, eng.th.E
    root = eng.to_tn(o["root"])
    F, mx, h = eng.fold(root, what)
    m, e, a, b = fresh("m", TN), fresh("e", IEdge), fresh("a", Real), fresh("b", Real)
    k = (LOW(m), HIGH(m))
    ob = lambda n, f: eng.oblige(what + ": " + n, f)
    ob("every node of the tree is indexed under its times", Implies(F(m), And(has(*k), at(*k) == m)))
    n = at(a, b)
    ob("every indexed node is in the tree, with those times", Implies(has(a, b), And(F(n), LOW(n) == a, HIGH(n) == b)))
    w = fresh("we", IEdge)
    ob("every node keeps an edge", Implies(F(m), Exists([w], E(m, w))))
    ob("a node's edges have its times", Implies(And(F(m), E(m, e)), And(LOW(m) == edge_comp(e, 2), HIGH(m) == edge_comp(e, 3))))
    ob("times are finite", Implies(F(m), And(NINF < LOW(m), LOW(m) <= HIGH(m), HIGH(m) < INF)))
    begin, end = toreal(eng, o["begin"]), toreal(eng, o["end"])
    w = fresh("wn", TN)
    empty = TRUE if mx is None else (root == null)
    ob("begin is the earliest begin", And(Implies(F(m), begin <= LOW(m)), Or(Exists([w], And(F(w), LOW(w) == begin)), And(Not(Exists([w], F(w))), begin == INF))))
    w = fresh("wn", TN)
    ob("end is the latest end", And(Implies(F(m), HIGH(m) <= end), Or(Exists([w], And(F(w), HIGH(w) == end)), And(Not(Exists([w], F(w))), end == NINF))))
    ob("exactly the named edge changes", Iff(And(has(edge_comp(e, 2), edge_comp(e, 3)), E(at(edge_comp(e, 2), edge_comp(e, 3)), e)), T(e)))
    if count is not None:
        ob("the edge count is right", eng.num(o["number_of_edges"]) == count)


def frame_ok(eng, obj, ref, E0):
    if eng.heap[ref.id] is not obj or eng.th.E is not E0:
        raise Unsupported("a recursive operation changes the tree object")


def body(eng, ref, name, **args):
    f = eng.heap[ref.id].cls.lookup(name)
    eng.inlined.add(f.qual)
    kw = args.pop("kw", {})
    loc = eng.bind(f, ref, [], dict(args, **kw))
    if f.is_gen:
        return eng.run_gen(f, loc)
    return eng.run_body(f, loc)


def no_raise(eng, what, fn):
    try:
        return fn()
    except PyRaise as r:
        eng.oblige("%s does not raise %s" % (what, r.exc.name), FALSE)
        raise Infeasible()


def fresh_tree(eng):
    """the tree object, when only a subtree is worked on"""
    cls = eng.classes[("dynetworkx.classes.intervaltree", "IntervalTree")]
    ref = eng.alloc(ObjRec(cls, {}))
    return ref, eng.heap[ref.id], eng.th.E


def paths(fn):
    def run(eng):
        def one():
            fn(eng)
            eng.path_end()
        eng.run_paths(one)
    return run


def leaf(eng, c):
    n, m = z3.Const("node", TN), z3.Const("m", TN)
    eng.fact(And(Not(n == null), LOW(n) <= HIGH(n)))
    eng.fact(z3.ForAll([m], Implies(c.S(m), And(Not(m == n), Or(klt(m, n), klt(n, m)))), patterns=[c.S(m)]))
    h = z3.Int("h.node")
    eng.fact(h >= 0)
    recs = dict(eng.th.recs)
    recs[n.get_id()] = NRec(n, left=null, right=null, max=HIGH(n), height=h)
    eng.set_th(recs=recs)
    return n


def t_insert(eng):
    ref, obj, E0 = fresh_tree(eng)
    c = eng.new_chunk(tag="root")
    n = leaf(eng, c)
    eng.variant = (c.S, c.root)
    rv = no_raise(eng, "insert", lambda: body(eng, ref, "insert", root=c.root, node=n))
    frame_ok(eng, obj, ref, E0)
    F, mx, h = eng.fold(rv, "insert: result")
    m = fresh("m", TN)
    eng.oblige("insert: the result holds exactly the old nodes and the new one", Iff(F(m), Or(c.S(m), m == n)))
    eng.oblige("insert: the result is not empty", Not(eng.to_tn(rv) == null))


def t_discard(eng):
    ref, obj, E0 = fresh_tree(eng)
    c = eng.new_chunk(tag="root")
    n = z3.Const("node", TN)
    eng.fact(c.S(n))
    eng.variant = (c.S, c.root)
    rv = no_raise(eng, "discard", lambda: body(eng, ref, "discard", root=c.root, node=n))
    frame_ok(eng, obj, ref, E0)
    F, mx, h = eng.fold(rv, "discard: result")
    m = fresh("m", TN)
    eng.oblige("discard: the result holds exactly the other nodes", Iff(F(m), And(c.S(m), Not(m == n))))


def t_leftmost(eng):
    ref, obj, E0 = fresh_tree(eng)
    c = eng.new_chunk(tag="root")
    eng.fact(Not(c.root == null))
    eng.variant = (c.S, c.root)
    h0 = eng.th
    rv = no_raise(eng, "leftmost", lambda: body(eng, ref, "leftmost", node=c.root))
    frame_ok(eng, obj, ref, E0)
    if eng.th is not h0:
        raise Unsupported("leftmost changes the tree")
    r, m = eng.to_tn(rv), fresh("m", TN)
    eng.oblige("leftmost: the result is a node of the subtree", c.S(r))
    eng.oblige("leftmost: no node comes before the result", Implies(c.S(m), Or(m == r, klt(r, m))))


def t_updatemax(eng):
    """updateMax(node): node.max becomes the greatest of node.high and its children's max; nothing else changes"""
    eng.no_updatemax = True
    ref, obj, E0 = fresh_tree(eng)
    c = eng.new_chunk(tag="root")
    eng.fact(Not(c.root == null))
    eng.make_rec(c)
    r = eng.th.recs[c.root.get_id()].put("max", z3.Real("oldmax"))
    eng.set_th(recs={c.root.get_id(): r})
    kids = eng.th.chunks
    no_raise(eng, "updateMax", lambda: body(eng, ref, "updateMax", node=c.root))
    frame_ok(eng, obj, ref, E0)
    r2 = eng.th.recs.get(c.root.get_id())
    if list(eng.th.recs) != [c.root.get_id()] or len(eng.th.chunks) != len(kids) or any(a is not b for a, b in zip(kids, eng.th.chunks)) \
            or any(not r.fields[k].eq(r2.fields[k]) for k in ("left", "right", "height")):
        raise Unsupported("updateMax changes more than a node's max")
    eng.oblige("updateMax: max is the greatest end in the subtree", eng.max_spec(r2, toreal(eng, r2.fields["max"])))


def result_parts(rv):
    if not isinstance(rv, Fam):
        raise Unsupported("result %r" % (rv,))
    return list(map(rename, rv.parts))


def tn_key(el): return el if isinstance(el, z3.ExprRef) and el.sort() == TN else None


def t_query(eng):
    ref, obj, E0 = fresh_tree(eng)
    c = eng.new_chunk(tag="root")
    eng.fact(Not(c.root == null))
    eng.variant = (c.S, c.root)
    b, n = z3.Real("begin"), z3.Real("end")
    eng.fact(b <= n)
    h0 = eng.th
    rv = no_raise(eng, "query", lambda: body(eng, ref, "query", node=c.root, begin=b, end=n))
    frame_ok(eng, obj, ref, E0)
    if eng.th is not h0:
        raise Unsupported("query changes the tree")
    check_parts(eng, result_parts(rv), "query", tn_key, lambda m: And(c.S(m), hits(m, b, n)), sort=TN)


def t_inorder(eng):
    ref, obj, E0 = fresh_tree(eng)
    c = eng.new_chunk(tag="root")
    eng.variant = (c.S, c.root)
    h0 = eng.th
    rv = no_raise(eng, "inOrder", lambda: body(eng, ref, "inOrder", root=c.root))
    frame_ok(eng, obj, ref, E0)
    if eng.th is not h0:
        raise Unsupported("inOrder changes the tree")
    check_parts(eng, result_parts(rv), "inOrder", tn_key, lambda m: c.S(m), sort=TN)


def t_init(eng):
    cls = eng.classes[("dynetworkx.classes.intervaltree", "IntervalTree")]
    ref = no_raise(eng, "IntervalTree()", lambda: eng.instantiate(cls, [], {}))
    tree_post(eng, ref, lambda f: FALSE, 0, "IntervalTree()")


def t_add(eng):
    ref, c, T0 = arb_tree(eng)
    e = z3.Const("edge", IEdge)
    eng.fact(And(Not(T0(e)), CFGS["IntervalGraph"].times_ok(e)))
    rv = no_raise(eng, "add", lambda: body(eng, ref, "add", edge=e))
    tree_post(eng, ref, lambda f: Or(T0(f), f == e), z3.Int("t.count") + 1, "add")


def t_remove(eng):
    ref, c, T0 = arb_tree(eng)
    e = z3.Const("edge", IEdge)
    rv = no_raise(eng, "remove", lambda: body(eng, ref, "remove", edge=e))
    tree_post(eng, ref, lambda f: And(T0(f), Not(f == e)), z3.Int("t.count") - z3.If(T0(e), 1, 0), "remove")


def e_key(eng):
    def f(el):
        if is_edge(el):
            return el
        return eng.to_edge(el, IEdge) if isinstance(el, tuple) else None
    return f


def same_tree(eng, ref, obj, h0):
    if eng.heap[ref.id] is not obj or eng.th is not h0:
        raise Unsupported("a search changes the tree")


def t_slice(method, wb, wn):
    def run(eng):
        ref, c, T0 = arb_tree(eng)
        b, n = z3.Real("begin") if wb else None, z3.Real("end") if wn else None
        for t in (b, n):
            if t is not None:
                eng.fact(And(NINF < t, t < INF))
        if wb and wn:
            eng.fact(b <= n)
        obj, h0 = eng.heap[ref.id], eng.th

        def call():
            if method == "slice":
                r = body(eng, ref, "slice", interval_start=b, interval_end=n)
            else:
                r = eng.getitem(ref, slice(b, n))
            return eng.iter(r)
        rv = no_raise(eng, method, call)
        same_tree(eng, ref, obj, h0)
        check_parts(eng, result_parts(rv), method, e_key(eng), lambda f: And(T0(f), meets(eng, f, b, n)), sort=IEdge)
    return run


WHICH = {"unique_timestamps": (2, 3), "unique_begin_timestamps": (2,), "unique_end_timestamps": (3,)}


def t_unique(method, wb, wn):
    def run(eng):
        ref, c, T0 = arb_tree(eng)
        b, n = z3.Real("begin") if wb else None, z3.Real("end") if wn else None
        inc = (z3.Bool("inc_begin"), z3.Bool("inc_end"))
        obj, h0 = eng.heap[ref.id], eng.th
        rv = no_raise(eng, method, lambda: body(eng, ref, method, begin=b, end=n, inclusive=inc))
        same_tree(eng, ref, obj, h0)
        check_unique(eng, rv, method, T0, obj.fields["begin"], obj.fields["end"], WHICH[method], b, n, inc)
    return run


def check_unique(eng, rv, what, T, sb, sn, which, b, n, inc):
    r = eng.heap[rv.id] if isinstance(rv, HRef) else rv
    if not isinstance(r, CollRec) or r.kind != "list":
        raise Unsupported("result %r" % (rv,))
    eng.oblige(what + ": the result is in increasing order", TRUE if r.order == "asc" else FALSE)
    b, n = sb if b is None else b, sn if n is None else n

    def spec(t):
        e = fresh("e", IEdge)
        return And(Exists([e], And(T(e), Or([Eq(edge_comp(e, i), t) for i in which]))), lower(eng, t, b, inc[0]), upper(eng, t, n, inc[1]))
    key = lambda el: toreal(eng, el) if eng.is_num(el) else None
    check_parts(eng, list(map(rename, r.parts)), what, key, spec, sort=Real)


@more
def q_unique(cfg):
    """the listings of distinct timestamps, as the graph offers them"""
    if not cfg.interval:
        return
    for m in WHICH:
        for wb, wn in WIN:
            def args(eng, wb=wb, wn=wn):
                b, n = z3.Real("begin") if wb else None, z3.Real("end") if wn else None
                inc = (z3.Bool("inc_begin"), z3.Bool("inc_end"))
                kw = {"inclusive": inc}
                if wb:
                    kw["begin"] = b
                if wn:
                    kw["end"] = n
                return [], kw, {"b": b, "n": n, "inc": inc}

            def check(eng, S0, I, rv, m=m):
                what = "%s.%s" % (cfg.name, m)
                r = eng.heap[rv.id] if isinstance(rv, HRef) else rv
                if not isinstance(r, CollRec) or r.kind != "list":
                    raise Unsupported("result %r" % (rv,))
                eng.oblige(what + ": the result is in increasing order", TRUE if r.order == "asc" else FALSE)

                def spec(t):
                    e, f = fresh("e", IEdge), fresh("f", IEdge)
                    lo = lower(eng, t, I["b"], I["inc"][0]) if I["b"] is not None else \
                        Or(I["inc"][0], Exists([f], And(S0.L(f), edge_comp(f, 2) < t)))
                    hi = upper(eng, t, I["n"], I["inc"][1]) if I["n"] is not None else \
                        Or(I["inc"][1], Exists([f], And(S0.L(f), edge_comp(f, 3) > t)))
                    return And(Exists([e], And(S0.L(e), Or([Eq(edge_comp(e, i), t) for i in WHICH[m]]))), lo, hi)
                check_parts(eng, list(map(rename, r.parts)), what, lambda el: toreal(eng, el) if eng.is_num(el) else None, spec, sort=Real)
            yield reading_task(cfg, m, wname(wb, wn), args, check)


def tree_tasks():
    out = []

    def add(id, method, fn, props):
        t = Task("IntervalTree." + id, "IntervalTree", method, paths(fn), props)
        t.props = set(props)
        t.engine = TEngine
        out.append(t)
    STATE = ("C01", "C02", "C03", "C04", "C05", "C06", "C13", "C19")
    for name, fn in (("insert", t_insert), ("discard", t_discard), ("leftmost", t_leftmost), ("updateMax", t_updatemax), ("__init__", t_init), ("add", t_add), ("remove", t_remove)):
        add(name, name, fn, STATE)
    add("query", "query", t_query, ("C01", "C03", "C04", "C06", "C13"))
    add("inOrder", "inOrder", t_inorder, ("C19",))
    for b, n in WIN:
        w = "window=" + "b-"[not b] + "e-"[not n]
        add("slice " + w, "slice", t_slice("slice", b, n), ("C01", "C03", "C04", "C06", "C13"))
        add("__getitem__ " + w, "__getitem__", t_slice("__getitem__", b, n), ("C01", "C03", "C04", "C06", "C13"))
        for m in WHICH:
            add("%s %s" % (m, w), m, t_unique(m, b, n), ("C19",))
    return out
