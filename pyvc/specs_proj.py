"""Contracts of the projections onto static graphs: to_subgraph, to_networkx_graph and
to_snapshots. A static graph under construction is the log of what networkx is given
(assumed of networkx: add_edges_from / add_nodes_from store copies of what they are given)."""
from .specs_graph import *
from .specs_graph import MORE, more

FLAGS = list(itertools.product((False, True), repeat=4))     # multigraph, edge data, time data, node data


def flag_args(cfg, fl):
    td = "edge_interval_data" if cfg.interval else "edge_timestamp_data"
    return dict(zip(("multigraph", "edge_data", td, "node_data"), fl))


def fname(fl): return "flags=" + "".join("MEIN"[i] if f else "-" for i, f in enumerate(fl))


def want_content(eng, cfg, S0, e, fl):
    c = S0.eattr(e) if fl[1] else EMPTY
    if fl[2]:
        names = (("begin", 2), ("end", 3)) if cfg.interval else (("timestamp", 2),)
        add = [(eng.as_key(n), edge_comp(e, i)) for n, i in names]

        def val(k):
            r = timeval(add[-1][1])
            for a, t in reversed(add[:-1]):
                r = ite(Eq(k, a), timeval(t), r)
            return r
        c = merge_content(c, Content(lambda k: Or([Eq(k, a) for a, _ in add]), val))
    return c


def edge_index(cfg, p, times=()):
    """the stored edge an entry of the log stands for, read off its index variables"""
    es = [v for v in p.vars if v.sort() == cfg.sort]
    if len(es) == 1:
        return [es[0]]
    if not cfg.interval:
        ns, ts = [v for v in p.vars if v.sort() == Nd], [v for v in p.vars if v.sort() == Real]
        if len(ns) == 2 and len(ts) <= 1 and (ts or times):
            return [PEdge.pe(a, b, t) for t in (ts or times) for a, b in (ns, ns[::-1])]
    raise Unsupported("what an entry of the static graph stands for")


def check_static(eng, cfg, S0, nm, rec, win, fl, times=()):
    """rec, a static graph under construction, is the projection of the edges satisfying win"""
    kind = ("Multi" if fl[0] else "") + ("DiGraph" if cfg.directed else "Graph")
    if rec.kind != kind:
        eng.oblige(nm + ": the static graph is a " + kind, FALSE)
        return
    spec = lambda e: And(S0.L(e), win(e))
    parts = list(map(rename, rec.edges))
    ends = lambda a, b, e: Or(And(Eq(a, cfg.u(e)), Eq(b, cfg.v(e))), FALSE if cfg.directed else And(Eq(a, cfg.v(e)), Eq(b, cfg.u(e))))
    k = fresh("k", Key)
    idx = []
    for p in parts:
        a, b, c = p.elem
        a, b = as_nd(a), as_nd(b)
        if a is None or b is None:
            raise Unsupported("end nodes of a static edge")
        best = None
        for m in edge_index(cfg, p, times):
            f = ForallDER(p.vars, Implies(p.guard, And(spec(m), ends(a, b, m))))
            if best is None or Solver.quick_unsat(eng.ctx() + [Not(f)], 1000000):
                best = m
        idx.append((p, best))
        eng.oblige(nm + ": every static edge joins the end nodes of a stored edge of the window",
                   ForallDER(p.vars, Implies(p.guard, And(spec(best), ends(a, b, best)))))
        w = want_content(eng, cfg, S0, best, fl)
        eng.oblige(nm + ": a static edge carries exactly the requested data of its edge",
                   Implies(p.guard, And(Iff(c.has(k), w.has(k)), Implies(w.has(k), Eq(c.val(k), w.val(k))))))
    z = fresh("any", cfg.sort)
    if fl[0]:
        mem = Or([Exists(p.vars, And(p.guard, Eq(m, z))) for p, m in idx])
        for i, (p, m) in enumerate(idx):
            for j, (q, l) in enumerate(idx):
                if j < i:
                    continue
                r = rename(Part(q.vars, q.guard, l))
                same = And([Eq(a, b) for a, b in zip(p.vars, r.vars)]) if i == j else FALSE
                eng.oblige(nm + ": a stored edge gives one static edge", Implies(And(p.guard, r.guard, Eq(m, r.elem)), same))
    else:
        mem = Or([Exists(p.vars, And(p.guard, ends(as_nd(p.elem[0]), as_nd(p.elem[1]), z))) for p, m in idx])
    eng.oblige(nm + ": every stored edge of the window gives a static edge", Implies(spec(z), mem))
    x = fresh("any", Nd)
    e = fresh("e", cfg.sort)
    here = lambda y: Exists([e], And(spec(e), Or(Eq(cfg.u(e), y), Eq(cfg.v(e), y))))
    given = []
    for p in map(rename, rec.nodes):
        n, c = as_nd(p.elem[0]), p.elem[1]
        if n is None:
            raise Unsupported("nodes of a static graph")
        given.append(Exists(p.vars, And(p.guard, Eq(n, x))))
        eng.oblige(nm + ": only end nodes of the window's edges are nodes", Implies(p.guard, here(n)))
        w = S0.nattr(n) if fl[3] else EMPTY
        eng.oblige(nm + ": a node carries exactly the requested attributes",
                   Implies(p.guard, And(Iff(c.has(k), w.has(k)), Implies(w.has(k), Eq(c.val(k), w.val(k))))))
    if fl[3]:
        eng.oblige(nm + ": every end node carries its attributes",
                   Implies(here(x), Or(Or(given), Not(Exists([k], S0.nattr(x).has(k))))))


def check_projection(eng, cfg, S0, nm, gref, rv, loc, fl):
    """rv is the projection onto the window loc"""
    r, ref = eng.rec(rv) if isinstance(rv, Value) else (None, None)
    if isinstance(r, NXRec):
        check_static(eng, cfg, S0, nm, r, lambda e: window(eng, cfg, e, loc), fl,
                     [loc[x] for x in ("begin", "end") if loc.get(x) is not None])
    elif isinstance(r, Proj):
        same_projection(eng, cfg, S0, nm, gref, r, loc, fl, TRUE, ())
    else:
        raise Unsupported("result %r where a static graph is expected" % (rv,))


def same_projection(eng, cfg, S0, nm, gref, r, loc, fl, guard, vs):
    """a projection made by to_subgraph is the one onto the window loc (where guard holds)"""
    if r.gref.id != gref.id:
        eng.oblige(nm + ": the projection is of this graph", FALSE)
        return
    for n, want in flag_args(cfg, fl).items():
        got = r.args[n]
        t = eng.truth(got) if not isinstance(got, bool) else got
        eng.oblige(nm + ": the option %s is passed on" % n, Implies(guard, Iff(bool_(t), bool_(want))))
    e = fresh("e", cfg.sort)
    eng.oblige(nm + ": the window is the requested one", Implies(And(guard, S0.L(e)), Iff(window(eng, cfg, e, r.args), window(eng, cfg, e, loc))))


@more
def q_to_subgraph(cfg):
    for method in ("to_subgraph", "to_networkx_graph"):
        for lab, w in win_variants(cfg, method):
            for fl in FLAGS:
                if method == "to_networkx_graph" and fl not in ((False,) * 4, (True,) * 4, (False, True, False, True), (True, False, True, False)):
                    continue

                def args(eng, w=w, fl=fl):
                    loc, kw = w(eng)
                    kw = dict(kw, **flag_args(cfg, fl))
                    kw.setdefault("begin", None)
                    kw.setdefault("end", None)
                    return [], kw, {"loc": loc}

                def check(eng, S0, I, rv, fl=fl, method=method):
                    check_projection(eng, cfg, S0, "%s.%s" % (cfg.name, method), I["g"], rv, I["loc"], fl)
                yield t_query(cfg, method, lab + "," + fname(fl), args, check)


@more
def q_to_snapshots(cfg):
    if cfg.name == "IntervalDiGraph":
        pass
    nm = "%s.to_snapshots" % cfg.name
    for how in ("number", "length"):
        for ret in (False, True):
            for fl in ((False,) * 4, (True,) * 4, (False, True, False, True), (True, False, True, False)):
                def args(eng, how=how, ret=ret, fl=fl):
                    kw = flag_args(cfg, fl)
                    I = {}
                    if how == "number":
                        kw["number_of_snapshots"] = I["n"] = z3.Int("number")
                    else:
                        kw["length_of_snapshots"] = I["len"] = z3.Real("length")
                        eng.fact(And(z3.Real("length") > 0, z3.Real("length") < INF))
                    kw["return_length"] = ret
                    w = fresh("w", cfg.sort)
                    L = z3.Function("L@g", cfg.sort, Bool)
                    eng.fact(Exists([w], L(w)))        # the graph has an edge
                    I["may_raise"] = {}
                    return [], kw, I

                def check(eng, S0, I, rv, how=how, ret=ret, fl=fl):
                    length = None
                    if ret:
                        if not (isinstance(rv, tuple) and len(rv) == 2):
                            eng.oblige(nm + ": the snapshots and their length are returned", FALSE)
                            return
                        rv, length = rv
                    if not (isinstance(rv, HRef) and isinstance(eng.heap[rv.id], CollRec) and eng.heap[rv.id].kind == "list"):
                        raise Unsupported("result of to_snapshots")
                    lo, hi = I["span"]
                    if how == "number":
                        n = I["n"]
                        ln = (hi - lo) / z3.ToReal(n)
                    else:
                        ln = I["len"]
                        n = fresh("n", Int)
                        # the least number of windows of this length covering the span
                        eng.fact(And(z3.ToReal(n) * ln >= hi - lo, z3.ToReal(n - 1) * ln < hi - lo))
                        for _, y, q in eng.divs:
                            for a, b in itertools.permutations((n, n - 1, q, q + 1), 2):
                                product_lemma(eng, a, b, ln)
                    if length is not None:
                        eng.oblige(nm + ": the length returned is the one used", eng.num(length) == ln)
                    rec = eng.heap[rv.id]
                    parts = list(map(rename, rec.parts))
                    if rec.order == "pos+%d" % (len(parts) - 1) and not parts[-1].vars and all(len(p.vars) == 1 and p.vars[0].sort() == Int for p in parts[:-1]):
                        # a block by window number, then one snapshot: that one is the last window's
                        i = fresh("i", Int)
                        for p in parts[:-1]:
                            eng.oblige(nm + ": the snapshots are in order", Implies(p.guard, p.vars[0] < n - 1))
                        parts[-1] = Part((i,), And(parts[-1].guard, i == n - 1), parts[-1].elem)
                    elif not is_pos(Fam(parts, "list", (), rec.order)):
                        raise Unsupported("order of the snapshots")
                    z = fresh("any", Int)
                    have = []
                    for p in parts:
                        r = eng.rec(p.elem)[0]
                        if not isinstance(r, Proj) or len(p.vars) != 1 or p.vars[0].sort() != Int:
                            raise Unsupported("snapshot %r" % (p.elem,))
                        i = p.vars[0]
                        have.append(subst(p.guard, [(i, z)]))
                        for q in parts:
                            if q is not p:
                                eng.oblige(nm + ": each window gives one snapshot", Not(And(p.guard, subst(q.guard, [(q.vars[0], i)]))))
                        loc = {"begin": lo + ln * z3.ToReal(i), "end": lo + ln * z3.ToReal(i + 1)}
                        last = i == n - 1
                        e = fresh("e", cfg.sort)
                        w0 = dict(loc, inclusive=(True, False))
                        w1 = dict(loc, inclusive=(True, True))
                        if cfg.interval:
                            # the last window reaches past the end of the span
                            want = Or(window(eng, cfg, e, w0), And(last, edge_comp(e, 2) == hi, loc["begin"] <= hi))
                            want = z3.If(last, Or(window(eng, cfg, e, {"begin": loc["begin"], "end": None})), window(eng, cfg, e, w0))
                        else:
                            want = z3.If(last, window(eng, cfg, e, w1), window(eng, cfg, e, w0))
                        for nme, v in flag_args(cfg, fl).items():
                            got = r.args[nme]
                            if got is not v:
                                eng.oblige(nm + ": the option %s is passed on" % nme, FALSE)
                        goal = Implies(And(p.guard, S0.L(e)), Iff(window(eng, cfg, e, r.args), want))
                        pairs = []
                        for x in ("begin", "end"):      # bounds that are equal get one name, which spares the prover their arithmetic
                            t = eng.num(r.args[x])
                            if not t.eq(loc[x]) and Solver.quick_unsat(eng.ctx() + [p.guard, t != loc[x]], 3000000):
                                c = fresh("w_" + x, Real)
                                pairs += [(t, c), (loc[x], c)]
                        g2 = subst(goal, pairs)
                        if pairs and Solver.quick_unsat(eng.ctx() + [Not(g2)], 3000000):
                            goal = g2
                        eng.oblige(nm + ": snapshot i is the projection onto window i", goal)
                    eng.oblige(nm + ": one snapshot per window, in order", Iff(Or(have), And(0 <= z, z < n)))
                t = t_snap(cfg, "%s%s,%s" % (how, ",return_length" if ret else "", fname(fl)), args, check)
                if t is not None:
                    yield t


def product_lemma(eng, a, b, x):
    """a < b, x > 0: (a + 1) * x <= b * x"""
    f = lambda p, q, r: Implies(And(p < q, r > 0), z3.ToReal(p + 1) * r <= z3.ToReal(q) * r)
    p, q, r = fresh("p", Int), fresh("q", Int), fresh("r", Real)
    if Solver.quick_unsat([Not(f(p, q, r))], 1000000):
        eng.fact(f(a, b, x))


def t_snap(cfg, variant, args, check):
    nm = cfg.name + ".to_snapshots"

    def setup(eng):
        g = arb_graph(eng, cfg, None)
        a, kw, info = args(eng)
        # the span, as the contract of interval() defines it
        info["span"] = lo, hi = c_interval(eng, cfg, g, {})
        eng.fact(lo <= hi)
        return g, a, kw, info

    def post(eng, I, kind, rv):
        lo, hi = I["span"]
        if "n" in I:
            few = I["n"] < 2
        else:
            few = I["len"] >= hi - lo
        if kind == "raise":
            eng.oblige("%s: raises %s only for fewer than two windows" % (nm, rv), few if rv == "NetworkXError" else FALSE)
            check_state(eng, I["g"], I["S0"], nm)
            return
        eng.oblige(nm + ": fewer than two windows are refused", Not(few))
        check(eng, I["S0"], I, rv)
        check_state(eng, I["g"], I["S0"], nm)
    return task(cfg, "to_snapshots", variant, setup, post)
