"""Contracts of the methods that add in a loop: add_edges_from, add_nodes_from and
from_networkx_graph, each by an inductive invariant over the set of elements processed so far
(in any order)."""
from .specs_graph import *
from .specs_graph import MORE, more


def same_pair(cfg, e, f): return Or(Eq(e, f), Eq(e, cfg.rev(f))) if cfg.interval and not cfg.directed else Eq(e, f)


def edges_inv(cfg, given, at):
    """given(i): the edge of element i; at: the attributes of all"""
    def inv(eng, g0, h0, g, h, sort, P):
        e, x, k, i, j = fresh("e", cfg.sort), fresh("x", Nd), fresh("k", Key), fresh("i", sort), fresh("j", sort)
        touched = lambda f: Exists([j], And(P(j), same_pair(cfg, f, given(j))))
        und = cfg.interval and not cfg.directed
        out = [("every stored edge was stored or is given", [e], Implies(g.L(e), Or(g0.L(e), touched(e)))),
               ("stored edges stay", [e], Implies(g0.L(e), g.L(e))),
               ("every given edge is stored", [i], Implies(P(i), Or(g.L(given(i)), g.L(cfg.rev(given(i))) if und else FALSE))),
               ("the nodes are the old ones and the end nodes", [x],
                Iff(g.nodes(x), Or(g0.nodes(x), Exists([j], And(P(j), Or(Eq(x, cfg.u(given(j))), Eq(x, cfg.v(given(j))))))))),
               ]
        old = lambda f: content_if(g0.L(f), Content(lambda k: h0.has(g0.AT(f), k), lambda k: h0.val(g0.AT(f), k)), EMPTY)
        want = content_if(touched(e), merge_content(old(e), at), old(e))
        out.append(("edge attributes", [e, k], Implies(g.L(e), And(Iff(h.has(g.AT(e), k), want.has(k)),
                                                                   Implies(want.has(k), Eq(h.val(g.AT(e), k), want.val(k)))))))
        n0 = content_if(g0.nodes(x), Content(lambda k: h0.has(g0.NA(x), k), lambda k: h0.val(g0.NA(x), k)), EMPTY)
        out.append(("node attributes", [x, k], Implies(g.nodes(x), And(Iff(h.has(g.NA(x), k), n0.has(k)),
                                                                       Implies(n0.has(k), Eq(h.val(g.NA(x), k), n0.val(k)))))))
        return out
    return inv


def edge_family(eng, cfg):
    n, i = z3.Int("n_given"), z3.Int("i_given")
    U, V = z3.Function("u_given", Int, Nd), z3.Function("v_given", Int, Nd)
    ts = [z3.Function("t%d_given" % k, Int, Real) for k in range(2 if cfg.interval else 1)]
    given = lambda j: EDGE_MK[cfg.sort](U(j), V(j), *[t(j) for t in ts])
    j = fresh("j", Int)
    for t in ts:
        eng.fact(Forall([j], And(NINF < t(j), t(j) < INF)))
    if cfg.interval:
        eng.fact(Forall([j], ts[0](j) <= ts[1](j)))
    g = And(0 <= i, i < n)
    fam = eng.alloc(CollRec("list", [Part((i,), g, (U(i), V(i)) + tuple(t(i) for t in ts))]))
    return fam, given, lambda j: And(0 <= j, j < n)


@more
def u_add_edges_from(cfg):
    nm = cfg.name + ".add_edges_from"

    def args(eng):
        at = attr_arg_const()
        fam, given, dom = edge_family(eng, cfg)
        eng.loop_inv = edges_inv(cfg, given, at)
        return [fam], {"**": at}, {"given": given, "dom": dom, "at": at}

    def check(eng, S0, I, rv):
        after_loop(eng, I["g"], S0, nm, edges_inv(cfg, I["given"], I["at"]), Int, I["dom"])
    yield t_update(cfg, "add_edges_from", "", args, check)

    def args0(eng):
        return [eng.alloc(CollRec("list", [Part((), TRUE, (z3.Const("u", Nd), z3.Const("v", Nd)))]))], {}, {"may_raise": {"NetworkXError": TRUE}}

    def check0(eng, S0, I, rv):
        eng.oblige(nm + ": a tuple of the wrong length is refused", FALSE)
    yield t_update(cfg, "add_edges_from", "wrong length", args0, check0)


def after_loop(eng, gref, S0, nm, inv, sort, dom):
    g = eng.make_clean(gref, "return")
    h = eng.heap[eng.attrs.id]
    for n, vs, f in inv(eng, S0, S0.h, g, h, sort, dom):
        eng.oblige("%s: %s" % (nm, n), f)


def nodes_inv(cfg, given, at, D):
    """given(i): the node of element i, with its own attributes D(i) (or none)"""
    def inv(eng, g0, h0, g, h, sort, P):
        e, x, k, i, j = fresh("e", cfg.sort), fresh("x", Nd), fresh("k", Key), fresh("i", sort), fresh("j", sort)
        out = [("the stored edges stay", [e], Iff(g.L(e), g0.L(e))),
               ("the nodes are the old and the given ones", [x], Iff(g.nodes(x), Or(g0.nodes(x), Exists([j], And(P(j), Eq(x, given(j))))))),
               ("edge attributes stay", [e, k], Implies(g.L(e), And(Iff(h.has(g.AT(e), k), h0.has(g0.AT(e), k)),
                                                                    Implies(h0.has(g0.AT(e), k), Eq(h.val(g.AT(e), k), h0.val(g0.AT(e), k))))))]
        old = content_if(g0.nodes(x), Content(lambda k: h0.has(g0.NA(x), k), lambda k: h0.val(g0.NA(x), k)), EMPTY)
        touched = Exists([j], And(P(j), Eq(x, given(j))))
        want = content_if(touched, merge_content(old, at), old)
        if D is None:
            out.append(("node attributes", [x, k], Implies(g.nodes(x), And(Iff(h.has(g.NA(x), k), want.has(k)),
                                                                           Implies(want.has(k), Eq(h.val(g.NA(x), k), want.val(k)))))))
        else:
            own = lambda j: And(P(j), Eq(x, given(j)), h0.has(D(j), k))
            out.append(("node attributes are the old and the given ones", [x, k], Implies(g.nodes(x), Iff(
                h.has(g.NA(x), k), Or(want.has(k), Exists([j], own(j)))))))
            out.append(("an attribute nobody names stays", [x, k], Implies(And(g.nodes(x), want.has(k), Not(Exists([j], own(j)))),
                                                                           Eq(h.val(g.NA(x), k), want.val(k)))))
            out.append(("a named attribute has a given value", [x, k], Implies(And(g.nodes(x), Exists([j], own(j))), Or(
                Exists([j], And(own(j), Eq(h.val(g.NA(x), k), h0.val(D(j), k)))), And(at.has(k), Eq(h.val(g.NA(x), k), at.val(k)))))))
            out += foreign(g, h, h0, e, x, k, i, D)
        return out
    return inv


def foreign(g, h, h0, e, x, k, i, D):
    """the caller's dictionaries stay the caller's, unchanged"""
    return [("the given dictionaries are unchanged", [i, k], And(Iff(h.has(D(i), k), h0.has(D(i), k)),
                                                                   Implies(h0.has(D(i), k), Eq(h.val(D(i), k), h0.val(D(i), k))))),
            ("no edge shares a given dictionary", [e, i], Implies(g.L(e), Not(Eq(g.AT(e), D(i))))),
            ("no node shares a given dictionary", [x, i], Implies(g.nodes(x), Not(Eq(g.NA(x), D(i)))))]


@more
def u_add_nodes_from(cfg):
    nm = cfg.name + ".add_nodes_from"
    for pairs in (False, True):
        def args(eng, pairs=pairs):
            at = attr_arg_const()
            n, i, f = z3.Int("n_given"), z3.Int("i_given"), z3.Function("n_at", Int, Nd)
            D = z3.Function("d_at", Int, Rf) if pairs else None
            if pairs:
                j, e, x = fresh("j", Int), fresh("e", cfg.sort), fresh("x", Nd)
                g = (z3.Function("L@g", cfg.sort, Bool), z3.Function("AT@g", cfg.sort, Rf), z3.Function("V@g", Nd, Bool), z3.Function("NA@g", Nd, Rf))
                eng.fact(Forall([j], stamp(D(j)) <= 0))
                eng.fact(Forall([j, e], Implies(g[0](e), Not(Eq(g[1](e), D(j))))))
                eng.fact(Forall([j, x], Implies(g[2](x), Not(Eq(g[3](x), D(j))))))
            fam = eng.alloc(CollRec("list", [Part((i,), And(0 <= i, i < n), (f(i), D(i)) if pairs else f(i))]))
            I = {"given": f, "dom": lambda j: And(0 <= j, j < n), "at": at, "D": D}
            eng.loop_inv = nodes_inv(cfg, f, at, D)
            return [fam], {"**": at}, I

        def check(eng, S0, I, rv):
            after_loop(eng, I["g"], S0, nm, nodes_inv(cfg, I["given"], I["at"], I["D"]), Int, I["dom"])
        yield t_update(cfg, "add_nodes_from", "pairs" if pairs else "nodes", args, check)


# ---------------------------------------------------------------- from_networkx_graph
def convert_inv(cfg, st, given, times):
    def inv(eng, g0, h0, g, h, sort, P):
        e, x, k, i, j = fresh("e", cfg.sort), fresh("x", Nd), fresh("k", Key), fresh("i", sort), fresh("j", sort)
        und = cfg.interval and not cfg.directed
        own = lambda j: And(P(j), same_pair(cfg, e, given(j)))
        istime = Or([Eq(k, t) for t in times])
        out = [("every stored edge comes from the static graph", [e], Implies(g.L(e), Exists([j], own(j)))),
               ("every edge of the static graph is stored", [i], Implies(P(i), Or(g.L(given(i)), g.L(cfg.rev(given(i))) if und else FALSE))),
               ("the nodes are the end nodes", [x], Iff(g.nodes(x), Exists([j], And(P(j), Or(Eq(x, st.a(j)), Eq(x, st.b(j))))))),
               ("edge attributes are given ones", [e, k], Implies(And(g.L(e), h.has(g.AT(e), k)), And(Not(istime), Exists([j], And(
                   own(j), h0.has(st.at(j), k), Eq(h.val(g.AT(e), k), h0.val(st.at(j), k))))))),
               ("given attributes are kept", [e, i, k], Implies(And(P(i), g.L(e), same_pair(cfg, e, given(i)), Not(istime), h0.has(st.at(i), k)),
                                                                h.has(g.AT(e), k))),
               ("nodes carry no attribute", [x, k], Implies(g.nodes(x), Not(h.has(g.NA(x), k))))]
        return out + foreign(g, h, h0, e, x, k, i, st.at)
    return inv


@more
def u_from_networkx_graph(cfg):
    if cfg.directed:
        return
    nm = cfg.name + ".from_networkx_graph"
    for names in ("default names", "given names"):
        def setup(eng, names=names):
            st = Static(z3.Function("in_static", XE, Bool), z3.Function("a_static", XE, Nd), z3.Function("b_static", XE, Nd),
                        z3.Function("at_static", XE, Rf))
            h0 = eng.heap[eng.attrs.id]
            dn = ("begin", "end") if cfg.interval else ("timestamp",)
            kw = {}
            keys = [eng.as_key(n) for n in dn]
            if names == "given names":
                keys = [z3.Const("name_" + n, Key) for n in dn]
                kw = dict(zip(dn, keys))
                if len(keys) == 2:
                    eng.fact(Not(Eq(*keys)))
            given = lambda j: EDGE_MK[cfg.sort](st.a(j), st.b(j), *[valtime(h0.val(st.at(j), t)) for t in keys])
            j = fresh("j", XE)
            eng.fact(Forall([j], stamp(st.at(j)) <= 0))
            # every edge of the static graph carries its times
            eng.fact(Forall([j], Implies(st.has(j), And([h0.has(st.at(j), t) for t in keys] + [cfg.times_ok(given(j))]))))
            inv = convert_inv(cfg, st, given, keys)
            eng.loop_inv = inv
            return None, [eng.alloc(st)], kw, {"st": st, "h0": h0, "inv": inv}

        def post(eng, I, kind, rv):
            if not no_raise(eng, nm, kind, rv):
                return
            if not (isinstance(rv, HRef) and isinstance(eng.heap[rv.id], ObjRec) and eng.heap[rv.id].cls.name == cfg.name):
                raise Unsupported("result of from_networkx_graph")
            g = eng.make_clean(rv, "return")
            for n, vs, f in I["inv"](eng, g, I["h0"], g, eng.heap[eng.attrs.id], XE, I["st"].has):
                eng.oblige("%s: %s" % (nm, n), f)
        yield task(cfg, "from_networkx_graph", names, setup, post)


# ---------------------------------------------------------------- construction and fitting
@more
def u_init(cfg):
    nm = cfg.name + ".__init__"

    def run(eng):
        cls = eng.classes[(cfg.module, cfg.name)]
        f = cls.lookup("__init__")

        def path():
            g = eng.alloc(ObjRec(cls, {}, None))
            kind, val = "return", None
            try:
                eng.call_func(f, g, [], {"**": attr_arg_const()})
            except PyRaise as r:
                kind, val = "raise", r.exc.name
            eng.path_end()
            if not no_raise(eng, nm, kind, val):
                return
            rec = eng.heap[g.id]
            obs, L, N, AT = eng.inv_formulas(rec, cfg)
            for n, fm in obs:
                eng.oblige(nm + ": afterwards " + n, fm)
            e, x = fresh("e", cfg.sort), fresh("x", Nd)
            eng.oblige(nm + ": no edge is stored", Not(L(e)))
            eng.oblige(nm + ": there is no node", Not(N.n(x)))
            eng.oblige(nm + ": there is no fitted model", TRUE if rec.fields.get("_model") is None else FALSE)
        eng.run_paths(path)
    yield Task("%s.__init__()" % cfg.name, cfg.name, "__init__", run, None)
