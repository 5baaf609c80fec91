"""Contracts of the four edge-timed graph classes, one verification task per method and
argument shape. Every task executes the method's real source symbolically from an
arbitrary state satisfying the representation invariant and discharges the named
postconditions."""
import ast, itertools
from .logic import *
from .core import *
from .theory_graph import *
from .graph_engine import *

WIN = list(itertools.product((False, True), (False, True)))     # begin given?, end given?


class Task:
    def __init__(self, id, cls, method, run, props):
        self.id, self.cls, self.method, self.run, self.props = id, cls, method, run, props


def arb_graph(eng, cfg, model=None, tag="g"):
    S = cfg.sort
    L, nodes = z3.Function("L@" + tag, S, Bool), z3.Function("V@" + tag, Nd, Bool)
    AT, NA = z3.Function("AT@" + tag, S, Rf), z3.Function("NA@" + tag, Nd, Rf)
    return eng.new_graph(cfg, L, nodes, AT, NA, model, tag)


def finite(eng, *ts):
    for t in ts:
        if t is not None:
            eng.fact(And(NINF < t, t < INF))


def win_args(eng, cfg, b, n, order=True):
    """begin / end as given or missing"""
    loc = {"begin": z3.Real("begin") if b else None, "end": z3.Real("end") if n else None}
    finite(eng, loc["begin"], loc["end"])
    if b and n and order:
        eng.fact(loc["begin"] <= loc["end"])
    if not cfg.interval:
        loc["inclusive"] = (z3.Bool("inc_begin"), z3.Bool("inc_end"))
    return loc


def node_list(eng, name):
    n, f, i = z3.Int("n_" + name), z3.Function("at_" + name, Int, Nd), z3.Int("i_" + name)
    eng.fact(n >= 0)
    return eng.alloc(CollRec("list", [Part((i,), And(0 <= i, i < n), f(i))]))


def node_arg(eng, name, shape):
    if shape == "none":
        return None
    if shape == "node":
        return z3.Const(name, Nd)
    return node_list(eng, name + "s")


def bad_window(loc):
    if loc["begin"] is not None and loc["end"] is not None:
        return loc["begin"] > loc["end"]
    return FALSE


# ---------------------------------------------------------------- result checks
def check_list(eng, rv, name, key, spec, extra=None, sort=None):
    """rv is a list whose elements are, each once, exactly the keys satisfying spec; extra
    checks what comes with each key. key: element -> term (or None if malformed)"""
    if not (isinstance(rv, HRef) and isinstance(eng.heap[rv.id], CollRec) and eng.heap[rv.id].kind == "list"):
        eng.oblige(name + ": the result is a list", FALSE if isinstance(rv, (HRef, tuple)) or rv is None else need(rv))
        return
    parts = list(map(rename, eng.heap[rv.id].parts))
    check_parts(eng, parts, name, key, spec, extra, sort)


def need(x): raise Unsupported("result %r" % (x,))


def check_parts(eng, parts, name, key, spec, extra=None, sort=None, once=True):
    keys = []
    for p in parts:
        k = key(p.elem)
        if k is None:
            eng.oblige(name + ": shape of the elements", Not(Exists(p.vars, p.guard)))
            continue
        keys.append((p, k))
    z = fresh("any", sort if sort is not None else keys[0][1].sort())
    mem = Or([Exists(p.vars, And(p.guard, Eq(k, z))) for p, k in keys])
    eng.oblige(name + ": every reported element qualifies", And([ForallDER(p.vars, Implies(p.guard, spec(k))) for p, k in keys]))
    eng.oblige(name + ": every qualifying element is reported", Implies(spec(z), mem))
    if once:
        for i, (p, k) in enumerate(keys):
            for j, (q, l) in enumerate(keys):
                if j < i:
                    continue
                r = rename(Part(q.vars, q.guard, l))
                same = And([Eq(a, b) for a, b in zip(p.vars, r.vars)]) if i == j else FALSE
                eng.oblige(name + ": each element is reported once",
                           Implies(And(p.guard, r.guard, Eq(k, r.elem)), same))
    if extra:
        for p, k in keys:
            for n, f in extra(p.elem, k):
                eng.oblige(name + ": " + n, Implies(p.guard, f))


def edge_key(cfg, eng):
    def f(el):
        if is_edge(el) and el.sort() == cfg.sort:
            return el
        if isinstance(el, tuple):
            return eng.to_edge(el, cfg.sort)
        return None
    return f


def fst_key(k): return lambda el: k(el[0]) if isinstance(el, tuple) and len(el) == 2 else None


def same_content(eng, got, want):
    """contents equal, as formulas"""
    k = fresh("k", Key)
    c = eng.content_of(got)
    return [("the attributes are exactly the stored ones", And(Iff(c.has(k), want.has(k)), Implies(want.has(k), Eq(c.val(k), want.val(k)))))]


def val_eq(eng, a, b):
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.sort() == b.sort():
        return Eq(a, b)
    if a is b:
        return TRUE
    return bool_(eng.eq(a, b)) if not (isinstance(a, z3.ExprRef) or isinstance(b, z3.ExprRef)) else FALSE


class Snap:
    """abstract state before the call"""
    def __init__(self, eng, gref):
        rec = eng.heap[gref.id]
        g = eng.heap[rec.ghost.id]
        h = eng.heap[eng.attrs.id]
        self.L, self.nodes, self.AT, self.NA, self.cfg = g.L, g.nodes, g.AT, g.NA, g.cfg
        self.has, self.val, self.h, self.model = h.has, h.val, h, rec.fields.get("_model")
        self.gh = g

    def eattr(self, e): return Content(lambda k: self.has(self.AT(e), k), lambda k: self.val(self.AT(e), k))
    def nattr(self, x): return Content(lambda k: self.has(self.NA(x), k), lambda k: self.val(self.NA(x), k))


def check_state(eng, gref, S0, name, L2=None, nodes2=None, eattr2=None, nattr2=None):
    """the state after the call: invariant, edge set, nodes, attributes; defaults say unchanged"""
    rec = eng.heap[gref.id]
    cfg = S0.cfg
    h = eng.heap[eng.attrs.id]
    if eng.is_clean(rec):
        g = eng.heap[rec.ghost.id]
        if g is S0.gh and h is S0.h and L2 is None and nodes2 is None and eattr2 is None and nattr2 is None:
            eng.oblige(name + ": the graph is unchanged", TRUE)
            return
        L, nodes, AT, NA = g.L, g.nodes, g.AT, g.NA
    else:
        obs, L, N, AT = eng.inv_formulas(rec, cfg)
        nodes, NA = N.n, N.at
        for n, f in obs:
            eng.oblige(name + ": afterwards " + n, f)
    e, x, k = fresh("se", cfg.sort), fresh("sx", Nd), fresh("sk", Key)
    L2 = L2 or S0.L
    nodes2 = nodes2 or S0.nodes
    eng.oblige(name + ": the stored edges are as specified", Iff(L(e), L2(e)))
    eng.oblige(name + ": the nodes are as specified", Iff(nodes(x), nodes2(x)))
    if h is not S0.h or AT is not S0.AT or eattr2:
        c = (eattr2 or S0.eattr)(e)
        eng.oblige(name + ": edge attributes are as specified",
                   Implies(L2(e), And(Iff(h.has(AT(e), k), c.has(k)), Implies(c.has(k), Eq(h.val(AT(e), k), c.val(k))))))
    if h is not S0.h or NA is not S0.NA or nattr2:
        c = (nattr2 or S0.nattr)(x)
        eng.oblige(name + ": node attributes are as specified",
                   Implies(nodes2(x), And(Iff(h.has(NA(x), k), c.has(k)), Implies(c.has(k), Eq(h.val(NA(x), k), c.val(k))))))
    if rec.fields.get("_model") is not S0.model:
        eng.oblige(name + ": the fitted model is kept", FALSE)


# ---------------------------------------------------------------- running a method
def run_method(eng, cfg, name, setup, post, allow=()):
    """setup(eng) -> (gref, args, kw, info); post(eng, info, kind, value)"""
    cls = eng.classes[(cfg.module, cfg.name)]
    f = cls.lookup(name)
    if f is None:
        raise Unsupported("method %s not found" % name)

    def path():
        gref, args, kw, info = setup(eng)
        info["g"] = gref
        info["S0"] = Snap(eng, gref) if gref is not None else None
        kind, val = "return", None
        try:
            if f.static:
                val = eng.call_func(f, None, args, kw)
            else:
                val = eng.call_func(f, gref, args, kw)
        except PyRaise as r:
            kind, val = "raise", r.exc.name
        eng.path_end()
        post(eng, info, kind, val)
    eng.run_paths(path)


def no_raise(eng, name, kind, val):
    if kind == "raise":
        eng.oblige("%s: raises no %s" % (name, val), FALSE)
        return False
    return True


# ---------------------------------------------------------------- edges
def t_edges(cfg, us, vs, b, n, data, model, defaults=False):
    nm = "%s.edges" % cfg.name

    def setup(eng):
        g = arb_graph(eng, cfg, Model() if model else None)
        loc = win_args(eng, cfg, b, n, order=False)
        if defaults:
            loc.pop("inclusive", None)
        u, v = node_arg(eng, "u", us), node_arg(eng, "v", vs)
        d = {"no": False, "all": True, "key": z3.Const("attr", Key)}[data]
        default = z3.Const("default", Val)
        kw = dict(loc, u=u, v=v, data=d, default=default)
        if defaults:
            loc["inclusive"] = (True, False)
        return g, [], kw, {"loc": loc, "u": u, "v": v, "data": d, "default": default}

    def post(eng, I, kind, rv):
        loc, S0 = I["loc"], I["S0"]
        bad = bad_window(loc)
        if kind == "raise":
            eng.oblige("%s: raises %s only for a window whose end precedes its begin" % (nm, rv), bad if rv == "NetworkXError" else FALSE)
            return
        U, V = sel_of(eng, cfg, I["u"]), sel_of(eng, cfg, I["v"])
        ends_given = loc["begin"] is not None and loc["end"] is not None
        if ends_given:
            # an empty selection may be answered before the window is looked at
            eng.oblige(nm + ": a window whose end precedes its begin is refused", Not(bad))
        spec = lambda e: And(S0.L(e), selects(cfg, e, U, V), window(eng, cfg, e, loc))
        ek = edge_key(cfg, eng)
        if data == "no":
            check_list(eng, rv, nm, ek, spec, sort=cfg.sort)
        elif data == "all":
            check_list(eng, rv, nm, fst_key(ek), spec, lambda el, e: same_content(eng, el[1], S0.eattr(e)), cfg.sort)
        else:
            def ex(el, e):
                c = S0.eattr(e)
                k = I["data"]
                w = z3.If(c.has(k), c.val(k), I["default"])
                return [("the attribute is the stored value or the default", val_eq(eng, el[1], c.val(k)) if False else
                         (Eq(el[1], w) if isinstance(el[1], z3.ExprRef) and el[1].sort() == Val else FALSE))]
            check_list(eng, rv, nm, fst_key(ek), spec, ex, cfg.sort)
        check_state(eng, I["g"], S0, nm)
    w = ("b" if b else "-") + ("e" if n else "-")
    id = "%s(u=%s,v=%s,window=%s,data=%s,model=%s%s)" % (nm, us, vs, w, data, "fitted" if model else "none", ",default inclusive" if defaults else "")
    return Task(id, cfg.name, "edges", shorter(cfg, "edges", id, lambda eng: run_method(eng, cfg, "edges", setup, post)), None)


def edges_tasks(cfg, model=False):
    out = []
    for us, vs in itertools.product(("none", "node", "list"), repeat=2):
        for b, n in WIN:
            if model and (us == vs == "none" or not (b or n)):
                continue
            for data in (("no", "all", "key") if (us, vs) in (("none", "none"), ("node", "none")) else ("no",)):
                out.append(t_edges(cfg, us, vs, b, n, data, model))
            if not cfg.interval and (b or n):
                if (us, vs) in (("none", "none"), ("node", "node"), ("node", "none"), ("none", "node")):
                    out.append(t_edges(cfg, us, vs, b, n, "no", model, True))
    return out


# ---------------------------------------------------------------- generic task builder
MORE = []


def more(f):
    MORE.append(f)
    return f


def task(cfg, method, variant, setup, post, cls=None):
    id = "%s.%s(%s)" % (cfg.name, method, variant)
    return Task(id, cfg.name, method, shorter(cfg, method, id, lambda eng: run_method(eng, cfg, method, setup, post)), None)


def shorter(cfg, method, id, run):
    """A call that leaves `inclusive` (and a missing bound) out is the call that gives the parameter defaults
    explicitly: where those are the documented constants, the contract for explicit arguments covers it.
    Otherwise the body is gone through once more."""
    if "default inclusive" not in id:
        return run

    def run2(eng):
        f = eng.classes[(cfg.module, cfg.name)].lookup(method)
        want = {"begin": "None", "end": "None", "inclusive": repr(default_inclusive(cfg, method))}
        got = literal_defaults(f)
        if "inclusive" in got and all(got.get(k, v) == v for k, v in want.items()):
            eng.on_obligation("%s.%s: the defaults left out are %s" % (cfg.name, method, want), None, None)
            eng.path_end()
        else:
            run(eng)
    return run2


def literal_defaults(f):
    """parameter -> repr of its default, for the defaults that are literals"""
    out = {}
    if f is None:
        return out
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    for n, d in list(zip(names[len(names) - len(a.defaults):], a.defaults)) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
        try:
            out[n] = repr(ast.literal_eval(d))
        except ValueError:
            out[n] = "?"
    return out


def wname(b, n): return "window=" + ("b" if b else "-") + ("e" if n else "-")


def no_window(loc): return loc.get("begin") is None and loc.get("end") is None


def default_inclusive(cfg, method):
    """the documented default of `inclusive`"""
    if cfg.name == "ImpulseDiGraph" and method in ("has_edge", "remove_edge"):
        return (True, True)
    return (True, False)


def win_variants(cfg, method, split=False):
    """(label, function eng -> (loc for the spec, keyword arguments)); split: the inclusivity flags case by case"""
    out = []
    for b, n in WIN:
        def f(eng, b=b, n=n):
            loc = win_args(eng, cfg, b, n)
            return loc, dict(loc)
        if split and (b or n) and not cfg.interval:
            # (the flag of a missing bound stays arbitrary)
            for inc in itertools.product((True, False) if b else ("any",), (True, False) if n else ("any",)):
                def f2(eng, b=b, n=n, inc=inc):
                    loc = win_args(eng, cfg, b, n)
                    loc["inclusive"] = tuple(z3.Bool("inc_other") if x == "any" else x for x in inc)
                    return loc, dict(loc)
                out.append((wname(b, n) + ",inclusive=%s,%s" % inc, f2))
        else:
            out.append((wname(b, n), f))
        if b or n:
            def h(eng, b=b, n=n):
                loc = win_args(eng, cfg, b, n)
                kw = {k: v for k, v in loc.items() if k in ("begin", "end") and v is not None}
                if not cfg.interval:
                    loc["inclusive"] = default_inclusive(cfg, method)
                return loc, kw
            if not cfg.interval:
                out.append((wname(b, n) + ",default inclusive", h))
    return out


def truth_is(eng, name, rv, spec):
    if isinstance(rv, bool) or isinstance(rv, z3.ExprRef) and rv.sort() == Bool:
        eng.oblige(name + ": the answer is exact", Iff(bool_(rv), spec))
    else:
        raise Unsupported("result %r where a truth value is expected" % (rv,))


def t_query(cfg, method, variant, args, check, model=False):
    """a method that only reads: args(eng) -> (args, kw, info), check(eng, S0, info, result)"""
    nm = "%s.%s" % (cfg.name, method)

    def setup(eng):
        g = arb_graph(eng, cfg, Model() if model else None)
        a, kw, info = args(eng)
        return g, a, kw, info

    def post(eng, I, kind, rv):
        if kind == "raise":
            ok = I.get("may_raise", {}).get(rv, FALSE)
            eng.oblige("%s: raises %s only where it must" % (nm, rv), ok)
            check_state(eng, I["g"], I["S0"], nm)
            return
        for r, c in I.get("must_raise", {}).items():
            eng.oblige("%s: raises %s where it must" % (nm, r), Not(c))
        check(eng, I["S0"], I, rv)
        check_state(eng, I["g"], I["S0"], nm)
    return task(cfg, method, variant, setup, post)


@more
def q_has_node(cfg):
    for lab, w in win_variants(cfg, "has_node"):
        def args(eng, w=w):
            loc, kw = w(eng)
            n = z3.Const("n", Nd)
            return [n], kw, {"n": n, "loc": loc}

        def check(eng, S0, I, rv):
            spec = S0.nodes(I["n"]) if no_window(I["loc"]) else present(eng, cfg, S0, I["loc"])(I["n"])
            truth_is(eng, cfg.name + ".has_node", rv, spec)
        yield t_query(cfg, "has_node", lab, args, check)


@more
def q_contains(cfg):
    def args(eng):
        n = z3.Const("n", Nd)
        return [n], {}, {"n": n}
    yield t_query(cfg, "__contains__", "", args, lambda eng, S0, I, rv: truth_is(eng, cfg.name + ".__contains__", rv, S0.nodes(I["n"])))


def node_count_spec(eng, cfg, S0, loc):
    x = fresh("x", Nd)
    return eng.card([Part((x,), S0.nodes(x) if no_window(loc) else present(eng, cfg, S0, loc)(x), x)])


@more
def q_number_of_nodes(cfg):
    for lab, w in win_variants(cfg, "number_of_nodes"):
        def args(eng, w=w):
            loc, kw = w(eng)
            if not cfg.interval and lab.endswith("default inclusive"):
                pass
            return [], kw, {"loc": loc}

        def check(eng, S0, I, rv):
            equal_number(eng, cfg.name + ".number_of_nodes: the count is exact", rv, lambda: node_count_spec(eng, cfg, S0, I["loc"]))
        yield t_query(cfg, "number_of_nodes", lab, args, check)

    yield t_query(cfg, "__len__", "", lambda eng: ([], {}, {"loc": {}}), lambda eng, S0, I, rv: equal_number(
        eng, cfg.name + ".__len__: the count is exact", rv, lambda: node_count_spec(eng, cfg, S0, {})))


@more
def q_nodes(cfg):
    for lab, w in win_variants(cfg, "nodes"):
        for data in ("no", "all", "key"):
            if data != "no" and lab.endswith("default inclusive"):
                continue

            def args(eng, w=w, data=data):
                loc, kw = w(eng)
                d = {"no": False, "all": True, "key": z3.Const("attr", Key)}[data]
                default = z3.Const("default", Val)
                return [], dict(kw, data=d, default=default), {"loc": loc, "data": d, "default": default}

            def check(eng, S0, I, rv, data=data):
                nm = cfg.name + ".nodes"
                spec = lambda x: S0.nodes(x) if no_window(I["loc"]) else present(eng, cfg, S0, I["loc"])(x)
                f = eng.iter(rv)
                f = eng.canonical_set(f) if f.kind == "set" else f
                parts = list(map(rename, f.parts))
                if data == "no":
                    check_parts(eng, parts, nm, as_nd, spec, None, Nd)
                elif data == "all":
                    check_parts(eng, parts, nm, fst_key(as_nd), spec, lambda el, x: same_content(eng, el[1], S0.nattr(x)), Nd)
                else:
                    def ex(el, x):
                        c = S0.nattr(x)
                        w = z3.If(c.has(I["data"]), c.val(I["data"]), I["default"])
                        return [("the attribute is the stored value or the default", val_eq(eng, el[1], w))]
                    check_parts(eng, parts, nm, fst_key(as_nd), spec, ex, Nd)
            yield t_query(cfg, "nodes", lab + ",data=" + data, args, check)


@more
def q_has_edge(cfg):
    def one(lab, w, ov):
        def args(eng):
            loc, kw = w(eng)
            u, v = z3.Const("u", Nd), z3.Const("v", Nd)
            I = {"loc": loc, "u": u, "v": v}
            if ov is not None:
                kw["overlapping"] = loc["overlapping"] = ov
            if ov is False and (loc["begin"] is None) != (loc["end"] is None):
                I["may_raise"] = {"NetworkXError": TRUE}
            return [u, v], kw, I

        def check(eng, S0, I, rv):
            e = fresh("e", cfg.sort)
            m = edge_match(eng, cfg, I["u"], I["v"], I["loc"], e)
            if m is None:       # one bound of an exact interval missing: refused, unless nothing is stored between u and v
                m = pair_joins(cfg, I["u"], I["v"], e)
                eng.oblige(cfg.name + ".has_edge: an exact match needs both bounds", Not(Exists([e], And(S0.L(e), m))))
            truth_is(eng, cfg.name + ".has_edge", rv, Exists([e], And(S0.L(e), m)))
        return t_query(cfg, "has_edge", lab + ("" if ov is None else ",overlapping=%s" % ov), args, check)
    for lab, w in win_variants(cfg, "has_edge"):
        yield one(lab, w, None)
        if cfg.interval:
            for ov in (True, False):
                yield one(lab, w, ov)


@more
def q_interval(cfg):
    def args(eng):
        return [], {}, {}

    def check(eng, S0, I, rv):
        nm = cfg.name + ".interval"
        if not (isinstance(rv, tuple) and len(rv) == 2):
            raise Unsupported("result of interval()")
        lo, hi = [eng.num(x) for x in rv]
        e, w = fresh("e", cfg.sort), fresh("w", cfg.sort)
        b, n = (2, 3) if cfg.interval else (2, 2)
        some = Exists([w], S0.L(w))
        eng.oblige(nm + ": no stored edge begins before the span or ends after it", Implies(S0.L(e), And(lo <= edge_comp(e, b), edge_comp(e, n) <= hi)))
        eng.oblige(nm + ": some edge begins where the span begins", Implies(some, Exists([w], And(S0.L(w), edge_comp(w, b) == lo))))
        eng.oblige(nm + ": some edge ends where the span ends", Implies(some, Exists([w], And(S0.L(w), edge_comp(w, n) == hi))))
        if cfg.interval:
            eng.oblige(nm + ": an empty graph has the empty span", Implies(Not(some), And(lo == INF, hi == NINF)))
        else:
            eng.oblige(nm + ": an empty graph raises", some)

    def args2(eng):
        I = {}
        if not cfg.interval:
            w = fresh("w", cfg.sort)
            L = z3.Function("L@g", cfg.sort, Bool)
            I["may_raise"] = {"IndexError": Not(Exists([w], L(w)))}
        return [], {}, I
    yield t_query(cfg, "interval", "", args2, check)


# ---------------------------------------------------------------- equality of counts and sums
def equal_number(eng, name, got, want):
    """got == want(), where both may contain cardinalities and sums over arbitrary sets: these are
    equal when their defining guards are (lemma: pointwise equivalent predicates have equal counts)"""
    if isinstance(got, HRef) or got is None or isinstance(got, (str, tuple)):
        raise Unsupported("result %r where a number is expected" % (got,))
    nc, ns = len(eng.cards), len(eng.sums)
    w = want()
    count_lemmas(eng, name)
    a, b = eng.num(got), eng.num(w)
    if a.is_int() != b.is_int():
        a, b = [z3.ToReal(t) if t.is_int() else t for t in (a, b)]
    eng.oblige(name, a == b)


def count_lemmas(eng, name):
    done = set()
    for i, c in enumerate(eng.cards):
        for d in eng.cards[i + 1:]:
            card_lemma(eng, name, c, d)
    for i, c in enumerate(eng.sums):
        for d in eng.sums[i + 1:]:
            sum_lemma(eng, name, c, d)


def align(c, d, cparams, dparams, cv, dv):
    if [v.sort() for v in cv] != [v.sort() for v in dv] or [p.sort() for p in cparams] != [p.sort() for p in dparams]:
        return None
    ps = [fresh("p", p.sort()) for p in cparams]
    vs = [fresh("i", v.sort()) for v in cv]
    return ps, vs, list(zip(list(cparams) + list(cv), ps + vs)), list(zip(list(dparams) + list(dv), ps + vs))


def card_lemma(eng, name, c, d):
    if len(c.parts) != 1 or len(d.parts) != 1:
        return
    al = align(c, d, c.params, d.params, c.parts[0].vars, d.parts[0].vars)
    if al is None:
        return
    ps, vs, s1, s2 = al
    f = Iff(subst(c.parts[0].guard, s1), subst(d.parts[0].guard, s2))
    if Solver.quick_unsat(eng.ctx() + [Not(f)], 3000000):
        eng.on_obligation(name + ": the counted sets are equal", None, None)
        q = [fresh("p", p.sort()) for p in c.params]
        eng.fact(Forall(q, subst(c.app, list(zip(c.params, q))) == subst(d.app, list(zip(d.params, q)))) if q else c.app == d.app)


def sum_lemma(eng, name, c, d):
    al = align(c, d, c.params, d.params, c.vars, d.vars)
    if al is None or c.term.sort() != d.term.sort():
        return
    ps, vs, s1, s2 = al
    g1, g2 = subst(c.guard, s1), subst(d.guard, s2)
    f = And(Iff(g1, g2), Implies(g1, Eq(subst(c.term, s1), subst(d.term, s2))))
    if Solver.quick_unsat(eng.ctx() + [Not(f)], 3000000):
        eng.on_obligation(name + ": the summands are equal", None, None)
        q = [fresh("p", p.sort()) for p in c.params]
        eng.fact(Forall(q, subst(c.app, list(zip(c.params, q))) == subst(d.app, list(zip(d.params, q)))) if q else c.app == d.app)


# ---------------------------------------------------------------- updates
def attr_arg_const(tag="attr"):
    has, val = z3.Function("has_" + tag, Key, Bool), z3.Function("val_" + tag, Key, Val)
    return Content(lambda k: has(k), lambda k: val(k))


EMPTY = Content(lambda k: FALSE, lambda k: NONE_VAL)


def content_if(c, a, b):
    """a where c holds, else b (contents)"""
    return Content(lambda k: Or(And(c, a.has(k)), And(Not(c), b.has(k))), lambda k: ite(c, a.val(k), b.val(k)))


def t_update(cfg, method, variant, args, check, model=True):
    nm = "%s.%s" % (cfg.name, method)

    def setup(eng):
        g = arb_graph(eng, cfg, Model() if model else None)
        a, kw, info = args(eng)
        return g, a, kw, info

    def post(eng, I, kind, rv):
        if kind == "raise":
            ok = I.get("may_raise", {}).get(rv, FALSE)
            eng.oblige("%s: raises %s only where it must" % (nm, rv), ok)
            check_state(eng, I["g"], I["S0"], nm)
            return
        check(eng, I["S0"], I, rv)
    return task(cfg, method, variant, setup, post)


def edge_args(eng, cfg):
    u, v = z3.Const("u", Nd), z3.Const("v", Nd)
    ts = [z3.Real("b"), z3.Real("e")] if cfg.interval else [z3.Real("t")]
    finite(eng, *ts)
    if cfg.interval:
        eng.fact(ts[0] <= ts[1])
    return [u, v] + ts, EDGE_MK[cfg.sort](u, v, *ts)


def same_edge(cfg, f, e):
    """f is the edge e, whichever way round an undirected interval edge is written"""
    if cfg.interval and not cfg.directed:
        return Or(Eq(f, e), Eq(f, cfg.rev(e)))
    return Eq(f, e)


@more
def u_add_edge(cfg):
    def args(eng):
        a, e = edge_args(eng, cfg)
        at = attr_arg_const()
        return a, {"**": at}, {"e": e, "at": at}

    def check(eng, S0, I, rv):
        e, at = I["e"], I["at"]
        # the stored form of the edge: the one already there, else as given
        if cfg.interval and not cfg.directed:
            r = cfg.rev(e)
            flip = And(S0.L(r), Not(S0.L(e)))
            target = lambda f: Or(And(flip, Eq(f, r)), And(Not(flip), Eq(f, e)))
        else:
            target = lambda f: Eq(f, e)
        L2 = lambda f: Or(S0.L(f), target(f))
        n2 = lambda x: Or(S0.nodes(x), Eq(x, cfg.u(e)), Eq(x, cfg.v(e)))
        old = lambda f: content_if(S0.L(f), S0.eattr(f), EMPTY)
        ea = lambda f: content_if(target(f), merge_content(old(f), at), S0.eattr(f))
        na = lambda x: content_if(S0.nodes(x), S0.nattr(x), EMPTY)
        check_state(eng, I["g"], S0, cfg.name + ".add_edge", L2, n2, ea, na)
    yield t_update(cfg, "add_edge", "", args, check)


@more
def u_add_node(cfg):
    def args(eng):
        n = z3.Const("n", Nd)
        at = attr_arg_const()
        return [n], {"**": at}, {"n": n, "at": at}

    def check(eng, S0, I, rv):
        n, at = I["n"], I["at"]
        n2 = lambda x: Or(S0.nodes(x), Eq(x, n))
        old = lambda x: content_if(S0.nodes(x), S0.nattr(x), EMPTY)
        na = lambda x: content_if(Eq(x, n), merge_content(old(x), at), S0.nattr(x))
        check_state(eng, I["g"], S0, cfg.name + ".add_node", None, n2, None, na)
    yield t_update(cfg, "add_node", "", args, check)


@more
def u_remove_edge(cfg):
    def one(lab, w, ov):
        def args(eng):
            loc, kw = w(eng)
            u, v = z3.Const("u", Nd), z3.Const("v", Nd)
            I = {"loc": loc, "u": u, "v": v}
            if ov is not None:
                kw["overlapping"] = loc["overlapping"] = ov
            if ov is False and not (loc["begin"] is not None and loc["end"] is not None):
                I["may_raise"] = {"NetworkXError": TRUE}
            return [u, v], kw, I

        def check(eng, S0, I, rv):
            nm = cfg.name + ".remove_edge"
            if I["loc"].get("overlapping") is False and (I["loc"]["begin"] is None or I["loc"]["end"] is None):
                e = fresh("e", cfg.sort)
                eng.oblige(nm + ": an exact match needs both bounds", Not(Exists([e], And(S0.L(e), pair_joins(cfg, I["u"], I["v"], e)))))
                check_state(eng, I["g"], S0, nm)
                return
            L2 = lambda f: And(S0.L(f), Not(edge_match(eng, cfg, I["u"], I["v"], I["loc"], f)))
            check_state(eng, I["g"], S0, nm, L2)
        return t_update(cfg, "remove_edge", lab + ("" if ov is None else ",overlapping=%s" % ov), args, check)
    for lab, w in win_variants(cfg, "remove_edge", True):
        yield one(lab, w, None)
        if cfg.interval:
            for ov in (True, False):
                yield one(lab, w, ov)


@more
def u_remove_node(cfg):
    def one(lab, w):
        def args(eng):
            loc, kw = w(eng)
            n = z3.Const("n", Nd)
            return [n], kw, {"loc": loc, "n": n}

        def check(eng, S0, I, rv):
            n = I["n"]
            inc = lambda f: Or(Eq(cfg.u(f), n), Eq(cfg.v(f), n))
            gone = (lambda f: And(S0.L(f), inc(f))) if no_window(I["loc"]) else (lambda f: And(S0.L(f), inc(f), window(eng, cfg, f, I["loc"])))
            L2 = lambda f: And(S0.L(f), Not(gone(f)))
            e = fresh("e", cfg.sort)
            n2 = lambda x: And(S0.nodes(x), Or(Not(Eq(x, n)), Exists([e], And(L2(e), inc(e)))))
            check_state(eng, I["g"], S0, cfg.name + ".remove_node", L2, n2)
        return t_update(cfg, "remove_node", lab, args, check)
    for lab, w in win_variants(cfg, "remove_node"):
        yield one(lab, w)
