"""Engine with the graph theory: attribute heap, contracts of the graph classes at call
sites, and inductive summaries of loops that update a graph."""
from .core import *
from .logic import *
from .theory_graph import *

import itertools, os, time
Picks = {}          # line of a loop -> candidate choices that were inductive before in this task: tried first
TRACE = os.environ.get("PYVC_TRACE")
AtF = None
NX_KINDS = {"Graph", "MultiGraph", "DiGraph", "MultiDiGraph"}
stamp = z3.Function("stamp", Rf, Int)
NONE_VAL = z3.Const("val:none", Val)


class GState(Value):
    """abstract state of a graph whose representation invariant holds: ghost"""
    component = True
    tname = "ghost"

    def __init__(self, cfg, L, nodes, AT, NA, recs):
        self.cfg, self.L, self.nodes, self.AT, self.NA, self.recs = cfg, L, nodes, AT, NA, recs


class Proj(Value):
    """the projection of a graph onto a window, by the contract of to_subgraph"""
    tname = "obj"

    def __init__(self, gref, args): self.gref, self.args = gref, args
    def subst(self, pairs): return Proj(self.gref, {k: vsubst(v, pairs) for k, v in self.args.items()})
    def free(self): return [t for v in self.args.values() for t in vfree(v)]


class GEngine(Engine):
    contracts_on = True

    def reset(self, trace):
        Engine.reset(self, trace)
        self.epochs = 0
        self.stamps = 0
        self.obls = []
        self.used_contracts = getattr(self, "used_contracts", set())
        self.attrs = self.alloc(AttrHeap(z3.Function("has0", Rf, Key, Bool), z3.Function("val0", Rf, Key, Val)))

    def tick(self):
        self.epochs += 1
        return self.epochs

    def used(self, name): self.used_contracts.add(name)

    def oblige(self, name, f):
        """a proof obligation at this point of this path; assumed from here on"""
        f = bool_(f)
        if z3.is_true(f):
            self.on_obligation(name, None, None)
            return
        self.on_obligation(name, list(self.ctx()), f)
        self.fact(f)

    def on_obligation(self, name, ctx, f): self.obls.append((name, ctx, f))

    # ------------------------------------------------------------ attribute dictionaries
    def attr_content(self, r):
        h = self.heap[self.attrs.id]
        return Content(lambda k: h.has(r, k), lambda k: h.val(r, k))

    def new_rf(self, content):
        self.stamps += 1
        r = z3.Const("rf%d" % self.stamps + "_" + str(Fresh.n), Rf)
        Fresh.n += 1
        self.fact(stamp(r) == self.stamps)
        h = self.heap[self.attrs.id]
        has, val = h.has, h.val
        self.put(self.attrs, AttrHeap(lambda q, k: self.bite(Eq(q, r), content.has(k), has(q, k)),
                                      lambda q, k: ite(Eq(q, r), content.val(k), val(q, k))))
        return r

    def bite(self, c, a, b):
        if z3.is_true(c):
            return a
        return Or(And(c, a), And(Not(c), b))

    def to_rf(self, v):
        if isinstance(v, z3.ExprRef) and v.sort() == Rf:
            return v
        if isinstance(v, HRef):
            r = self.heap[v.id]
            if isinstance(r, RfAlias):
                return r.rf
            if isinstance(r, DictRec) and not r.groups:
                rf = self.new_rf(self.entries_content(r.entries))
                self.put(v, RfAlias(rf))
                return rf
        if isinstance(v, Content):
            return self.new_rf(v)
        raise Unsupported("attribute dictionary %r" % (v,))

    def content_of(self, v):
        if isinstance(v, HRef) and isinstance(self.heap[v.id], RfAlias):
            return self.attr_content(self.heap[v.id].rf)
        return Engine.content_of(self, v)

    def mapping_parts(self, v):
        if isinstance(v, HRef) and isinstance(self.heap[v.id], RfAlias):
            v = self.heap[v.id].rf
        return Engine.mapping_parts(self, v)

    def kw_content(self, kw):
        if not kw:
            return None
        d = self.make_kwargs(kw.get("**"), {k: v for k, v in kw.items() if k != "**"})
        return self.content_of(d)

    def rf_method(self, r, name, args, kw):
        h = self.heap[self.attrs.id]
        has, val = h.has, h.val
        if name == "update":
            c = None
            for a in args:
                c = merge_content(c, self.content_of(a))
            k = self.kw_content(kw)
            if k is not None:
                c = merge_content(c, k)
            if c is None:
                return None
            self.put(self.attrs, AttrHeap(lambda q, k: Or(has(q, k), And(Eq(q, r), c.has(k))),
                                          lambda q, k: ite(And(Eq(q, r), c.has(k)), c.val(k), val(q, k))))
            return None
        if name == "__setitem__":
            k0, v0 = self.as_key(args[0]), self.as_val(args[1])
            self.put(self.attrs, AttrHeap(lambda q, k: Or(has(q, k), And(Eq(q, r), Eq(k, k0))),
                                          lambda q, k: ite(And(Eq(q, r), Eq(k, k0)), v0, val(q, k))))
            return None
        if name in ("pop", "__delitem__"):
            k0 = self.as_key(args[0])
            if len(args) < 2 and not self.decide(has(r, k0)):
                raise PyRaise(VExc("KeyError"))
            self.put(self.attrs, AttrHeap(lambda q, k: And(has(q, k), Not(And(Eq(q, r), Eq(k, k0)))), val))
            return Opaque()
        if name == "clear":
            self.put(self.attrs, AttrHeap(lambda q, k: And(has(q, k), Not(Eq(q, r))), val))
            return None
        if name == "setdefault":
            k0 = self.as_key(args[0])
            if self.decide(has(r, k0)):
                return val(r, k0)
            self.rf_method(r, "__setitem__", args, {})
            return args[1]
        c = self.attr_content(r)
        return c.method(self, r, name, args, kw)

    # ------------------------------------------------------------ classes
    def cfg_of(self, cls):
        for n in cls.mro_names():
            if n in CFGS:
                return CFGS[n]
        return None

    def coerce_field(self, cls, name, v):
        cfg = self.cfg_of(cls)
        if cfg is None:
            return v
        if name in ("_adj", "_pred", "_succ") and is_empty_dict(self, v):
            s = cfg.sort
            r0 = z3.Const("rfnone", Rf)
            return self.alloc(NMap(s, lambda x: FALSE, lambda x, y: FALSE, lambda x, y, e: FALSE, lambda x, y, e: r0))
        if name == "_node" and is_empty_dict(self, v):
            r0 = z3.Const("rfnone", Rf)
            return self.alloc(NodeMap(lambda x: FALSE, lambda x: r0))
        if name == "tree" and is_empty_dict(self, v):
            return self.alloc(STree(lambda t: FALSE, lambda t, p, q: FALSE))
        if name == "graph":
            return PyDict()
        return v

    def instantiate(self, cls, args, kw):
        if cls.name == "IntervalTree" and not args and not kw:
            self.used("IntervalTree.__init__")
            return self.alloc(ITree(lambda e: FALSE))
        cfg = CFGS.get(cls.name)
        if cfg is not None and self.contracts_on and not args and not kw:
            self.used(cls.name + ".__init__")
            r0 = z3.Const("rfnone", Rf)
            return self.new_graph(cfg, lambda e: FALSE, lambda x: FALSE, lambda e: r0, lambda x: r0, None)
        if cls.name == "Node":
            raise Unsupported("tree node")
        return Engine.instantiate(self, cls, args, kw)

    def hook_builtin(self, name, args, kw):
        if name in NX_KINDS and not args and not kw:
            return self.alloc(NXRec(name))
        if name == "NodeDataView":
            m = args[0]
            data = args[1] if len(args) > 1 else kw.get("data", False)
            default = args[2] if len(args) > 2 else kw.get("default", None)
            r, ref = self.rec(m)
            if isinstance(r, NodeMap):
                p = r.fam(ref).parts[0]
                return NDView([Part(p.vars, p.guard, (p.elem, r.at(p.elem)))], data, default, (ref.id,))
            if isinstance(r, DictRec) and not r.groups:
                if len(r.entries) == 1 and r.entries[0].vars and len(r.entries[0].vars) == 1 and \
                        r.entries[0].elem[0].eq(r.entries[0].vars[0]):
                    return NDView(r.entries, data, default)
                f = r.canonical(self)
                ps = [Part(p.vars, p.guard, (p.elem, r.value_at(self, p.elem))) for p in f.parts]
                return NDView(ps, data, default)
            raise Unsupported("NodeDataView")
        if name in ("timer", "LinearRegression"):
            return Opaque()
        return None

    # ------------------------------------------------------------ graphs
    def materialize(self, cfg, L, nodes, AT, NA, tag=None):
        """records and facts of a graph whose representation invariant holds"""
        tag = tag or "s%d" % Fresh.n
        Fresh.n += 1
        F = lambda n, *s: z3.Function(n + "@" + tag, *s)
        S = cfg.sort
        e, x, y = z3.Const("e", S), z3.Const("x", Nd), z3.Const("y", Nd)
        recs = {}
        for m in cfg.maps:
            N1, N2, W = F("N1" + m, Nd, Bool), F("N2" + m, Nd, Nd, Bool), F("W" + m, Nd, Nd, S)
            pats = lambda t: [t]
            cs = [N1(cfg.u(e)) if m != "_succ" else N1(cfg.v(e))]
            if m == "_adj":
                cs += [N1(cfg.v(e)), N2(cfg.u(e), cfg.v(e)), N2(cfg.v(e), cfg.u(e))]
            elif m == "_pred":
                cs.append(N2(cfg.u(e), cfg.v(e)))
            else:
                cs.append(N2(cfg.v(e), cfg.u(e)))
            self.fact(Forall([e], Implies(L(e), And(cs))))
            self.facts.append(z3.ForAll([x, y], Implies(N2(x, y), And(N1(x), L(W(x, y)), cfg.joins(m, x, y, W(x, y)))),
                                        patterns=[N2(x, y)]))
            recs[m] = NMap(S, N1, N2, (lambda a, b, f, m=m: And(L(f), cfg.joins(m, a, b, f))), lambda a, b, f: AT(f), self.tick())
        cs = [nodes(cfg.u(e)), nodes(cfg.v(e)), cfg.times_ok(e)]
        self.fact(Forall([e], Implies(L(e), And(cs))))
        if cfg.interval and not cfg.directed:
            self.fact(Forall([e], Implies(And(L(e), L(cfg.rev(e))), Eq(cfg.u(e), cfg.v(e)))))
        own, knd, ownn = F("own", Rf, S), F("knd", Rf, Int), F("ownn", Rf, Nd)
        self.fact(Forall([e], Implies(L(e), And(own(AT(e)) == e, knd(AT(e)) == 0, stamp(AT(e)) <= self.stamps))))
        self.fact(Forall([x], Implies(nodes(x), And(ownn(NA(x)) == x, knd(NA(x)) == 1, stamp(NA(x)) <= self.stamps))))
        recs["_node"] = NodeMap(nodes, NA)
        if cfg.interval:
            recs["tree"] = ITree(L)
        else:
            t, p, q = z3.Real("t"), z3.Const("p", Nd), z3.Const("q", Nd)
            T1, Wp, Wq = F("T1", Real, Bool), F("Wp", Real, Nd), F("Wq", Real, Nd)
            self.fact(Forall([e], Implies(L(e), T1(edge_comp(e, 2)))))
            self.facts.append(z3.ForAll([t], Implies(T1(t), L(PEdge.pe(Wp(t), Wq(t), t))), patterns=[T1(t)]))
            recs["tree"] = STree(T1, lambda s, a, b: L(PEdge.pe(a, b, s)), self.tick())
        return recs

    def new_graph(self, cfg, L, nodes, AT, NA, model, tag=None, cls=None):
        recs = self.materialize(cfg, L, nodes, AT, NA, tag)
        fields = {f: self.alloc(r) for f, r in recs.items()}
        fields["_model"] = model
        fields["graph"] = PyDict()
        if cfg.name == "ImpulseDiGraph":
            fields["edgeid"] = 0
        gh = self.alloc(GState(cfg, L, nodes, AT, NA, recs))
        return self.alloc(ObjRec(self.classes[(cfg.module, cfg.name)], fields, gh))

    def same_rec(self, a, b):
        if a is b:
            return True
        if isinstance(a, ITree) and isinstance(b, ITree):
            return a.T is b.T
        return False

    def is_clean(self, rec):
        if rec.ghost is None:
            return False
        g = self.heap[rec.ghost.id]
        return all(f in rec.fields and self.same_rec(self.heap[rec.fields[f].id], r) for f, r in g.recs.items())

    def vis(self, cfg, rec, m):
        M = self.heap[rec.fields[m].id]
        return lambda x, y, e: And(M.n1(x), M.n2(x, y), M.n3(x, y, e))

    def inv_formulas(self, rec, cfg):
        """the representation invariant of the present state: (name, formula) over fresh constants,
        with L read off the adjacency"""
        out = []
        S = cfg.sort
        m0 = cfg.maps[0]
        for f in cfg.maps + ("_node", "tree"):
            if f not in rec.fields or not isinstance(rec.fields[f], HRef):
                raise Unsupported("field " + f)
        for f, t in [(m, NMap) for m in cfg.maps] + [("_node", NodeMap), ("tree", ITree if cfg.interval else STree)]:
            if not isinstance(self.heap[rec.fields[f].id], t):
                raise Unsupported("field %s holds %s" % (f, type(self.heap[rec.fields[f].id]).__name__))
        v0 = self.vis(cfg, rec, m0)
        L = lambda e: v0(cfg.u(e), cfg.v(e), e)
        M0 = self.heap[rec.fields[m0].id]
        AT = lambda e: M0.at(cfg.u(e), cfg.v(e), e)
        x, y, e = fresh("ix", Nd), fresh("iy", Nd), fresh("ie", S)
        for m in cfg.maps:
            M = self.heap[rec.fields[m].id]
            v = self.vis(cfg, rec, m)
            out.append(("%s lists exactly the stored edges under their end nodes" % m, Iff(v(x, y, e), And(L(e), cfg.joins(m, x, y, e)))))
            out.append(("%s has no empty entry" % m, Implies(And(M.n1(x), M.n2(x, y)), Exists([z3.Const("we", S)], v(x, y, z3.Const("we", S))))))
            out.append(("%s shares the edge's attribute dictionary" % m, Implies(v(x, y, e), Eq(M.at(x, y, e), AT(e)))))
        N = self.heap[rec.fields["_node"].id]
        out.append(("end nodes of stored edges are nodes", Implies(L(e), And(N.n(cfg.u(e)), N.n(cfg.v(e))))))
        out.append(("begin <= end", Implies(L(e), cfg.times_ok(e))))
        T = self.heap[rec.fields["tree"].id]
        if cfg.interval:
            out.append(("the time index holds exactly the stored edges", Iff(T.T(e), L(e))))
            if not cfg.directed:
                out.append(("an edge is stored in one orientation", Implies(And(L(e), L(cfg.rev(e))), Eq(cfg.u(e), cfg.v(e)))))
        else:
            t = edge_comp(e, 2)
            out.append(("the time index holds exactly the stored edges", Iff(And(T.t1(t), T.t2(t, cfg.u(e), cfg.v(e))), L(e))))
            tt, p, q = fresh("it", Real), z3.Const("wp", Nd), z3.Const("wq", Nd)
            out.append(("the time index has no empty timestamp", Implies(T.t1(tt), Exists([p, q], T.t2(tt, p, q)))))
        e2 = fresh("ie2", S)
        out.append(("attribute dictionaries of edges are distinct", Implies(And(L(e), L(e2), Eq(AT(e), AT(e2))), Eq(e, e2))))
        out.append(("attribute dictionaries of edges and nodes are distinct", Implies(And(L(e), N.n(x)), Not(Eq(AT(e), N.at(x))))))
        out.append(("attribute dictionaries of nodes are distinct", Implies(And(N.n(y), N.n(x), Eq(N.at(y), N.at(x))), Eq(x, y))))
        return out, L, N, AT

    def make_clean(self, gref, why):
        rec = self.heap[gref.id]
        cfg = self.cfg_of(rec.cls)
        if self.is_clean(rec):
            return self.heap[rec.ghost.id]
        obs, L, N, AT = self.inv_formulas(rec, cfg)
        for n, f in obs:
            self.oblige("%s: invariant before %s: %s" % (cfg.name, why, n), f)
        return self.set_state(gref, L, N.n, AT, N.at)

    def set_state(self, gref, L, nodes, AT, NA):
        rec = self.heap[gref.id]
        cfg = self.cfg_of(rec.cls)
        recs = self.materialize(cfg, L, nodes, AT, NA)
        for f, r in recs.items():
            self.put(rec.fields[f], r)
        g = GState(cfg, L, nodes, AT, NA, recs)
        if rec.ghost is None:
            gh = self.alloc(g)
            self.put(gref, ObjRec(rec.cls, rec.fields, gh))
        else:
            self.put(rec.ghost, g)
        return g

    # ------------------------------------------------------------ contracts at call sites
    def call_obj_method(self, ref, rec, name, args, kw):
        f = rec.cls.lookup(name)
        if f is None:
            raise PyRaise(VExc("AttributeError"))
        cfg = CFGS.get(rec.cls.name)
        if cfg is not None and self.contracts_on and not f.static and not f.is_gen:
            c = CONTRACTS.get((cfg.interval, name)) or CONTRACTS.get((None, name))
            if c is not None:
                loc = self.bind(f, ref, args, kw)
                names = [a.arg for a in f.node.args.args]
                r = c(self, cfg, ref, loc)
                if r is not NotImplemented:
                    self.used(cfg.name + "." + name)
                    return r
        return Engine.call_obj_method(self, ref, rec, name, args, kw)

    # ------------------------------------------------------------ loops over graph updates
    def iter_conflict(self, old, news, fam):
        lv = getattr(fam, "lv", None)
        for n in news:
            if lv is None and isinstance(old, (NMap, STree)):
                return True
            if isinstance(old, NMap):
                a = {1: "n1", 2: "n2", 3: "n3"}[lv]
                if getattr(old, a) is not getattr(n, a):
                    return True
            elif isinstance(old, STree):
                a = {1: "t1", 2: "t2"}[lv]
                if getattr(old, a) is not getattr(n, a):
                    return True
            elif isinstance(old, AttrHeap):
                continue
            elif isinstance(old, NodeMap):
                if old.n is not n.n:
                    return True
            elif isinstance(old, ITree):
                if old.T is not n.T:
                    return True
            elif isinstance(old, GState):
                continue
            elif old is not n:
                return True
        return False

    def slots(self, r):
        """name -> (closure, argument sorts) of the predicates a component is made of"""
        if isinstance(r, NMap):
            return {"n1": (r.n1, (Nd,)), "n2": (r.n2, (Nd, Nd)), "n3": (r.n3, (Nd, Nd, r.sort))}
        if isinstance(r, NodeMap):
            return {"n": (r.n, (Nd,))}
        if isinstance(r, STree):
            return {"t1": (r.t1, (Real,)), "t2": (r.t2, (Real, Nd, Nd))}
        if isinstance(r, ITree):
            return {"T": (r.T, (IEdge,))}
        if isinstance(r, GState):
            return {"L": (r.L, (r.cfg.sort,)), "nodes": (r.nodes, (Nd,))}
        raise Unsupported("loop updates %s" % type(r).__name__)

    def rebuild(self, r, cl):
        if isinstance(r, NMap):
            return r.upd(epoch=self.tick(), **cl)
        if isinstance(r, NodeMap):
            return NodeMap(cl["n"], r.at)
        if isinstance(r, STree):
            return STree(cl["t1"], cl["t2"], self.tick())
        if isinstance(r, ITree):
            return ITree(cl["T"])
        raise Unsupported("loop updates %s" % type(r).__name__)

    def frozen_slots_ok(self, r0, r1):
        """what a loop must leave alone"""
        if isinstance(r0, NMap):
            return r0.at is r1.at
        if isinstance(r0, (NodeMap,)):
            return r0.at is r1.at
        if isinstance(r0, GState):
            return r0.AT is r1.AT and r0.NA is r1.NA
        return True

    def comp_loop(self, part, s, comps, h0, r2, simple, explore_body):
        if simple:
            raise Unsupported("loop updates a graph and a collection")
        if any(r.kind not in ("normal", "raise") for r in r2):
            raise Unsupported("early exit from a loop that updates a graph")
        ghosts = [i for i in comps if isinstance(h0[i], GState)]
        if ghosts:
            return self.clean_loop(part, s, comps, ghosts, h0, explore_body)
        for i in comps:
            for r in r2:
                if r.kind == "normal" and not self.frozen_slots_ok(h0[i], r.heap[i]):
                    raise Unsupported("loop assigns attribute dictionaries")
        spec = {i: self.slots(h0[i]) for i in comps}
        install = lambda cl: [self.put(HRef(i), self.rebuild(h0[i], {n: cl[(i, n)] for n in spec[i]})) for i in comps]
        read = lambda heap: {(i, n): c for i in comps for n, (c, _) in self.slots(heap[i]).items()}
        flat = {(i, n): v for i in comps for n, v in spec[i].items()}
        alts = lambda key, cand, complex_: self.raw_alternatives(key, cand, flat, h0)
        final = self.induct(part, flat, install, read, explore_body, alts, h0, s)
        install(final)
        return None

    def raw_alternatives(self, key, cand, flat, h0):
        """non-empty-entry candidates for a key table: the key is present while its entry is non-empty"""
        i, n = key
        r = h0[i]
        c0 = flat[key][0]
        if n == "t1":
            def f(t):
                p, q = fresh("p", Nd), fresh("q", Nd)
                return And(c0(t), Exists([p, q], cand[(i, "t2")](t, p, q)))
            return [c0, f]
        if n == "n2":
            def g(x, y):
                e = fresh("e", r.sort)
                return And(c0(x, y), Exists([e], cand[(i, "n3")](x, y, e)))
            return [c0, g]
        if n == "n1":
            def h(x):
                y = fresh("y", Nd)
                return And(c0(x), Exists([y], cand[(i, "n2")](x, y)))
            return [c0, h]
        return [c0]

    def clean_loop(self, part, s, comps, ghosts, h0, explore_body):
        if len(ghosts) != 1:
            raise Unsupported("loop updates two graphs")
        gi = ghosts[0]
        gref = [HRef(i) for i, r in self.heap.items() if isinstance(r, ObjRec) and r.ghost is not None and r.ghost.id == gi][0]
        g0 = h0[gi]
        rec = self.heap[gref.id]
        if not self.is_clean(rec):
            raise Unsupported("loop starts from a state whose invariant is not established")
        mine = {rec.fields[f].id for f in g0.recs} | {gi}
        other = [i for i in comps if i not in mine and not (self.loop_inv is not None and i == self.attrs.id)]
        if other:
            raise Unsupported("loop updates a graph and attributes")
        if self.loop_inv is not None:
            return self.inv_loop(part, s, gref, g0, explore_body)
        flat = {("g", n): v for n, v in self.slots(g0).items()}
        install = lambda cl: self.set_state(gref, cl[("g", "L")], cl[("g", "nodes")], g0.AT, g0.NA)

        def read(heap):
            g = heap[gi]
            if not (g.AT is g0.AT and g.NA is g0.NA):
                raise Unsupported("loop assigns attribute dictionaries")
            return {("g", "L"): g.L, ("g", "nodes"): g.nodes}
        alts = lambda key, cand, complex_: [flat[key][0]]
        final = self.induct(part, flat, install, read, lambda: explore_body_clean(self, gref, explore_body), alts, h0, s)
        install(final)
        return None

    loop_inv = None

    def inv_loop(self, part, s, gref, g0, explore_body):
        """a loop that adds to a graph, by the invariant the specification supplies: a list of
        (name, variables, formula) over the state and the set P of elements already processed"""
        if len(part.vars) != 1:
            raise Unsupported("shape of the loop")
        h0, cfg = self.heap[self.attrs.id], g0.cfg
        v, S = part.vars[0], cfg.sort
        line = getattr(s, "lineno", "?")
        Fresh.n += 1
        tag = Fresh.n
        Pf = z3.Function("Pdone!%d" % tag, v.sort(), Bool)
        at = lambda w: subst(part.guard, [(v, w)])

        def inv(P):
            g, h = self.heap[self.heap[gref.id].ghost.id], self.heap[self.attrs.id]
            return self.loop_inv(self, g0, h0, g, h, v.sort(), P)

        def prove(what, P):
            for n, vs, f in inv(P):
                self.oblige("line %s: the loop invariant %s: %s" % (line, what, n), f)

        def havoc(P, k):
            F = lambda n, *q: z3.Function("%s!%d_%d" % (n, tag, k), *q)
            self.stamps += 1
            self.put(self.attrs, AttrHeap(F("hash", Rf, Key, Bool), F("valh", Rf, Key, Val)))
            self.set_state(gref, F("Lh", S, Bool), F("Vh", Nd, Bool), F("ATh", S, Rf), F("NAh", Nd, Rf))
            for n, vs, f in inv(P):
                self.fact(Forall(vs, f))
        prove("holds on entry", lambda w: FALSE)
        saved = dict(self.heap), len(self.facts), len(self.conds), self.stamps
        havoc(lambda w: And(Pf(w), at(w)), 1)
        self.conds.append(Not(Pf(v)))
        mid = len(self.facts), len(self.conds)
        rs = explore_body()
        for r in rs:
            self.heap = dict(r.heap)
            self.facts += r.facts
            self.conds += r.conds
            if r.kind == "raise":
                self.oblige("line %s: the loop body does not raise %s" % (line, r.value.name), FALSE)
            elif r.kind != "normal":
                raise Unsupported("early exit from a loop that updates a graph")
            else:
                self.make_clean(gref, "the next iteration")
                prove("is kept", lambda w: Or(And(Pf(w), at(w)), Eq(w, v)))
            del self.facts[mid[0]:]
            del self.conds[mid[1]:]
        self.heap = dict(saved[0])
        del self.facts[saved[1]:]
        del self.conds[saved[2]:]
        havoc(at, 2)
        return None

    def static_edges(self, st):
        x = fresh("x", XE)
        return Fam([Part((x,), st.has(x), (st.a(x), st.b(x), st.at(x)))])

    def induct(self, part, flat, install, read, explore_body, alts, h0, s):
        """find and prove the state of the updated tables after processing an arbitrary subset P"""
        vs = part.vars
        tag = Fresh.n
        saved = dict(self.heap)
        nf, nc = len(self.facts), len(self.conds)
        # probe with generic tables to read off what one iteration removes / adds
        gen = {}
        for key, (c, sorts) in flat.items():
            gen[key] = z3.Function("gen_%s!%d" % (key[1], Fresh.n), *(sorts + (Bool,)))
            Fresh.n += 1
        install(gen)
        rs = explore_body()
        self.heap = dict(saved)
        del self.facts[nf:]
        del self.conds[nc:]
        normals = [r for r in rs if r.kind == "normal"]
        if not normals:
            raise Unsupported("loop body always raises")
        gsyms = {str(g) for g in gen.values()}
        D, A = {}, {}
        for key, (c, sorts) in flat.items():
            args = [fresh("a", q) for q in sorts]
            outs = []
            for r in normals:
                t = read(r.heap)[key](*args)
                app = gen[key](*args)
                K = push_not(z3.simplify(subst(t, [(app, TRUE)])))
                a = push_not(z3.simplify(subst(t, [(app, FALSE)])))
                outs.append((r, K, a))
            A[key] = []
            for _, K, a in outs:
                if not (mentions(K, gsyms) or mentions(a, gsyms)) and not any(K.eq(k) and a.eq(b) for _, k, b in A[key]):
                    A[key].append((args, K, a))
            if any(mentions(K, gsyms) or mentions(a, gsyms) for _, K, a in outs):
                D[key] = None
                continue
            k0, a0 = outs[0][1], outs[0][2]
            if all(K.eq(k0) and a.eq(a0) for _, K, a in outs):
                D[key] = (args, Not(k0), a0)
            else:
                conds = [[c for c in r.conds if not c.eq(part.guard)] for r, _, _ in outs]
                if any(mentions(c, gsyms) for cs in conds for c in cs):
                    D[key] = None
                    continue
                D[key] = (args, Or([And(cs + [Not(K)]) for cs, (_, K, _) in zip(conds, outs)]),
                          Or([And(cs + [a]) for cs, (_, _, a) in zip(conds, outs)]))

        def closure(P, c0, args, d, a):
            def f(*xs):
                ws = [fresh("w", v.sort()) for v in vs]
                pr = list(zip(args, xs)) + list(zip(vs, ws))
                rem = Exists(ws, And(P(ws), subst(d, pr)))
                add = Exists(ws, And(P(ws), subst(a, pr)))
                return Or(And(c0(*xs), Not(rem)), add)
            return f

        def cands(P):
            """closures for the state after processing the index values satisfying P"""
            return {key: closure(P, c0, *(D[key][0], D[key][1], D[key][2])) for key, (c0, _) in flat.items() if D[key] is not None}
        hard = [k for k in flat if D[k] is None]

        def alternatives(k, out, P):
            """candidates for a table whose update differs from path to path: what one of the paths does,
            and the candidates suggested by the structure"""
            own = [closure(P, flat[k][0], args, Not(K), a) for args, K, a in A[k]]
            more = alts(k, out, hard)
            return own + more if k[1] in ("t2", "n3", "T", "L") else more + own
        base = cands(lambda ws: FALSE)
        choices = [list(range(len(alternatives(k, {kk: flat[kk][0] for kk in flat}, lambda ws: FALSE)))) for k in hard]
        guard = part.guard
        Pf = z3.Function("Pdone!%d" % Fresh.n, *([v.sort() for v in vs] + [Bool]))
        Fresh.n += 1
        last = None
        t_start = time.time()
        # cheap attempts at every candidate first, then with the full provers
        line = getattr(s, "lineno", None)
        known = [q for q in Picks.get(line, []) if all(j in c for j, c in zip(q, choices)) and len(q) == len(choices)]
        picks = known + [q for q in sorted(itertools.product(*choices), key=lambda q: len(set(q))) if q not in known]
        for pick, light in [(q, l) for q in known for l in (True, False)] + [(q, True) for q in picks[len(known):]] + [(q, False) for q in picks[len(known):]]:
            def full(P, pick=pick):
                out = cands(P)
                for k, j in sorted(zip(hard, pick), key=lambda z: {"T": 0, "t2": 0, "n3": 0, "L": 0}.get(z[0][1], {"n2": 1}.get(z[0][1], 2))):
                    out[k] = alternatives(k, out, P)[j]
                return out
            self.heap = dict(saved)
            inP = full(lambda ws: Pf(*ws))
            inP2 = full(lambda ws: Or(Pf(*ws), And([Eq(w, v) for w, v in zip(ws, vs)])))
            ws = [fresh("w", v.sort()) for v in vs]
            self.facts.append(z3.ForAll(ws, Implies(Pf(*ws), subst(guard, list(zip(vs, ws))))))
            self.conds.append(Not(Pf(*vs)))
            install(inP)
            ok = True
            obs = []
            try:
                # base case: nothing processed yet gives the present state (hard candidates need it)
                for k in hard:
                    xs = [fresh("b", q) for q in flat[k][1]]
                    b = full(lambda ws: FALSE)[k]
                    if b is not flat[k][0]:
                        obs.append(("loop invariant holds on entry (%s)" % k[1], self.ctx(), Iff(b(*xs), flat[k][0](*xs))))
                rs = explore_body()
                for r in rs:
                    cx = BACKGROUND + self.facts + r.facts + self.conds + r.conds
                    if r.kind == "raise":
                        obs.append(("loop body does not raise %s" % r.value.name, cx, FALSE))
                        continue
                    fin = read(r.heap)
                    for k in flat:
                        xs = [fresh("i", q) for q in flat[k][1]]
                        obs.append(("loop invariant is kept (%s)" % k[1], cx, Iff(fin[k](*xs), inP2[k](*xs))))
                for n, cx, f in obs:
                    if Solver.check(list(cx) + [Not(f)], light=light)[0] != "unsat":
                        ok = False
                        last = n
                        break
            finally:
                self.heap = dict(saved)
                del self.facts[nf:]
                del self.conds[nc:]
            if TRACE:
                print("  induct line", getattr(s, "lineno", "?"), "hard", [k[1] for k in hard], "pick", pick, "of", [len(c) for c in choices], light, ok, "" if ok else last, "%.1f" % (time.time() - t_start))
            if ok:
                if choices:
                    Picks[line] = [pick] + [q for q in Picks.get(line, []) if q != pick]
                for n, cx, f in obs:
                    self.on_obligation("line %s: %s" % (getattr(s, "lineno", "?"), n), None, None)
                return full(lambda ws: subst(guard, list(zip(vs, ws))))
        raise Unsupported("no inductive invariant for the loop (%s)" % last)


def explore_body_clean(eng, gref, explore_body):
    return explore_body()


def mentions(f, names):
    seen, st = set(), [f]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x) and (x.decl().name() in names or x.decl().name().startswith(("card!", "sum!"))):
            return True
        st.extend(x.children())
    return False


# ---------------------------------------------------------------- contracts (specifications)
def sel_of(eng, cfg, a):
    """node selector: None, or a predicate on nodes; NotImplemented if not understood"""
    if a is None:
        return None
    n = as_nd(a)
    if n is not None:
        return lambda x: Eq(x, n)
    if isinstance(a, HRef) and isinstance(eng.heap[a.id], CollRec):
        r = eng.heap[a.id]
        if all(as_nd(p.elem) is not None for p in r.parts):
            return lambda x: eng.fam_member(r.fam(), x)
    return NotImplemented


def selects(cfg, e, U, V):
    """does edge e match node filters U and V"""
    u, v = cfg.u(e), cfg.v(e)
    if cfg.directed:
        return And(U(u) if U else TRUE, V(v) if V else TRUE)
    if U is None and V is None:
        return TRUE
    if V is None:
        return Or(U(u), U(v))
    if U is None:
        return Or(V(u), V(v))
    return Or(And(U(u), V(v)), And(U(v), V(u)))


def window(eng, cfg, e, loc):
    if cfg.interval:
        return meets(eng, e, loc.get("begin"), loc.get("end"))
    return inwin(eng, e, loc.get("begin"), loc.get("end"), loc["inclusive"])


def check_order(eng, b, n):
    """begin > end is refused"""
    if b is not None and n is not None:
        x, y = eng.arith2(b, n)
        if eng.decide(x > y):
            raise PyRaise(VExc("NetworkXError"))


def need_order(eng, b, n, what):
    if b is not None and n is not None:
        x, y = eng.arith2(b, n)
        eng.oblige("precondition of %s: begin <= end" % what, x <= y)


def num_or_none(eng, x): return x is None or eng.is_num(x) or isinstance(x, z3.ExprRef) and x.sort() == Val


def win_ok(eng, loc):
    return num_or_none(eng, loc.get("begin")) and num_or_none(eng, loc.get("end")) and \
        ("inclusive" not in loc or isinstance(loc["inclusive"], tuple) and len(loc["inclusive"]) == 2)


def c_edges(eng, cfg, ref, loc):
    U, V = sel_of(eng, cfg, loc["u"]), sel_of(eng, cfg, loc["v"])
    if U is NotImplemented or V is NotImplemented or not win_ok(eng, loc):
        return NotImplemented
    data = loc["data"]
    if not (isinstance(data, (bool, str)) or isinstance(data, z3.ExprRef) and data.sort() == Key):
        return NotImplemented
    G = eng.make_clean(ref, "edges()")
    check_order(eng, loc["begin"], loc["end"])
    e = fresh("e", cfg.sort)
    g = And(G.L(e), selects(cfg, e, U, V), window(eng, cfg, e, loc))
    return eng.alloc(CollRec("list", edges_parts(eng, cfg, G, e, g, data, loc["default"])))


def edges_parts(eng, cfg, G, e, g, data, default):
    if data is False:
        return [Part((e,), g, e)]
    if data is True:
        return [Part((e,), g, (e, G.AT(e)))]
    c = eng.attr_content(G.AT(e))
    k = eng.as_key(data)
    return [Part((e,), And(g, c.has(k)), (e, c.val(k))), Part((e,), And(g, Not(c.has(k))), (e, default))]


def present(eng, cfg, G, loc):
    """is node x present in the window"""
    def f(x):
        e = fresh("e", cfg.sort)
        return Exists([e], And(G.L(e), Or(Eq(cfg.u(e), x), Eq(cfg.v(e), x)), window(eng, cfg, e, loc)))
    return f


def c_nodes(eng, cfg, ref, loc):
    if not win_ok(eng, loc):
        return NotImplemented
    G = eng.make_clean(ref, "nodes()")
    x = fresh("x", Nd)
    if loc["begin"] is None and loc["end"] is None:
        rec = eng.heap[ref.id]
        return NDView([Part((x,), G.nodes(x), (x, G.NA(x)))], loc["data"], loc["default"], (rec.fields["_node"].id,))
    need_order(eng, loc["begin"], loc["end"], "nodes()")
    return NDView([Part((x,), present(eng, cfg, G, loc)(x), (x, G.NA(x)))], loc["data"], loc["default"])


def c_number_of_nodes(eng, cfg, ref, loc):
    if not win_ok(eng, loc):
        return NotImplemented
    G = eng.make_clean(ref, "number_of_nodes()")
    x = fresh("x", Nd)
    if loc["begin"] is None and loc["end"] is None:
        return eng.card([Part((x,), G.nodes(x), x)])
    need_order(eng, loc["begin"], loc["end"], "number_of_nodes()")
    return eng.card([Part((x,), present(eng, cfg, G, loc)(x), x)])


def c_has_node(eng, cfg, ref, loc):
    n = as_nd(loc["n"])
    if n is None or not win_ok(eng, loc):
        return NotImplemented
    G = eng.make_clean(ref, "has_node()")
    if loc["begin"] is None and loc["end"] is None:
        return G.nodes(n)
    need_order(eng, loc["begin"], loc["end"], "has_node()")
    return present(eng, cfg, G, loc)(n)


def pair_joins(cfg, u, v, e):
    return cfg.joins("_pred" if cfg.directed else "_adj", u, v, e)


def edge_match(eng, cfg, u, v, loc, e):
    w = TRUE
    if not (loc["begin"] is None and loc["end"] is None):
        if cfg.interval and loc.get("overlapping") is False:
            if loc["begin"] is None or loc["end"] is None:
                return None
            w = And(bool_(eng.eq(edge_comp(e, 2), loc["begin"])), bool_(eng.eq(edge_comp(e, 3), loc["end"])))
        else:
            w = window(eng, cfg, e, loc)
    return And(pair_joins(cfg, u, v, e), w)


def c_has_edge(eng, cfg, ref, loc):
    u, v = as_nd(loc["u"]), as_nd(loc["v"])
    if u is None or v is None or not win_ok(eng, loc) or not isinstance(loc.get("overlapping", True), bool):
        return NotImplemented
    G = eng.make_clean(ref, "has_edge()")
    e = fresh("e", cfg.sort)
    m = edge_match(eng, cfg, u, v, loc, e)
    if m is None:
        return NotImplemented
    if loc.get("overlapping", True):
        need_order(eng, loc["begin"], loc["end"], "has_edge()")
    return Exists([e], And(G.L(e), m))


def c_remove_edge(eng, cfg, ref, loc):
    u, v = as_nd(loc["u"]), as_nd(loc["v"])
    if u is None or v is None or not win_ok(eng, loc) or not isinstance(loc.get("overlapping", True), bool):
        return NotImplemented
    G = eng.make_clean(ref, "remove_edge()")
    if edge_match(eng, cfg, u, v, loc, fresh("e", cfg.sort)) is None:
        return NotImplemented
    need_order(eng, loc["begin"], loc["end"], "remove_edge()")
    L = G.L
    eng.set_state(ref, lambda f: And(L(f), Not(edge_match(eng, cfg, u, v, loc, f))), G.nodes, G.AT, G.NA)
    return None


def attr_arg(eng, loc):
    return eng.content_of(loc["attr"]) if "attr" in loc else None


def c_add_edge(eng, cfg, ref, loc):
    u, v = as_nd(loc["u"]), as_nd(loc["v"])
    if u is None or v is None or "attr" not in loc:
        return NotImplemented
    ts = [loc["begin"], loc["end"]] if cfg.interval else [loc["t"]]
    if not all(eng.is_num(t) or isinstance(t, z3.ExprRef) and t.sort() == Val for t in ts):
        return NotImplemented
    e0 = EDGE_MK[cfg.sort](u, v, *[toreal(eng, t) for t in ts])
    G = eng.make_clean(ref, "add_edge()")
    if cfg.interval:
        eng.oblige("precondition of add_edge(): begin <= end, finite times", cfg.times_ok(e0))
    L, AT, NA, nodes = G.L, G.AT, G.NA, G.nodes
    a = eng.content_of(loc["attr"])
    target = e0
    if cfg.interval and not cfg.directed:
        if eng.decide(And(L(cfg.rev(e0)), Not(L(e0)))):
            target = cfg.rev(e0)
    if eng.decide(L(target)):
        eng.rf_method(AT(target), "update", [a], {})
        eng.fact(TRUE)
        return None
    r = eng.new_rf(a)
    empty = Content(lambda k: FALSE, lambda k: NONE_VAL)
    nat = NA
    for x in (u, v):
        rn = eng.new_rf(empty)
        nat = (lambda y, prev=nat, x=x, rn=rn: ite(And(Eq(y, x), Not(nodes(y))), rn, prev(y)))
    eng.set_state(ref, lambda f: Or(L(f), Eq(f, target)), lambda x: Or(nodes(x), Eq(x, u), Eq(x, v)),
                  lambda f: ite(Eq(f, target), r, AT(f)), nat)
    return None


def toreal(eng, t):
    t = eng.num(t)
    return z3.ToReal(t) if t.is_int() else t


def c_add_node(eng, cfg, ref, loc):
    n = as_nd(loc["node_for_adding"]) if "node_for_adding" in loc else None
    if n is None or "attr" not in loc:
        return NotImplemented
    G = eng.make_clean(ref, "add_node()")
    a = eng.content_of(loc["attr"])
    nodes, NA = G.nodes, G.NA
    if eng.decide(nodes(n)):
        eng.rf_method(NA(n), "update", [a], {})
        return None
    r = eng.new_rf(a)
    eng.set_state(ref, G.L, lambda x: Or(nodes(x), Eq(x, n)), G.AT, lambda x: ite(Eq(x, n), r, NA(x)))
    return None


def c_interval(eng, cfg, ref, loc):
    G = eng.make_clean(ref, "interval()")
    rec = eng.heap[ref.id]
    t = eng.heap[rec.fields["tree"].id]
    if cfg.interval:
        return t.get_span(eng, rec.fields["tree"])
    e = fresh("e", cfg.sort)
    if not eng.decide(Exists([e], G.L(e))):
        raise PyRaise(VExc("IndexError"))
    if getattr(G, "span", None) is not None and any(G.span[2] is f for f in eng.facts):
        return G.span[:2]
    lo, hi, w1, w2 = fresh("first", Real), fresh("last", Real), fresh("w", cfg.sort), fresh("w", cfg.sort)
    eng.fact(And(G.L(w1), edge_comp(w1, 2) == lo, G.L(w2), edge_comp(w2, 2) == hi))
    eng.fact(Forall([e], Implies(G.L(e), And(lo <= edge_comp(e, 2), edge_comp(e, 2) <= hi))))
    G.span = (lo, hi, eng.facts[-1])
    return (lo, hi)


def deg_parts(eng, cfg, G, kind, n, loc):
    e = fresh("e", cfg.sort)
    w = And(G.L(e), window(eng, cfg, e, loc))
    if not cfg.directed:
        return [Part((e,), And(w, Or(Eq(cfg.u(e), n), Eq(cfg.v(e), n))), e)]
    out = []
    if kind in ("degree", "out_degree"):
        out.append(Part((e,), And(w, Eq(cfg.u(e), n)), e))
    if kind in ("degree", "in_degree"):
        out.append(Part((e,), And(w, Eq(cfg.v(e), n)), e))
    return list(map(rename, out))


def c_degree(kind):
    def f(eng, cfg, ref, loc):
        n = as_nd(loc["node"])
        if n is None or not win_ok(eng, loc) or loc["delta"] is not False:
            return NotImplemented
        G = eng.make_clean(ref, kind + "()")
        need_order(eng, loc["begin"], loc["end"], kind)
        t = 0
        for p in deg_parts(eng, cfg, G, kind, n, loc):
            c = eng.card([p])
            t = c if isinstance(t, int) else t + c
        return t
    return f


def c_to_subgraph(eng, cfg, ref, loc):
    if not win_ok(eng, loc):
        return NotImplemented
    eng.make_clean(ref, "to_subgraph()")
    need_order(eng, loc["begin"], loc["end"], "to_subgraph()")
    return eng.alloc_proj(ref, {k: v for k, v in loc.items() if k != "self"})


def alloc_proj(self, ref, args): return Proj(ref, args)


GEngine.alloc_proj = alloc_proj

CONTRACTS = {
    (None, "edges"): c_edges, (None, "nodes"): c_nodes, (None, "number_of_nodes"): c_number_of_nodes,
    (None, "has_node"): c_has_node, (None, "has_edge"): c_has_edge, (None, "remove_edge"): c_remove_edge,
    (None, "add_edge"): c_add_edge, (None, "add_node"): c_add_node, (None, "interval"): c_interval,
    (None, "degree"): c_degree("degree"), (None, "in_degree"): c_degree("in_degree"),
    (None, "out_degree"): c_degree("out_degree"), (None, "to_subgraph"): c_to_subgraph,
}
