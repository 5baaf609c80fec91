"""C23: contracts of the motif counter."""
from .theory_motif import *
from .specs_graph import Task

MOD = "dynetworkx.algorithms.count_temporal_motif"


def named(eng, name):
    f = eng.mods[MOD].names.get(name) if MOD in eng.mods else None
    if not isinstance(f, Func):
        raise Unsupported("no function " + name)
    return f


def run_function(eng, name, setup, post):
    def path():
        args, I = setup(eng)
        f = named(eng, name)
        loc = eng.bind(f, None, args, {})
        eng.inlined.add(f.qual)
        kind, rv = "return", None
        try:
            rv = eng.run_gen(f, loc) if f.is_gen else eng.run_body(f, loc)
        except PyRaise as r:
            kind, rv = "raise", r.exc
        post(eng, I, kind, rv)
        eng.path_end()
    eng.run_paths(path)


def ftask(name, variant, setup, post, engine=KEngine):
    t = Task("%s(%s)" % (name, variant), "count_temporal_motif", name, lambda eng: run_function(eng, name, setup, post), {"C23"})
    t.engine = engine
    return t


def count_at(d, k):
    """the count of a key, nothing counted being none; the empty sequence counts once"""
    return z3.If(N(k) == 0, 1, z3.If(d.P(k), d.V(k), 0))


def arb_counts(eng, L):
    P, V = z3.Function("counted", Ky, Bool), z3.Function("count", Ky, Int)
    k = z3.Const("k", Ky)
    eng.fact(z3.ForAll([k], Implies(P(k), And(1 <= N(k), N(k) <= L)), patterns=[P(k)]))
    return CMap(lambda x: P(x), lambda x: V(x))


def edge_group(eng):
    u, v = fresh("u", Nd), fresh("v", Nd)
    E = z3.Function("in_group", Nd, Nd, Bool)
    return eng.alloc(CollRec("list", [Part((u, v), E(u, v), (u, v))])), E


def setup_counts(eng):
    L = z3.Int("motif_length")
    eng.fact(L >= 2)
    d = arb_counts(eng, L)
    g, E = edge_group(eng)
    ref = eng.alloc(d)
    return [g, L, ref], dict(d=d, E=E, L=L, ref=ref, g=g, grec=eng.heap[g.id])


def same_group(eng, I, nm):
    if eng.heap[I["g"].id] is not I["grec"]:
        raise Unsupported("the list of edges is changed")
    return eng.heap[I["ref"].id]


def t_increment():
    def post(eng, I, kind, rv):
        nm = "__increment_counts"
        eng.oblige(nm + ": raises nothing", TRUE if kind == "return" else FALSE)
        if kind != "return":
            return
        d, d2, E, L = I["d"], same_group(eng, I, nm), I["E"], I["L"]
        k = fresh("k", Ky)
        p = INIT(k)
        eng.unfold(k, p)
        ext = And(N(k) >= 1, N(k) <= L, E(LU(k), LV(k)))
        eng.oblige(nm + ": a sequence ends with an edge of the group as often as what comes before it was counted",
                   Implies(N(k) >= 1, count_at(d2, k) == count_at(d, k) + z3.If(ext, count_at(d, p), 0)))
        eng.oblige(nm + ": sequences kept have one to all edges of the motif", Implies(d2.P(k), And(1 <= N(k), N(k) <= L)))
    return ftask("__increment_counts", "any group, any counts", setup_counts, post)


def t_decrement():
    def setup(eng):
        args, I = setup_counts(eng)
        d, E, L = I["d"], I["E"], I["L"]
        M = z3.Function("later", Ky, Int)
        k, u, v = z3.Const("k", Ky), z3.Const("u", Nd), z3.Const("v", Nd)
        eng.fact(M(NIL) == 1)
        eng.fact(z3.ForAll([k], M(k) >= 0, patterns=[M(k)]))
        eng.fact(z3.ForAll([k], Implies(And(1 <= N(k), N(k) < L), count_at(d, k) == M(k) + z3.If(E(FU(k), FV(k)), M(TAIL(k)), 0)), patterns=[N(k)]))
        I["M"] = M
        return args, I

    def post(eng, I, kind, rv):
        nm = "__decrement_counts"
        eng.oblige(nm + ": raises nothing", TRUE if kind == "return" else FALSE)
        if kind != "return":
            return
        d, d2, E, L, M = I["d"], same_group(eng, I, nm), I["E"], I["L"], I["M"]
        k = fresh("k", Ky)
        t = TAIL(k)
        eng.unfold(k, t)
        # by induction on the length of the sequence
        ih = Implies(And(1 <= N(t), N(t) < L), count_at(d2, t) == M(t))
        eng.oblige(nm + ": what is left of a shorter sequence is its count among the later edges",
                   Implies(And(1 <= N(k), N(k) < L, ih), count_at(d2, k) == M(k)))
        eng.oblige(nm + ": whole sequences stay counted", Implies(N(k) >= L, count_at(d2, k) == count_at(d, k)))
        eng.oblige(nm + ": sequences kept have one to all edges of the motif", Implies(d2.P(k), And(1 <= N(k), N(k) <= L)))
    return ftask("__decrement_counts", "counts with the group first", setup, post)


# ---------------------------------------------------------------- enumeration of connected node sets
class StaticG(Value):
    """the undirected static graph whose connected node sets are enumerated"""
    def __init__(self, eng):
        self.V, self.adj = z3.Function("is_node", Nd, Bool), z3.Function("adjacent", Nd, Nd, Bool)
        a, b = z3.Const("a", Nd), z3.Const("b", Nd)
        eng.fact(z3.ForAll([a, b], Implies(self.adj(a, b), And(self.adj(b, a), self.V(a), self.V(b))), patterns=[self.adj(a, b)]))

    def iter(self, eng, ref):
        x = fresh("x", Nd)
        return Fam([Part((x,), self.V(x), x)])
    def eq(self, eng, ref, o): return TRUE if o is self else self.bad("==")
    def contains(self, eng, ref, x): return self.V(x)

    def getitem(self, eng, ref, k): return self.method(eng, ref, "neighbors", [k], {})

    def method(self, eng, ref, name, args, kw):
        if name == "nodes" and not args and not kw:
            return self.iter(eng, ref)
        if name == "neighbors" and len(args) == 1 and not kw:
            eng.used("networkx.Graph.neighbors")
            x = fresh("x", Nd)
            return Fam([Part((x,), self.adj(args[0], x), x)])
        if name == "subgraph" and len(args) == 1 and not kw:
            eng.used("networkx.Graph.subgraph")
            f = eng.iter(args[0])
            return SubG(lambda x: And(self.V(x), eng.fam_member(f, x)))
        self.bad("method ." + name)


class SubG(Value):
    """the subgraph on a set of nodes"""
    def __init__(self, has): self.has = has
    def iter(self, eng, ref):
        x = fresh("x", Nd)
        return Fam([Part((x,), self.has(x), x)])
    def method(self, eng, ref, name, args, kw):
        if name == "nodes" and not args and not kw:
            return self.iter(eng, ref)
        self.bad("method ." + name)
    def getattr(self, eng, ref, name): return self.iter(eng, ref) if name == "nodes" and False else Value.getattr(self, eng, ref, name)


class Produced(Value):
    """what a call of the enumeration produces: the set looked for, if the formula holds"""
    def __init__(self, f): self.f = f


class EEngine(KEngine):
    """S is an arbitrary connected set of k nodes; made: it has been produced"""
    def reset(self, trace):
        KEngine.reset(self, trace)
        self.S, self.made, self.g, self.outer = None, FALSE, None, None

    def count_mode(self): return False

    def target(self, g):
        S, K, m = z3.Function("wanted", Nd, Bool), z3.Int("wanted_size"), z3.Const("least_wanted", Nd)
        a, b = z3.Const("a", Nd), z3.Const("b", Nd)
        self.S, self.K, self.g, self.least = S, K, g, m
        self.fact(z3.ForAll([a], Implies(S(a), And(g.V(a), Or(a == m, LT(m, a)))), patterns=[S(a)]))
        self.fact(And(S(m), K >= 1))
        self.fact(z3.ForAll([a, b], And(Or(a == b, LT(a, b), LT(b, a)), Not(And(LT(a, b), LT(b, a))), Not(LT(a, a))), patterns=[LT(a, b)]))

    def pre(self, A, B, v, g, k):
        """what a caller must give for the wanted set to be produced"""
        x, y = fresh("x", Nd), fresh("y", Nd)
        return And(z3.ForAll([x], Implies(A(x), self.S(x))), A(v), v == self.least, TRUE if g is self.g else FALSE, self.num(k) == self.K,
                   z3.ForAll([x, y], Implies(And(self.S(x), Not(A(x)), A(y), self.g.adj(y, x)), B(x))))

    def choose(self, f, exc):
        """an arbitrary element"""
        w = fresh("chosen", Nd)
        if not self.decide(f.truth(self, None)):
            raise PyRaise(VExc(exc))
        self.fact(self.fam_member(f, w))
        return w

    def members(self, v):
        f = self.iter(v)
        return lambda x: self.fam_member(f, x)

    def b_len(self, args, kw):
        v = args[0]
        if isinstance(v, HRef) and isinstance(self.heap[v.id], CollRec) and self.heap[v.id].kind == "set" and any(p.vars for p in self.heap[v.id].parts):
            A = self.members(v)
            c, x = fresh("len", Int), z3.Const("x", Nd)
            self.fact(c >= 0)
            self.fact(Iff(c == 0, z3.ForAll([x], Not(A(x)))))
            inS = z3.ForAll([x], Implies(A(x), self.S(x)))
            self.fact(Implies(inS, And(c <= self.K, Iff(c == self.K, z3.ForAll([x], Implies(self.S(x), A(x)))))))
            return c
        return KEngine.b_len(self, args, kw)

    def b_tuple(self, args, kw):
        f = self.iter(args[0])
        if any(p.vars for p in f.parts):
            return Fam(list(map(rename, f.parts)))
        return KEngine.b_tuple(self, args, kw)

    def hook_builtin(self, name, args, kw):
        if name == "random.choice" and len(args) == 1 and not kw or name == "next" and len(args) == 1:
            return self.choose(self.iter(args[0]), "IndexError")
        return KEngine.hook_builtin(self, name, args, kw)

    def call_func(self, func, recv, args, kw, frame=None):
        if func.name == "__extend_subgraph" and func.cls is None and self.S is not None:
            loc = self.bind(func, recv, args, kw)
            self.used("__extend_subgraph")
            A, B = loc["v_subgraph"], loc["v_extension"]
            if isinstance(A, HRef) and isinstance(B, HRef) and A.id == B.id:
                raise Unsupported("one set given twice")
            a, b = self.members(A), self.members(B)
            f = self.pre(a, b, loc["v"], loc["g"], loc["size_k"])
            if self.outer is not None:
                o, ob = self.outer
                x, y = z3.Const("x", Nd), z3.Const("y", Nd)
                grows = And(z3.ForAll([y], Implies(o(y), a(y))), z3.Exists([x], And(a(x), Not(o(x)))))
                same = And(z3.ForAll([y], And(Iff(o(y), a(y)), Implies(And(b(y), a(y)), ob(y)))), z3.Exists([x], And(ob(x), o(x), Not(b(x)))))
                self.need_inv([("the recursion ends: more nodes are chosen, or the same and fewer of them wait", Or(grows, same))])
            if isinstance(B, HRef):
                self.heap[B.id] = Poison()
            return Produced(f)
        return KEngine.call_func(self, func, recv, args, kw, frame)

    def produce(self, v):
        if isinstance(v, SubG):
            x = fresh("x", Nd)
            self.made = Or(self.made, z3.ForAll([x], Iff(v.has(x), self.S(x))))
        elif isinstance(v, Produced):
            self.made = Or(self.made, v.f)
        else:
            raise Unsupported("produces %r" % (v,))
        return Opaque()

    def e_Yield(self, e): return self.produce(None if e.value is None else self.eval(e.value))

    def e_YieldFrom(self, e):
        v = self.eval(e.value)
        if not isinstance(v, Produced):
            raise Unsupported("yield from %r" % (v,))
        return self.produce(v)

    def for_over(self, s, it):
        if isinstance(it, Produced):
            self.assign(s.target, it)
            return self.block(s.body + s.orelse)
        f = self.iter(it)
        y = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for b in s.body for n in ast.walk(b))
        if not y:
            return KEngine.for_over(self, s, it)
        # every element is gone through; what is produced for one of them is produced
        h, made0 = dict(self.heap), self.made
        x = self.least
        self.need_inv([("the loop goes through the least wanted node", self.fam_member(f, x))])
        loc = dict(self.fstack[-1].locals)
        self.assign(s.target, x)
        try:
            self.block(s.body)
        except ContinueSig:
            pass
        except BreakSig:
            raise Unsupported("break out of the enumeration")
        if any(self.heap.get(i) is not r for i, r in h.items()):
            raise Unsupported("the loop over the nodes changes something")
        l2 = self.fstack[-1].locals
        if any(n in l2 and not self.same(loc[n], l2[n]) for n in loc if n not in target_names(s.target)):
            raise Unsupported("the loop over the nodes carries something")
        self.block(s.orelse)

    def s_While(self, s):
        fr = self.fstack[-1]
        h0, made0 = dict(self.heap), self.made

        def body():
            self.assume(bool_(self.truth(self.eval(s.test))))
            self.block(s.body)
        rs = self.explore(body)
        self.made = made0
        cells = sorted({i for r in rs for i, x in r.heap.items() if i in h0 and h0[i] is not x})
        if len(cells) != 1 or not isinstance(h0[cells[0]], CollRec) or h0[cells[0]].kind != "set":
            raise Unsupported("loop that takes from anything but one set")
        c = HRef(cells[0])
        m0 = self.members(c)
        inv = lambda: [("the wanted set is produced, or none of it was taken", Or(self.made, self.all_left(m0, self.members(c))))]
        names, carried = self.assigned([s])
        if carried:
            raise Unsupported("loop carries %s" % carried[0])
        left, y = fresh_fun("left", Nd, Bool), fresh("made", Bool)
        x = fresh("x", Nd)
        self.heap[c.id] = CollRec("set", [Part((x,), left(x), x)])
        self.fact(Implies(made0, y))
        self.made = y
        self.fact(z3.ForAll([x], Implies(left(x), m0(x)), patterns=[left(x)]))
        for n in names:
            fr.locals[n] = Poison()
        for _, f in inv():
            self.fact(f)
        h = self.frozen((c.id,))
        if not self.decide(bool_(self.truth(self.eval(s.test)))):
            return self.block(s.orelse)
        try:
            self.block(s.body)
        except BreakSig:
            raise Unsupported("break out of the enumeration")
        except ContinueSig:
            pass
        self.check_frozen({i: r for i, r in h.items() if i in h0})
        now, x, y = self.members(c), fresh("x", Nd), fresh("y", Nd)
        self.need_inv(inv() + [("every turn takes something from the set", And(Implies(now(y), left(y)), Exists((x,), And(left(x), Not(now(x))))))])
        raise Infeasible()

    def all_left(self, m0, m):
        x = z3.Const("x", Nd)
        return z3.ForAll([x], Implies(And(self.S(x), m0(x)), m(x)))


def set_arg(eng, name):
    f, x = z3.Function(name, Nd, Bool), fresh("x", Nd)
    return eng.alloc(CollRec("set", [Part((x,), f(x), x)])), f


def t_extend():
    def setup(eng):
        g = StaticG(eng)
        eng.target(g)
        A, fa = set_arg(eng, "chosen_so_far")
        B, fb = set_arg(eng, "border")
        v, k = z3.Const("v", Nd), z3.Int("size_k")
        eng.fact(eng.pre(fa, fb, v, g, k))
        eng.outer = fa, fb
        a, b, x = z3.Const("reached", Nd), z3.Const("next", Nd), z3.Const("x", Nd)
        # the wanted set is connected
        eng.fact(Or(z3.ForAll([x], Implies(eng.S(x), fa(x))), And(eng.S(b), Not(fa(b)), fa(a), g.adj(a, b))))
        return [A, B, v, g, k], dict(A=A, rec=eng.heap[A.id])

    def post(eng, I, kind, rv):
        nm = "__extend_subgraph"
        eng.oblige(nm + ": raises nothing", TRUE if kind == "return" else FALSE)
        if eng.heap[I["A"].id] is not I["rec"]:
            raise Unsupported("the set given is changed")
        eng.oblige(nm + ": every connected set of the size asked for that extends the one given is produced", eng.made)
    return ftask("__extend_subgraph", "any graph, any sets", setup, post, EEngine)


def t_enumerate():
    def setup(eng):
        g = StaticG(eng)
        eng.target(g)
        k = z3.Int("size_k")
        eng.fact(k == eng.K)
        return [g, k], {}

    def post(eng, I, kind, rv):
        nm = "__enumerate_subgraphs"
        eng.oblige(nm + ": raises nothing", TRUE if kind == "return" else FALSE)
        eng.oblige(nm + ": every connected set of the size asked for is produced", eng.made)
    return ftask("__enumerate_subgraphs", "any graph", setup, post, EEngine)


# ---------------------------------------------------------------- the counter itself
ND = z3.Function("motif_label", Int, Int, Nd)       # the two ends of the motif's edges
SQ = z3.Function("motif_at", Int, Nd)               # all of them in a row
ISO = z3.Function("matches_motif", Ky, Bool)
WITHIN = z3.Function("labels_among_nodes", Ky, Bool)
TG = z3.Function("occurrences", Ky, Int)            # number of occurrences in the whole graph within delta
NW = z3.Function("in_window", Int, Int, Ky, Int)    # ... of a sequence, times increasing, among positions a..b-1
TT = z3.Function("so_far", Int, Ky, Int)            # ... within delta, among positions 0..b-1
EU, EV, ET = z3.Function("edge_u", Int, Nd), z3.Function("edge_v", Int, Nd), z3.Function("edge_t", Int, Real)


class SeqArg(Value):
    tname = "tuple"
    def __init__(self, L): self.L = L
    def length(self, eng, ref): return self.L
    def iter(self, eng, ref):
        i = fresh("i", Int)
        return Fam([Part((i,), And(0 <= i, i < self.L), SPair(i))], "list", (), "pos")


class SPair(Value):
    def __init__(self, i): self.i = i
    def subst(self, pairs): return SPair(vsubst(self.i, pairs))
    def free(self): return [self.i]
    def iter(self, eng, ref):
        j = fresh("j", Int)
        return Fam([Part((j,), And(0 <= j, j < 2), ND(self.i, j))], "list", (), "pos")
    def getitem(self, eng, ref, k):
        if k in (0, 1):
            return ND(self.i, k)
        self.bad("subscript")


class IdxFam(Fam):
    """a sequence: at(i) for 0 <= i < n, in order"""
    def __init__(self, n, at):
        i = fresh("i", Int)
        Fam.__init__(self, [Part((i,), And(0 <= i, i < n), at(i))])
        self.n, self.at = n, at


class FlatSeq(Value):
    tname = "tuple"
    def __init__(self, L): self.L = L
    def iter(self, eng, ref): return IdxFam(2 * self.L, lambda i: SQ(i))
    def length(self, eng, ref): return 2 * self.L
    def getitem(self, eng, ref, k):
        n = eng.num(k)
        if not eng.decide(And(0 <= n, n < 2 * self.L)):
            raise Unsupported("index of the motif's labels")
        return SQ(n)


class MotifG(Value):
    def __init__(self, eng): self.full = False
    def method(self, eng, ref, name, args, kw):
        if name == "add_edges_from" and len(args) == 1 and isinstance(args[0], SeqArg) and not kw:
            self.full = True
            return None
        if self.full and not args and not kw and name in ("nodes", "number_of_nodes", "order"):
            return Sized(eng.K) if name == "nodes" else eng.K
        self.bad("method ." + name)
    def length(self, eng, ref): return eng.K if self.full else self.bad("len")


class Sized(Value):
    def __init__(self, n): self.n = n
    def length(self, eng, ref): return self.n


class PGraph(Value):
    """the graph searched, by the contracts of ImpulseDiGraph.edges and to_networkx_graph"""
    def __init__(self): self.E = z3.Function("has_edge_at", Nd, Nd, Real, Bool)

    def method(self, eng, ref, name, args, kw):
        if name == "edges":
            loc = dict(zip(("u", "v"), args), **kw)
            if len(args) > 2 or set(loc) - {"u", "v"}:
                raise Unsupported("arguments of edges")
            eng.used("ImpulseDiGraph.edges")
            u, v, t = fresh("u", Nd), fresh("v", Nd), fresh("t", Real)
            vs, out = (t,), []
            a, b = loc.get("u"), loc.get("v")
            for x in (a, b):
                if x is not None and not (isinstance(x, z3.ExprRef) and x.sort() == Nd):
                    raise Unsupported("arguments of edges")
            vs = ((u,) if a is None else ()) + ((v,) if b is None else ()) + (t,)
            a, b = u if a is None else a, v if b is None else b
            return eng.alloc(CollRec("list", [Part(vs, self.E(a, b, t), (a, b, t))]))
        if name == "to_networkx_graph" and not args and not kw:
            eng.used("ImpulseDiGraph.to_networkx_graph")
            return Projection(self)
        self.bad("method ." + name)


class Projection(Value):
    def __init__(self, g): self.g = g


class Subsets(Value):
    """the node sets produced by the enumeration"""
    def __init__(self): pass


class ESeq(Value):
    """a list of edges sorted by time"""
    tname = "list"
    def __init__(self, n, sub): self.n, self.sub = n, sub
    def length(self, eng, ref): return self.n
    def truth(self, eng, ref): return self.n > 0
    def getitem(self, eng, ref, k):
        if isinstance(k, slice):
            self.bad("slice")
        i = eng.num(k)
        if not eng.decide(And(0 <= i, i < self.n)):
            if eng.decide(i < 0):
                raise Unsupported("index before the list of edges")
            raise PyRaise(VExc("IndexError"))
        return (EU(i), EV(i), ET(i))


class Run(Value):
    """the pairs at the positions lo..hi-1 of the sorted edges"""
    tname = "list"
    def __init__(self, lo, hi): self.lo, self.hi = lo, hi
    def method(self, eng, ref, name, args, kw):
        if name == "append" and len(args) == 1 and not kw and isinstance(args[0], tuple) and len(args[0]) == 2:
            x, y = args[0]
            if z3.is_app(x) and z3.is_app(y) and x.decl().eq(EU) and y.decl().eq(EV):
                if Solver.quick_unsat(list(eng.ctx()) + [Not(And(x.arg(0) == self.hi, y.arg(0) == self.hi))], 400000):
                    return eng.put(ref, Run(self.lo, z3.simplify(self.hi + 1)))
        raise Unsupported("list of edges of one time")
    def length(self, eng, ref): return self.hi - self.lo


class NMap(Value):
    """labels of the motif to labels of the graph; w: the position a label was taken from"""
    tname = "dict"
    def __init__(self, dom, val, w): self.dom, self.val, self.w = dom, val, w
    def lab(self, k):
        if isinstance(k, z3.ExprRef) and k.sort() == Nd:
            return k
        raise Unsupported("label")
    def contains(self, eng, ref, k): return self.dom(self.lab(k))
    def getitem(self, eng, ref, k):
        if not eng.decide(self.dom(self.lab(k))):
            raise PyRaise(VExc("KeyError"))
        return self.val(k)
    def setitem(self, eng, ref, k, v):
        k, v, d, f, w, n = self.lab(k), self.lab(v), self.dom, self.val, self.w, eng.pos_now
        eng.put(ref, NMap(lambda x: Or(x == k, d(x)), lambda x: z3.If(x == k, v, f(x)), lambda x: z3.If(x == k, n, w(x))))
    def iter(self, eng, ref):
        x = fresh("x", Nd)
        return Fam([Part((x,), self.dom(x), x)], "list", (ref.id,))
    def method(self, eng, ref, name, args, kw):
        if kw:
            self.bad("method ." + name)
        x = fresh("x", Nd)
        if name == "values" and not args:
            return Fam([Part((x,), self.dom(x), self.val(x))], "list", (ref.id,))
        if name == "keys" and not args:
            return self.iter(eng, ref)
        if name == "get" and len(args) in (1, 2):
            if eng.decide(self.dom(self.lab(args[0]))):
                return self.val(args[0])
            return args[1] if len(args) == 2 else None
        if name == "setdefault" and len(args) == 2:
            if eng.decide(self.dom(self.lab(args[0]))):
                return self.val(args[0])
            self.setitem(eng, ref, *args)
            return args[1]
        self.bad("method ." + name)


class Total(Value):
    """the counts per matching sequence: written(k) and the number written for it"""
    tname = "dict"
    def __init__(self, has, val): self.has, self.val = has, val
    def setitem(self, eng, ref, k, v):
        k, v = to_key(k), eng.num(v)
        h, f = self.has, self.val
        eng.put(ref, Total(lambda x: Or(x == k, h(x)), lambda x: z3.If(x == k, v, f(x))))
    def method(self, eng, ref, name, args, kw):
        if name == "values" and not args and not kw and eng.after:
            return TotalValues(self)
        self.bad("method ." + name)
    def eq(self, eng, ref, o): self.bad("==")


class TotalValues(Value):
    def __init__(self, t): self.t = t


class SumOf(Value):
    def __init__(self, t): self.t = t


class MEngine(KEngine):
    def reset(self, trace):
        KEngine.reset(self, trace)
        self.G = self.edges = self.key = self.pos_now = self.win = self.sub = None
        self.after, self.depth_w, self.roles = False, 0, None

    def count_mode(self): return False

    # ---- values
    def isinst(self, v, t):
        if isinstance(v, PGraph):
            n = t.name if isinstance(t, Builtin) else t.cls.name
            return n in self.byname["ImpulseDiGraph"].mro_names()
        return KEngine.isinst(self, v, t)

    def hook_builtin(self, name, args, kw):
        n = name.split(".")[-1]
        if n == "Graph" and not kw:
            if not args:
                return MotifG(self)
            if len(args) == 1 and isinstance(args[0], Projection):
                return Static(args[0].g)
        if n == "permutations" and len(args) == 2 and args[1] == 2 and not kw:
            f = self.as_list(self.iter(args[0]))
            ps = [(rename(p), rename(q)) for p in f.parts for q in f.parts]
            if len(ps) != 1 or any(len(p.vars) != 1 or not p.elem.eq(p.vars[0]) for p in ps[0]):
                raise Unsupported("permutations")
            p, q = ps[0]
            return Fam([Part(p.vars + q.vars, And(p.guard, q.guard, p.elem != q.elem), (p.elem, q.elem))])
        if n == "combinations" and len(args) == 2 and args[1] == 2 and not kw:
            f = self.as_list(self.iter(args[0]))
            if len(f.parts) != 1 or len(f.parts[0].vars) != 1 or not f.parts[0].elem.eq(f.parts[0].vars[0]):
                raise Unsupported("combinations")
            p, q = rename(f.parts[0]), rename(f.parts[0])
            first = fresh_fun("comes_first", Nd, Nd, Bool)
            a, b = z3.Const("a", Nd), z3.Const("b", Nd)
            self.mono.append(z3.ForAll([a, b], And(Not(And(first(a, b), first(b, a))), Or(a == b, first(a, b), first(b, a)), Not(first(a, a))), patterns=[first(a, b)]))
            return Fam([Part(p.vars + q.vars, And(p.guard, q.guard, first(p.elem, q.elem)), (p.elem, q.elem))])
        return KEngine.hook_builtin(self, name, args, kw)

    def b_combinations(self, args, kw): return self.hook_builtin("combinations", args, kw)

    def idx(self, v):
        if is_key(v):
            return IdxFam(2 * N(v), lambda i: KQ(v, i))
        return v if isinstance(v, IdxFam) else v.iter(self, None) if isinstance(v, FlatSeq) else None

    def iter(self, v):
        return self.idx(v) if is_key(v) else KEngine.iter(self, v)

    def b_enumerate(self, args, kw):
        f = self.idx(args[0]) if len(args) == 1 and not kw else None
        return IdxFam(f.n, lambda i: (i, f.at(i))) if f is not None else KEngine.b_enumerate(self, args, kw)

    def b_zip(self, args, kw):
        fs = [self.idx(a) for a in args]
        if not fs or kw or any(f is None for f in fs):
            raise Unsupported("zip")
        if not Solver.quick_unsat(list(self.ctx()) + [Not(And([f.n == fs[0].n for f in fs]))], 400000):
            raise Unsupported("zip of different lengths")
        return IdxFam(fs[0].n, lambda i: tuple(f.at(i) for f in fs))

    def b_tuple(self, args, kw):
        if args:
            f = self.iter(args[0])
            p = f.parts[0] if len(f.parts) == 1 else None
            if p is not None and len(p.vars) == 2 and z3.is_app(p.elem) and p.elem.decl().eq(ND) and all(a.eq(b) for a, b in zip(p.elem.children(), p.vars)):
                return FlatSeq(self.L)
        return KEngine.b_tuple(self, args, kw)

    def b_list(self, args, kw):
        if args:
            v = KEngine.iter(self, args[0])
            p = v.parts[0] if len(v.parts) == 1 else None
            if p is not None and len(p.vars) == 2 and isinstance(p.elem, z3.ExprRef) and p.elem.decl().eq(ND):
                return self.b_tuple(args, kw)
        return KEngine.b_list(self, args, kw)

    def b_sum(self, args, kw):
        if len(args) == 1 and isinstance(args[0], TotalValues) and not kw:
            return SumOf(args[0].t)
        return KEngine.b_sum(self, args, kw)

    def getitem(self, v, k):
        if is_key(v):
            n = self.num(k)
            if not self.decide(And(0 <= n, n < 2 * N(v))):
                raise Unsupported("index of a key")
            return KQ(v, n)
        return KEngine.getitem(self, v, k)

    def b_sorted(self, args, kw):
        f = self.iter(args[0])
        if set(kw) == {"key"} and self.sub is not None and f.parts and all(isinstance(p.elem, tuple) and len(p.elem) == 3 for p in f.parts):
            pr = (fresh("pu", Nd), fresh("pv", Nd), fresh("pt", Real))
            r = self.call(kw["key"], [pr], {})
            if not (isinstance(r, z3.ExprRef) and r.eq(pr[2])) and not (isinstance(r, tuple) and r and r[0] is pr[2]):
                raise Unsupported("edges sorted by something else")
            return self.edge_list(f)
        return KEngine.b_sorted(self, args, kw)

    def sort_in_place(self, ref, kw):
        r = self.b_sorted([ref], kw)
        if not (isinstance(r, HRef) and isinstance(self.heap[r.id], ESeq)):
            raise Unsupported("sort with a key")
        self.put(ref, self.heap[r.id])

    def edge_list(self, f):
        if self.edges is not None:
            raise Unsupported("a second sorted list of edges")
        u, v, t = pr = (fresh("pu", Nd), fresh("pv", Nd), fresh("pt", Real))
        A, E = self.sub, self.G.E
        self.need_inv([("the edges collected are those among the nodes", Iff(bool_(self.fam_member(f, pr)), And(A(u), A(v), E(u, v, t))))])
        ps = list(f.parts)
        for i, p0 in enumerate(ps):
            for q0 in ps[i:]:
                p, q = rename(p0), rename(q0)
                same = And([x == y for x, y in zip(p.vars, q.vars)]) if p0 is q0 else FALSE
                self.need_inv([("an edge is collected once", Implies(And(p.guard, q.guard, [x == y for x, y in zip(p.elem, q.elem)]), same))])
        m = z3.Int("number_of_edges")
        i, j, k = z3.Int("i"), z3.Int("j"), z3.Const("k", Ky)
        self.fact(m >= 0)
        self.fact(z3.ForAll([i], Implies(And(0 <= i, i < m), And(A(EU(i)), A(EV(i)), E(EU(i), EV(i), ET(i)))), patterns=[EU(i)]))
        self.fact(z3.ForAll([i, j], Implies(And(0 <= i, i < j, j < m), And(ET(i) <= ET(j), Implies(ET(i) == ET(j), Not(And(EU(i) == EU(j), EV(i) == EV(j)))))),
                            patterns=[z3.MultiPattern(ET(i), ET(j))]))
        # counting lemmas that hold of any list
        a, b = z3.Int("a"), z3.Int("b")
        self.fact(z3.ForAll([a, b, k], And(NW(a, b, k) >= 0, Implies(N(k) == 0, NW(a, b, k) == 1), Implies(And(a == b, N(k) >= 1), NW(a, b, k) == 0)), patterns=[NW(a, b, k)]))
        self.fact(z3.ForAll([k], Implies(N(k) >= 1, TT(0, k) == 0), patterns=[TT(0, k)]))
        self.fact(z3.ForAll([k], Implies(N(k) == self.L, TT(m, k) == z3.If(WITHIN(k), TG(k), 0)), patterns=[TT(m, k)]))
        self.fact(z3.ForAll([k], Implies(And(N(k) == self.L, m < self.L), TT(m, k) == 0), patterns=[TT(m, k)]))
        self.edges = ESeq(m, A)
        return self.alloc(self.edges)

    # ---- contracts of the helpers
    def call_func(self, func, recv, args, kw, frame=None):
        if func.cls is None and func.module.name == MOD:
            if func.name == "__enumerate_subgraphs":
                loc = self.bind(func, recv, args, kw)
                self.used(func.name)
                if not isinstance(loc["g"], Static) or loc["g"].g is not self.G:
                    raise Unsupported("graph given to the enumeration")
                self.need_inv([("sets of as many nodes as the motif has are asked for", self.num(loc["size_k"]) == self.K)])
                return Subsets()
            if func.name in ("__increment_counts", "__decrement_counts"):
                return self.update(func, self.bind(func, recv, args, kw))
        return KEngine.call_func(self, func, recv, args, kw, frame)

    def update(self, func, loc):
        self.used(func.name)
        g, c = loc["edges"], loc["counts"]
        r = self.heap[g.id] if isinstance(g, HRef) else None
        d = self.heap[c.id] if isinstance(c, HRef) else None
        if not isinstance(r, Run) or not isinstance(d, CMap) or self.win is None:
            raise Unsupported("arguments of " + func.name)
        L, lo, hi, m = self.L, r.lo, r.hi, self.edges.n
        start, end = self.win
        k, i, j = fresh("k", Ky), fresh("i", Int), fresh("j", Int)
        bd = lambda x: Or(x == 0, x == m, ET(x - 1) < ET(x))
        self.need_inv([("the length of the motif is passed on", self.num(loc["motif_length"]) == L),
                       ("a group is not empty", And(0 <= lo, lo < hi, hi <= m)),
                       ("the edges of a group have one time", Implies(And(lo <= i, i < hi), ET(i) == ET(lo))),
                       ("a group has all edges of its time", And(bd(lo), bd(hi))),
                       ("the pairs of a group are distinct", Implies(And(lo <= i, i < j, j < hi), Not(And(EU(i) == EU(j), EV(i) == EV(j))))),
                       ("only sequences up to the motif's length are kept", Implies(d.P(k), And(1 <= N(k), N(k) <= L)))])
        inn, ix = fresh_fun("in_group", Nd, Nd, Bool), fresh_fun("position", Nd, Nd, Int)
        u, v, x = z3.Const("u", Nd), z3.Const("v", Nd), z3.Int("x")
        self.fact(z3.ForAll([u, v], Implies(inn(u, v), And(lo <= ix(u, v), ix(u, v) < hi, EU(ix(u, v)) == u, EV(ix(u, v)) == v)), patterns=[inn(u, v)]))
        self.fact(z3.ForAll([x], Implies(And(lo <= x, x < hi), inn(EU(x), EV(x))), patterns=[EU(x)]))
        P2 = fresh_fun("counted", Ky, Bool)
        k = z3.Const("k", Ky)
        self.fact(z3.ForAll([k], Implies(P2(k), And(1 <= N(k), N(k) <= L)), patterns=[P2(k)]))
        if func.name == "__increment_counts":
            self.need_inv([("the edges added follow those in the window", lo == end)])
            # the counting lemmas of adding the last edges
            self.fact(z3.ForAll([k], Implies(N(k) >= 1, NW(start, hi, k) == NW(start, lo, k) + z3.If(inn(LU(k), LV(k)), NW(start, lo, INIT(k)), 0)), patterns=[NW(start, hi, k)]))
            first = And(Or(start == 0, ET(start - 1) + self.delta < ET(lo)), Or(start == lo, ET(start) + self.delta >= ET(lo)))
            self.need_inv([("the window begins with the first edge within the time limit", first), ("the window ends where the group begins", And(0 <= start, start <= lo))])
            self.fact(z3.ForAll([k], Implies(N(k) == L, TT(hi, k) == TT(lo, k) + z3.If(inn(LU(k), LV(k)), NW(start, lo, INIT(k)), 0)), patterns=[TT(hi, k)]))
            V2 = lambda k: count_at(d, k) + z3.If(And(N(k) >= 1, N(k) <= L, inn(LU(k), LV(k))), count_at(d, INIT(k)), 0)
        else:
            self.need_inv([("the edges removed are the first of the window", And(lo == start, hi <= end))])
            self.fact(z3.ForAll([k], Implies(N(k) >= 1, NW(lo, end, k) == NW(hi, end, k) + z3.If(inn(FU(k), FV(k)), NW(hi, end, TAIL(k)), 0)), patterns=[NW(lo, end, k)]))
            M = lambda k: NW(hi, end, k)
            q = fresh("k", Ky)
            self.need_inv([("what is counted is what the group and the later edges make",
                            Implies(And(1 <= N(q), N(q) < L), count_at(d, q) == M(q) + z3.If(inn(FU(q), FV(q)), M(TAIL(q)), 0)))])
            V2 = lambda k: z3.If(N(k) < L, M(k), count_at(d, k))
        self.fact(z3.ForAll([k], Implies(And(Not(P2(k)), 1 <= N(k)), V2(k) == 0), patterns=[P2(k)]))
        self.put(c, CMap(lambda k: P2(k), V2))
        return None

    # ---- loops
    def cell(self, e, kind):
        """the record a name stands for"""
        v = self.fstack[-1].locals.get(e.id) if isinstance(e, ast.Name) else None
        return v if isinstance(v, HRef) and isinstance(self.heap[v.id], kind) else None

    def counts_in(self, body):
        out = []
        for b in body:
            for n in ast.walk(b):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("__increment_counts", "__decrement_counts"):
                    out.append(n)
        return out

    def window_inv(self, c, start, end, sliding):
        d, m, L = self.heap[c.id], self.edges.n, self.L
        k = fresh("k", Ky)
        bd = lambda x: Or(x == 0, x == m, ET(x - 1) < ET(x))
        last = end if sliding else end - 1
        out = [("the window is within the list", And(0 <= start, start <= end, end <= m, Or(start == 0, end > 0))),
               ("the window is made of whole groups", And(bd(start), bd(end))),
               ("what precedes the window is beyond the time limit", Implies(start > 0, ET(start - 1) + self.delta < ET(last))),
               ("only sequences up to the motif's length are kept", Implies(d.P(k), And(1 <= N(k), N(k) <= L))),
               ("shorter sequences are counted in the window", Implies(And(1 <= N(k), N(k) < L), count_at(d, k) == NW(start, end, k))),
               ("whole sequences are counted so far", Implies(N(k) == L, count_at(d, k) == TT(end, k)))]
        return out + ([("there is an edge after the window", end < m)] if sliding else [])

    def havoc_counts(self, c, start, end):
        L, pf, k = self.L, fresh_fun("counted", Ky, Bool), z3.Const("k", Ky)
        V = lambda k: z3.If(N(k) < L, NW(start, end, k), TT(end, k))
        self.heap[c.id] = CMap(lambda k: pf(k), V)
        self.fact(z3.ForAll([k], Implies(pf(k), And(1 <= N(k), N(k) <= L)), patterns=[pf(k)]))
        self.fact(z3.ForAll([k], Implies(And(Not(pf(k)), 1 <= N(k), N(k) <= L), V(k) == 0), patterns=[pf(k)]))

    def s_While(self, s):
        if self.edges is None:
            raise Unsupported("while loop")
        fr = self.fstack[-1]
        names, carried = self.assigned([s])
        calls = self.counts_in(s.body)
        num = lambda n: self.num(fr.locals[n])
        if self.win is None:
            cs = []
            for n in calls:
                for a in n.args + [k.value for k in n.keywords]:
                    r = self.cell(a, (DictRec, CMap))
                    if r is not None and r.id not in cs:
                        cs.append(r.id)
            ends = [n for n in carried if any(isinstance(x, ast.Name) and x.id == n for x in ast.walk(s.test))]
            starts = [n for n in carried if n not in ends]
            if len(cs) != 1 or len(ends) != 1 or len(starts) != 1:
                raise Unsupported("loop over the sorted edges")
            c = HRef(cs[0])
            if isinstance(self.heap[c.id], DictRec):
                if self.heap[c.id].entries or self.heap[c.id].groups:
                    raise Unsupported("counts that do not begin empty")
                self.heap[c.id] = CMap(lambda k: FALSE, lambda k: z3.IntVal(0))
            self.roles = (starts[0], ends[0], c)
            inv = lambda: self.window_inv(c, num(starts[0]), num(ends[0]), False)
            vs, sliding = (starts[0], ends[0]), False
        elif calls:
            S, E, c = self.roles
            if carried != [S]:
                raise Unsupported("loop that moves the window")
            inv = lambda: self.window_inv(c, num(S), num(E), True)
            vs, sliding = (S,), True
        else:
            return self.collect(s, names, carried)
        S, E, c = self.roles
        self.need_inv(inv())
        for n in names:
            fr.locals[n] = fresh(n, Int) if n in vs else Poison()
        self.havoc_counts(c, num(S), num(E))
        for nm, f in inv():
            if "counted" not in nm and "kept" not in nm:
                self.fact(f)
        h = self.frozen((c.id,))
        old = self.win
        self.win = (num(S), num(E))
        t = self.decide(bool_(self.truth(self.eval(s.test))))
        if not t:
            self.win = (num(S), old[1]) if sliding else None
            return self.block(s.orelse)
        try:
            self.block(s.body)
        except BreakSig:
            raise Unsupported("break out of the sweep")
        except ContinueSig:
            pass
        self.check_frozen(h)
        self.need_inv(inv())
        raise Infeasible()

    def collect(self, s, names, carried):
        """the edges of one time: a loop that appends the pair at a position and goes on to the next"""
        fr = self.fstack[-1]
        if len(carried) != 1:
            raise Unsupported("loop that collects a group")
        x = carried[0]
        lists = []
        for b in s.body:
            for n in ast.walk(b):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "append":
                    r = self.cell(n.func.value, CollRec)
                    if r is not None and r.id not in lists:
                        lists.append(r.id)
        i0 = self.num(fr.locals[x])
        if len(lists) != 1 or self.heap[lists[0]].parts:
            raise Unsupported("loop that collects a group")
        c = HRef(lists[0])
        m = self.edges.n
        self.heap[c.id] = Run(i0, i0)

        def inv(strict):
            i, r = self.num(fr.locals[x]), self.heap[c.id]
            return [("the group collected ends here", And(r.lo == i0, r.hi == i, i0 <= i, i <= m)),
                    ("the edges collected have one time", Implies(i > i0, ET(i - 1) == ET(i0)))] + ([("there is a next edge", i < m)] if strict else [])

        def head():
            for n in names:
                fr.locals[n] = fresh(n, Int) if n == x else Poison()
            self.heap[c.id] = Run(i0, fr.locals[x])
        snap = self.snapshot()
        head()
        for _, f in inv(False):
            self.fact(f)
        strict = any(r.kind == "raise" for r in self.explore(lambda: self.decide(bool_(self.truth(self.eval(s.test))))))
        self.restore(snap)
        self.need_inv(inv(strict))
        head()
        for _, f in inv(strict):
            self.fact(f)
        h = self.frozen((c.id,))
        if not self.decide(bool_(self.truth(self.eval(s.test)))):
            return self.block(s.orelse)
        try:
            self.block(s.body)
        except BreakSig:
            self.check_frozen(h)
            self.need_inv(inv(False))
            return
        except ContinueSig:
            pass
        self.check_frozen(h)
        self.need_inv(inv(strict))
        raise Infeasible()

    def for_over(self, s, it):
        if isinstance(it, Subsets):
            return self.sub_loop(s)
        if self.sub is not None and self.edges is not None:
            f = self.iter(it)
            if len(f.parts) == 1 and len(f.parts[0].vars) == 1:
                p = rename(f.parts[0])
                if is_key(p.vars[0]) and self.key is None:
                    return self.key_loop(s, p)
                if self.key is not None and p.vars[0].sort() == Int and (isinstance(f, IdxFam) or f.order in ("pos", "asc") and isinstance(p.elem, z3.ExprRef) and p.elem.eq(p.vars[0])):
                    return self.match_loop(s, p)
            raise Unsupported("loop in the motif counter")
        return KEngine.for_over(self, s, it)

    def sub_loop(self, s):
        """each of the node sets; what is written for a sequence does not depend on the set"""
        fr = self.fstack[-1]
        dicts = [v for v in fr.locals.values() if isinstance(v, HRef) and isinstance(self.heap[v.id], DictRec)]
        stores = {n.value.id for b in s.body for n in ast.walk(b) if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name)}
        cs = sorted({self.cell(ast.Name(id=x), DictRec).id for x in stores if self.cell(ast.Name(id=x), DictRec) is not None})
        if len(cs) != 1 or self.heap[cs[0]].entries or self.heap[cs[0]].groups:
            raise Unsupported("result of the motif counter")
        c = HRef(cs[0])
        L = self.L
        if self.decide(fresh("another_set", Bool)):
            A = z3.Function("chosen_set", Nd, Bool)
            self.sub = A
            none = fresh_fun("nothing", Ky, Int)
            self.heap[c.id] = Total(lambda k: FALSE, lambda k: none(k))
            h = self.frozen((c.id,))
            names, carried = self.assigned([s])
            if [n for n in carried if n not in target_names(s.target)]:
                raise Unsupported("loop over the node sets carries a number")
            self.total = c
            self.assign(s.target, SubG(lambda x: A(x)))
            try:
                self.block(s.body)
            except ContinueSig:
                pass
            except BreakSig:
                raise Unsupported("break out of the node sets")
            self.check_frozen({i: r for i, r in h.items()})
            t = self.heap[c.id]
            k = fresh("k", Ky)
            want = And(N(k) == L, ISO(k), WITHIN(k), TG(k) != 0)
            self.need_inv([("a set of nodes gives the occurrences with its labels", Iff(t.has(k), want)), ("with their number", Implies(want, t.val(k) == TG(k)))])
            raise Infeasible()
        self.sub, self.edges, self.win = None, None, None
        self.heap[c.id] = Total(lambda k: And(N(k) == L, ISO(k), TG(k) != 0), lambda k: TG(k))
        for n in self.assigned([s])[0]:
            fr.locals[n] = Poison()
        self.total, self.after, self.top = c, True, fr
        self.block(s.orelse)

    def key_loop(self, s, p):
        fr = self.fstack[-1]
        d = self.heap[self.roles[2].id] if self.roles else None
        t = self.heap[self.total.id]
        if not isinstance(d, CMap) or not isinstance(t, Total):
            raise Unsupported("loop over the sequences counted")
        L = self.L
        spec = lambda k: And(d.P(k), N(k) == L, d.V(k) != 0, ISO(k))
        self.need_inv([("the loop goes through every sequence that is to be counted", Implies(spec(p.vars[0]), p.guard))])
        if self.decide(fresh("another_sequence", Bool)):
            k = p.vars[0]
            self.fact(p.guard)
            self.key = k
            i, j = z3.Int("i"), z3.Int("j")
            self.fact(Iff(ISO(k), z3.ForAll([i, j], Implies(And(0 <= i, i < 2 * L, 0 <= j, j < 2 * L), Iff(SQ(i) == SQ(j), KQ(k, i) == KQ(k, j))),
                                            patterns=[z3.MultiPattern(SQ(i), SQ(j)), z3.MultiPattern(KQ(k, i), KQ(k, j))])))
            none = fresh_fun("nothing", Ky, Int)
            self.heap[self.total.id] = Total(lambda k: FALSE, lambda k: none(k))
            h = self.frozen((self.total.id,))
            self.assign(s.target, p.elem)
            try:
                self.block(s.body)
            except ContinueSig:
                pass
            except BreakSig:
                raise Unsupported("break out of the sequences counted")
            self.check_frozen(h)
            w, q = self.heap[self.total.id], fresh("q", Ky)
            self.need_inv([("a sequence is counted if it matches the motif and occurs", Iff(w.has(k), spec(k))), ("no other one is", Implies(w.has(q), q == k)),
                           ("with the number of its occurrences", Implies(w.has(k), w.val(k) == d.V(k)))])
            raise Infeasible()
        self.heap[self.total.id] = Total(lambda k: Or(t.has(k), spec(k)), lambda k: z3.If(spec(k), d.V(k), t.val(k)))
        for n in self.assigned([s])[0]:
            fr.locals[n] = Poison()
        self.block(s.orelse)

    def match_loop(self, s, p):
        """the positions of a sequence against those of the motif"""
        fr = self.fstack[-1]
        k, L = self.key, self.L
        hi = fresh("n", Int)
        if not Solver.quick_unsat(list(self.ctx()) + [Not(Iff(subst(p.guard, [(p.vars[0], hi)]), And(0 <= hi, hi < 2 * L)))], 400000):
            raise Unsupported("loop over other positions")
        stores = {n.value.id for b in s.body for n in ast.walk(b) if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name)}
        cs = sorted({self.cell(ast.Name(id=x), DictRec).id for x in stores if self.cell(ast.Name(id=x), DictRec) is not None})
        if len(cs) != 1 or self.heap[cs[0]].entries or self.heap[cs[0]].groups:
            raise Unsupported("dictionary of the labels matched")
        c = HRef(cs[0])
        z, zi = fresh_fun("no_label", Nd, Nd), fresh_fun("no_position", Nd, Int)
        self.heap[c.id] = NMap(lambda x: FALSE, lambda x: z(x), lambda x: zi(x))
        x, y, i = z3.Const("x", Nd), z3.Const("y", Nd), z3.Int("i")

        def inv(n):
            r = self.heap[c.id]
            return [("a label matched comes from a position", z3.ForAll([x], Implies(r.dom(x), And(0 <= r.w(x), r.w(x) < n, SQ(r.w(x)) == x, KQ(k, r.w(x)) == r.val(x))))),
                    ("every position is matched", z3.ForAll([i], Implies(And(0 <= i, i < n), And(r.dom(SQ(i)), r.val(SQ(i)) == KQ(k, i))), patterns=[SQ(i)])),
                    ("labels are matched one to one", z3.ForAll([x, y], Implies(And(r.dom(x), r.dom(y), r.val(x) == r.val(y)), x == y)))]
        self.need_inv(inv(z3.IntVal(0)))
        dom, val, w = fresh_fun("matched", Nd, Bool), fresh_fun("matched_with", Nd, Nd), fresh_fun("matched_at", Nd, Int)
        self.heap[c.id] = NMap(lambda x: dom(x), lambda x: val(x), lambda x: w(x))
        before = dict(fr.locals)
        if self.decide(fresh("another_position", Bool)):
            n = fresh("n", Int)
            self.fact(And(0 <= n, n < 2 * L))
            for _, f in inv(n):
                self.fact(f)
            h = self.frozen((c.id,))
            self.pos_now = n
            self.assign(s.target, vsubst(p.elem, [(p.vars[0], n)]))
            try:
                self.block(s.body)
            except BreakSig:
                self.check_frozen(h)
                return
            except ContinueSig:
                pass
            self.check_frozen(h)
            for m, v in before.items():
                if m not in target_names(s.target) and not isinstance(v, Poison) and not self.same(v, fr.locals[m]):
                    raise Unsupported("loop over the positions changes %s" % m)
            self.need_inv(inv(z3.simplify(n + 1)))
            raise Infeasible()
        for _, f in inv(2 * L):
            self.fact(f)
        for m in target_names(s.target):
            fr.locals[m] = Poison()
        self.block(s.orelse)

    # ---- the table made from the counts is not looked at
    def stmt(self, s):
        if self.after and self.fstack[-1] is self.top and not isinstance(s, ast.Return) and self.nested == 0:
            if any(isinstance(n, (ast.Return, ast.Raise)) for n in ast.walk(s)):
                raise Unsupported("return from the table")
            mine = {n for n, v in self.top.locals.items() if isinstance(v, HRef) and v.id == self.total.id}
            for n in ast.walk(s):
                for ch in ast.iter_child_nodes(n):
                    if isinstance(ch, ast.Name) and ch.id in mine:
                        ok = isinstance(ch.ctx, ast.Load) and (
                            isinstance(n, ast.For) and ch is n.iter or isinstance(n, ast.comprehension) and ch is n.iter or
                            isinstance(n, ast.Attribute) and n.attr in ("get", "items", "keys", "values") or
                            isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) or isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("list", "sorted", "len", "set"))
                        if not ok:
                            raise Unsupported("use of the counts after they are made")
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id == "sum":
                return KEngine.stmt(self, s)
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    self.top.locals[n.id] = Opaque()
            return
        return KEngine.stmt(self, s)


class Static(Value):
    """the static undirected graph of the graph searched"""
    def __init__(self, g): self.g = g


def t_count():
    def setup(eng):
        eng.G, eng.L, eng.K, eng.delta = PGraph(), z3.Int("motif_length"), z3.Int("motif_nodes"), z3.Real("delta")
        eng.fact(And(eng.L >= 2, eng.K >= 1, eng.delta >= 0))
        seq = SeqArg(eng.L)
        return [eng.G, seq, eng.delta], {}

    def post(eng, I, kind, rv):
        nm = "count_temporal_motif"
        if kind != "return":
            raise Unsupported("the motif counter raises " + str(rv))
        if not (isinstance(rv, tuple) and len(rv) >= 2 and isinstance(rv[0], SumOf) and isinstance(rv[1], HRef) and isinstance(eng.heap[rv[1].id], Total)):
            raise Unsupported("result of the motif counter")
        t = eng.heap[rv[1].id]
        k = fresh("k", Ky)
        want = And(N(k) == eng.L, ISO(k), TG(k) != 0)
        eng.oblige(nm + ": the sequences reported are those that match the motif and occur", Iff(t.has(k), want))
        eng.oblige(nm + ": each with the number of its occurrences", Implies(want, t.val(k) == TG(k)))
        eng.oblige(nm + ": the number returned is their sum", TRUE if rv[0].t is t else FALSE)
    return ftask("count_temporal_motif", "any graph, any motif of two or more edges", setup, post, MEngine)


def motif_tasks(): return [t_increment(), t_decrement(), t_extend(), t_enumerate(), t_count()]
