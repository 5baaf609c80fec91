"""The interval tree itself. A tree is described in the symbolic-heap style: explicit nodes
(whose fields are known terms) and chunks (a whole subtree with root r, known only through the
set of its nodes and the values its invariant fixes). Reading a field of a chunk's root opens
the chunk by its invariant; handing a subtree to a contract, or returning it, closes it again,
which obliges search order, the subtree maximum and separation of the parts. The times of a
node never change after its construction, so they are functions of the node's identity; the
edges kept at a node are a relation between nodes and edges."""
from .core import *
from .logic import *
from .theory_graph import *
from .graph_engine import GEngine

LOW, HIGH = z3.Function("low", TN, Real), z3.Function("high", TN, Real)


def klt(a, b):
    """strict order of nodes: by begin, then by end"""
    return Or(LOW(a) < LOW(b), And(LOW(a) == LOW(b), HIGH(a) < HIGH(b)))


class Chunk:
    """a subtree: root (null when empty), node set S, greatest end mx, height h"""
    def __init__(self, root, S, mx, h):
        self.root, self.S, self.mx, self.h, self.kids, self.kid_facts = root, S, mx, h, None, None


class NRec:
    """an explicit node"""
    def __init__(self, t, **fields): self.t, self.fields = t, fields
    def put(self, name, v): return NRec(self.t, **dict(self.fields, **{name: v}))


class TreeHeap(Value):
    """the nodes owned by the running method, and the edge lists of all nodes"""
    shared = True

    def __init__(self, recs, chunks, E): self.recs, self.chunks, self.E = recs, tuple(chunks), E


class EdgeList(Value):
    """node.edges"""
    tname = "list"

    def __init__(self, n): self.n = n
    def E(self, eng): return eng.th.E
    def part(self, eng):
        e = fresh("e", IEdge)
        return Part((e,), self.E(eng)(self.n, e), e)
    def edge(self, eng, x):
        e = x if is_edge(x) else eng.to_edge(x, IEdge) if isinstance(x, tuple) else None
        if e is None:
            raise Unsupported("edge in a tree node")
        return e
    def iter(self, eng, ref): return Fam([self.part(eng)], "list", (eng.thref.id,))
    def length(self, eng, ref): return eng.card([self.part(eng)])
    def truth(self, eng, ref): return self.iter(eng, ref).truth(eng, ref)
    def contains(self, eng, ref, x): return self.E(eng)(self.n, self.edge(eng, x))
    def eq(self, eng, ref, o):
        if isinstance(o, HRef) and isinstance(eng.heap[o.id], CollRec) and not eng.heap[o.id].parts and eng.heap[o.id].kind == "list":
            return Not(self.truth(eng, ref))
        self.bad("==")
    def subst(self, pairs): return EdgeList(subst_term(self.n, pairs))
    def free(self): return [self.n]

    def method(self, eng, ref, name, args, kw):
        E, n = self.E(eng), self.n
        if name == "append" and len(args) == 1:
            e = self.edge(eng, args[0])
            eng.oblige("a node lists an edge once", Not(E(n, e)))
            eng.set_E(lambda m, f: Or(E(m, f), And(Eq(m, n), Eq(f, e))))
            return None
        if name == "remove" and len(args) == 1:
            e = self.edge(eng, args[0])
            if not eng.decide(E(n, e)):
                raise PyRaise(VExc("ValueError"))
            eng.set_E(lambda m, f: And(E(m, f), Not(And(Eq(m, n), Eq(f, e)))))
            return None
        if name == "count" and len(args) == 1:
            return z3.If(E(n, self.edge(eng, args[0])), z3.IntVal(1), z3.IntVal(0))
        if name == "copy":
            return eng.alloc(CollRec("list", [self.part(eng)]))
        self.bad("method ." + name)


def subst_term(t, pairs): return z3.substitute(t, *pairs) if pairs else t


class NodeDict(Value):
    """IntervalTree.nodes: (begin, end) -> node"""
    tname = "dict"
    shared = True

    def __init__(self, has, at): self.has, self.at = has, at

    def key(self, eng, k):
        if isinstance(k, tuple) and len(k) == 2:
            return tuple(toreal(eng, x) for x in k)
        raise Unsupported("key of the tree's index")
    def contains(self, eng, ref, k): return self.has(*self.key(eng, k))
    def getitem(self, eng, ref, k):
        k = self.key(eng, k)
        if not eng.decide(self.has(*k)):
            raise PyRaise(VExc("KeyError"))
        return self.at(*k)
    def setitem(self, eng, ref, k, v):
        k0, v = self.key(eng, k), eng.to_tn(v)
        has, at = self.has, self.at
        eng.put(ref, NodeDict(lambda a, b: Or(has(a, b), And(Eq(a, k0[0]), Eq(b, k0[1]))),
                              lambda a, b: z3.If(And(Eq(a, k0[0]), Eq(b, k0[1])), v, at(a, b))))
    def delitem(self, eng, ref, k):
        k0 = self.key(eng, k)
        has = self.has
        if not eng.decide(has(*k0)):
            raise PyRaise(VExc("KeyError"))
        eng.put(ref, NodeDict(lambda a, b: And(has(a, b), Not(And(Eq(a, k0[0]), Eq(b, k0[1])))), self.at))
    def vals(self, eng, ref, f):
        a, b = fresh("a", Real), fresh("b", Real)
        return Fam([Part((a, b), self.has(a, b), f(a, b))], "list", (ref.id,))
    def iter(self, eng, ref): return self.vals(eng, ref, lambda a, b: (a, b))
    def truth(self, eng, ref): return self.iter(eng, ref).truth(eng, ref)
    def length(self, eng, ref): return eng.fam_len(self.iter(eng, ref))
    def method(self, eng, ref, name, args, kw):
        if name == "get":
            k = self.key(eng, args[0])
            return self.at(*k) if eng.decide(self.has(*k)) else (args[1] if len(args) > 1 else None)
        if name == "pop":
            k = self.key(eng, args[0])
            if not eng.decide(self.has(*k)):
                if len(args) > 1:
                    return args[1]
                raise PyRaise(VExc("KeyError"))
            v = self.at(*k)
            self.delitem(eng, ref, args[0])
            return v
        if name == "keys":
            return self.iter(eng, ref)
        if name == "values":
            return self.vals(eng, ref, lambda a, b: self.at(a, b))
        if name == "items":
            return self.vals(eng, ref, lambda a, b: ((a, b), self.at(a, b)))
        self.bad("method ." + name)


def toreal(eng, t):
    t = eng.num(t)
    return z3.ToReal(t) if t.is_int() else t


NOBODY = lambda m: FALSE
RECURSIVE = ("insert", "discard", "leftmost", "query", "inOrder")


class TEngine(GEngine):
    contracts_on = False
    building = None
    variant = None              # (node set, the recursive call must be on strictly fewer nodes)

    def reset(self, trace):
        GEngine.reset(self, trace)
        self.thref = self.alloc(TreeHeap({}, (), z3.Function("E0", TN, IEdge, Bool)))
        self.building, self.variant = None, None

    th = property(lambda s: s.heap[s.thref.id])

    def set_th(self, recs=None, chunks=None, E=None):
        h = self.th
        self.put(self.thref, TreeHeap(h.recs if recs is None else recs, h.chunks if chunks is None else chunks, E or h.E))

    def set_E(self, E): self.set_th(E=E)

    def to_tn(self, v):
        if v is None:
            return null
        if isinstance(v, z3.ExprRef) and v.sort() == TN:
            return v
        raise Unsupported("tree node expected")

    # ---------------------------------------------------------------- chunks
    def new_chunk(self, S=None, root=None, tag="t", keep=True):
        """a subtree about which only its invariant is known. S: its node set, if given"""
        r = fresh(tag, TN) if root is None else root
        P = fresh_fun("S" + tag, TN, Bool)
        mx, h = fresh("mx", Real), fresh("h", Int)
        m = z3.Const("m", TN)
        if S is not None:
            try:
                self.fact(z3.ForAll([m], P(m) == bool_(S(m)), patterns=[P(m)] + [p for p in pats(bool_(S(m)), m)]))
            except z3.Z3Exception:
                self.fact(z3.ForAll([m], P(m) == bool_(S(m))))
        c = Chunk(r, P, mx, h)
        for f in self.chunk_facts(c):
            self.fact(f)
        if keep:
            self.set_th(chunks=self.th.chunks + (c,))
        return c

    def chunk_facts(self, c):
        m = z3.Const("m", TN)
        w = fresh("wmx", TN)
        P = c.S
        return [z3.ForAll([m], Implies(P(m), And(Not(m == null), Not(c.root == null), HIGH(m) <= c.mx, LOW(m) <= HIGH(m))), patterns=[P(m)]),
                Implies(Not(c.root == null), And(P(c.root), P(w), HIGH(w) == c.mx)), c.h >= 0]

    def kids(self, c):
        """the two subtrees of a chunk that is not empty"""
        if c.kids is None:
            out = []
            nf = len(self.facts)
            for side in "lr":
                t = fresh(side, TN)
                d = Chunk(t, fresh_fun("S" + side, TN, Bool), fresh("mx", Real), fresh("h", Int))
                for f in self.chunk_facts(d):
                    self.facts.append(f)
                out.append(d)
            m = z3.Const("m", TN)
            L, R = out
            nn = Not(c.root == null)
            self.facts.append(z3.ForAll([m], Implies(nn, c.S(m) == Or(m == c.root, L.S(m), R.S(m))), patterns=[c.S(m), L.S(m), R.S(m)]))
            self.facts.append(z3.ForAll([m], Implies(L.S(m), klt(m, c.root)), patterns=[L.S(m)]))
            self.facts.append(z3.ForAll([m], Implies(R.S(m), klt(c.root, m)), patterns=[R.S(m)]))
            c.kids, c.kid_facts = (L, R), self.facts[nf:]
            return c.kids
        for f in c.kid_facts:
            if not any(g is f for g in self.facts):
                self.facts.append(f)
        return c.kids

    def known(self):
        """(term, explicit node or path of chunks from the outside in) for what is owned"""
        out = [(r.t, r) for r in self.th.recs.values()]

        def walk(path):
            c = path[-1]
            out.append((c.root, path))
            if c.kids is not None and all(any(g is f for g in self.facts) for f in c.kid_facts):
                for d in c.kids:
                    walk(path + (d,))
        for c in self.th.chunks:
            walk((c,))
        return out

    def find(self, t):
        ks = self.known()
        for k, r in ks:
            if k.eq(t):
                return r
        for k, r in ks:
            if Solver.quick_unsat(self.ctx() + [Not(k == t)], 200000):
                return r
        return None

    def explode(self, path):
        """make the nodes of the chunks on the path (all but the last one) explicit"""
        for c in path[:-1]:
            self.make_rec(c)

    def make_rec(self, c):
        L, R = self.kids(c)
        recs = dict(self.th.recs)
        recs[c.root.get_id()] = NRec(c.root, left=L.root, right=R.root, max=c.mx, height=c.h)
        self.set_th(recs=recs, chunks=[d for d in self.th.chunks if d is not c] + [L, R])

    def nonnull(self, t):
        if not self.decide(Not(t == null)):
            raise PyRaise(VExc("AttributeError"))

    # ---------------------------------------------------------------- fields of nodes
    def node_cls(self):
        return self.classes[("dynetworkx.classes.intervaltree", "Node")]

    def tn_getattr(self, v, name):
        if not (self.building is not None and v.eq(self.building)):
            self.nonnull(v)
        if name == "low":
            return LOW(v)
        if name == "high":
            return HIGH(v)
        if name == "edges":
            return EdgeList(v)
        if name not in ("left", "right", "max", "height"):
            if self.node_cls().lookup(name) is not None:
                return BoundM(v, name)
            raise Unsupported("tree node field " + name)
        r = self.find(v)
        if r is None:
            raise Unsupported("field %s of an unknown tree node" % name)
        if isinstance(r, NRec):
            if r.fields.get(name) is None:
                raise Unsupported("field %s is not known" % name)
            return r.fields[name]
        c = r[-1]
        if name == "max":
            return c.mx
        if name == "height":
            return c.h
        return self.kids(c)[0 if name == "left" else 1].root

    def tn_setattr(self, v, name, x):
        new = self.building is not None and v.eq(self.building)
        if not new:
            self.nonnull(v)
        if name in ("low", "high"):
            if not new:
                raise Unsupported("change of a tree node's times")
            self.fact((LOW if name == "low" else HIGH)(v) == toreal(self, x))
            return
        if name == "edges":
            if not (isinstance(x, HRef) and isinstance(self.heap[x.id], CollRec) and self.heap[x.id].kind == "list"):
                raise Unsupported("edges of a tree node")
            E, ps = self.th.E, []
            for p in map(rename, self.heap[x.id].parts):
                e = p.elem if is_edge(p.elem) else self.to_edge(p.elem, IEdge) if isinstance(p.elem, tuple) else None
                if e is None:
                    raise Unsupported("edges of a tree node")
                ps.append(Part(p.vars, p.guard, e))
            for i, p in enumerate(ps):
                for q in ps[i:]:
                    if p is q and not p.vars:
                        continue
                    r = rename(q) if p is q else q
                    same = And([Eq(a, b) for a, b in zip(p.vars, r.vars)]) if p is q else FALSE
                    self.oblige("a node lists an edge once", Implies(And(p.guard, r.guard, Eq(p.elem, r.elem)), same))
            member = lambda f: Or([Exists(p.vars, And(p.guard, Eq(p.elem, f))) for p in ps])
            self.set_E(lambda m, f: Or(And(Not(Eq(m, v)), E(m, f)), And(Eq(m, v), member(f))))
            return
        if name not in ("left", "right", "max", "height"):
            raise Unsupported("tree node field " + name)
        x = self.to_tn(x) if name in ("left", "right") else self.int_(x) if name == "height" else toreal(self, x)
        r = self.find(v)
        if r is None:
            raise Unsupported("assignment to an unknown tree node")
        if not isinstance(r, NRec):
            self.explode(r)
            self.make_rec(r[-1])
            r = self.th.recs[r[-1].root.get_id()]
        recs = dict(self.th.recs)
        recs[r.t.get_id()] = r.put(name, x)
        self.set_th(recs=recs)

    def int_(self, x):
        x = self.num(x)
        if not x.is_int():
            raise Unsupported("height")
        return x

    def instantiate(self, cls, args, kw):
        if cls.name != "Node":
            return Engine.instantiate(self, cls, args, kw)
        n = fresh("node", TN)
        self.fact(Not(n == null))
        for r in self.th.recs.values():
            self.fact(Not(n == r.t))
        for c in self.th.chunks:
            self.fact(Not(c.S(n)))
        recs = dict(self.th.recs)
        recs[n.get_id()] = NRec(n, left=None, right=None, max=None, height=None)
        self.set_th(recs=recs)
        old, self.building = self.building, n
        try:
            self.call_func(cls.lookup("__init__"), n, args, kw)
        finally:
            self.building = old
        return n

    def call_method(self, recv, name, args, kw):
        if isinstance(recv, z3.ExprRef) and recv.sort() == TN:
            f = self.node_cls().lookup(name)
            if f is None:
                raise PyRaise(VExc("AttributeError"))
            return self.call_func(f, recv, args, kw)
        return GEngine.call_method(self, recv, name, args, kw)

    def coerce_field(self, cls, name, v):
        if cls.name == "IntervalTree" and name == "nodes" and is_empty_dict(self, v):
            return self.alloc(NodeDict(lambda a, b: FALSE, lambda a, b: null))
        return GEngine.coerce_field(self, cls, name, v)

    # ---------------------------------------------------------------- closing a subtree
    folding = None

    def fold(self, t, what):
        """close the subtree at t: (its node set, greatest end, height), no longer owned afterwards"""
        if self.folding is not None:
            return self.fold1(t, what)
        self.folding = self.th
        try:
            return self.fold1(t, what)
        finally:
            self.folding = None

    def owned_before(self, t):
        now = self.th
        self.put(self.thref, self.folding)
        try:
            return self.find(t) is not None
        finally:
            self.put(self.thref, now)

    def fold1(self, t, what):
        t = self.to_tn(t)
        if t.eq(null) or Solver.quick_unsat(self.ctx() + [Not(t == null)]):
            return NOBODY, None, None
        r = self.find(t)
        if r is None:
            if self.decide(t == null):
                return NOBODY, None, None
            if self.owned_before(t):
                self.oblige("%s: the parts of the tree are separate" % what, FALSE)
                raise Infeasible()
            raise Unsupported("the subtree at %s is not known" % t)
        if not isinstance(r, NRec):
            self.explode(r)
            c = r[-1]
            self.set_th(chunks=[d for d in self.th.chunks if d is not c])
            return c.S, c.mx, c.h
        recs = dict(self.th.recs)
        del recs[r.t.get_id()]
        self.set_th(recs=recs)
        f = r.fields
        if any(f.get(k) is None for k in ("max", "height")) or "left" not in f or "right" not in f:
            raise Unsupported("a field of a tree node is not known")
        FL, ml, _ = self.fold(f["left"], what)
        FR, mr, _ = self.fold(f["right"], what)
        n, m = r.t, fresh("m", TN)
        self.oblige("%s: nodes of the left subtree precede its root" % what, Implies(FL(m), klt(m, n)))
        self.oblige("%s: nodes of the right subtree follow its root" % what, Implies(FR(m), klt(n, m)))
        l, rt = self.to_tn(f["left"]), self.to_tn(f["right"])
        mx = f["max"]
        hasl = FALSE if ml is None else Not(l == null)
        hasr = FALSE if mr is None else Not(rt == null)
        ml, mr = mx if ml is None else ml, mx if mr is None else mr
        self.oblige("%s: max is the greatest end in the subtree" % what,
                    And(HIGH(n) <= mx, Implies(hasl, ml <= mx), Implies(hasr, mr <= mx),
                        Or(mx == HIGH(n), And(hasl, mx == ml), And(hasr, mx == mr))))
        self.oblige("%s: height is not negative" % what, f["height"] >= 0)
        self.oblige("%s: begin <= end" % what, LOW(n) <= HIGH(n))
        q = z3.Const("m", TN)
        if FL is not NOBODY:
            self.facts.append(z3.ForAll([q], Implies(FL(q), klt(q, n))))
        if FR is not NOBODY:
            self.facts.append(z3.ForAll([q], Implies(FR(q), klt(n, q))))
        return (lambda m: Or(Eq(m, n), FL(m), FR(m))), mx, f["height"]

    # ---------------------------------------------------------------- contracts
    def descend(self, F, what):
        if self.variant is None:
            return
        m = fresh("m", TN)
        S, out = self.variant
        self.oblige("%s: the recursion is on strictly fewer nodes" % what, And(Implies(F(m), S(m)), Not(F(out))))

    def call_obj_method(self, ref, rec, name, args, kw):
        if rec.cls.name == "IntervalTree" and name in RECURSIVE:
            f = rec.cls.lookup(name)
            if f is not None and "\n" not in name:
                loc = self.bind(f, ref, args, kw)
                self.used("IntervalTree." + name)
                return getattr(self, "c_" + name)(*[loc[k] for k in loc if k != "self"])
        if rec.cls.name == "IntervalTree" and name == "updateMax" and not self.no_updatemax:
            f = rec.cls.lookup(name)
            loc = self.bind(f, ref, args, kw)
            if len(loc) == 2 and self.c_updateMax([loc[k] for k in loc if k != "self"][0]):
                self.used("IntervalTree.updateMax")
                return None
        return GEngine.call_obj_method(self, ref, rec, name, args, kw)

    no_updatemax = False

    def explicit(self, t):
        """the explicit node t, opened if needed"""
        r = self.find(t)
        if r is not None and not isinstance(r, NRec):
            self.explode(r)
            self.make_rec(r[-1])
            r = self.th.recs[r[-1].root.get_id()]
        return r

    def max_spec(self, r, mx):
        """mx is the greatest end at r and in its two subtrees, by their own max; None: not expressible here"""
        out, one = [HIGH(r.t) <= mx], [mx == HIGH(r.t)]
        for side in ("left", "right"):
            t = r.fields.get(side)
            if t is None:
                return None
            t = self.to_tn(t)
            if t.eq(null):
                continue
            q = self.find(t)
            if q is None:
                if Solver.quick_unsat(self.ctx() + [Not(t == null)]):
                    continue
                return None
            v = q.fields.get("max") if isinstance(q, NRec) else q[-1].mx
            if v is None:
                return None
            out.append(Implies(Not(t == null), v <= mx))
            one.append(And(Not(t == null), mx == v))
        return And(out + [Or(one)])

    def c_updateMax(self, node):
        node = self.to_tn(node)
        self.nonnull(node)
        r = self.explicit(node)
        if r is None:
            return False
        mx = fresh("newmax", Real)
        f = self.max_spec(r, mx)
        if f is None:
            return False
        self.fact(f)
        recs = dict(self.th.recs)
        recs[r.t.get_id()] = r.put("max", mx)
        self.set_th(recs=recs)
        return True

    def c_insert(self, root, node):
        node = self.to_tn(node)
        F, _, _ = self.fold(root, "insert")
        self.descend(F, "insert")
        self.take_leaf(node)
        m = fresh("m", TN)
        self.oblige("precondition of insert: the node is not in the tree and no node has its times",
                    Implies(F(m), And(Not(m == node), Or(klt(m, node), klt(node, m)))))
        c = self.new_chunk(lambda m: Or(F(m), Eq(m, node)), tag="ins")
        self.fact(Not(c.root == null))
        return c.root

    def take_leaf(self, node):
        r = self.find(node)
        if not isinstance(r, NRec):
            raise Unsupported("inserted node")
        f = r.fields
        if any(f.get(k) is None for k in ("left", "right", "max", "height")):
            raise Unsupported("inserted node")
        self.oblige("precondition of insert: the node is a leaf", And(f["left"] == null, f["right"] == null, f["max"] == HIGH(node),
                                                                     f["height"] >= 0, LOW(node) <= HIGH(node), Not(node == null)))
        recs = dict(self.th.recs)
        del recs[r.t.get_id()]
        self.set_th(recs=recs)

    def c_discard(self, root, node):
        node = self.to_tn(node)
        F, _, _ = self.fold(root, "discard")
        self.descend(F, "discard")
        self.oblige("precondition of discard: the node is in the tree", F(node))
        c = self.new_chunk(lambda m: And(F(m), Not(Eq(m, node))), tag="dis")
        recs = dict(self.th.recs)
        recs[node.get_id()] = NRec(node, left=fresh("junk", TN), right=fresh("junk", TN), max=fresh("junk", Real), height=fresh("junkh", Int))
        self.set_th(recs=recs)
        return c.root

    def peek(self, t):
        """the node set of the subtree at t, which stays owned as it is"""
        s = self.snapshot_th()
        F, mx, h = self.fold(t, "argument")
        self.put(self.thref, s)
        return F

    def snapshot_th(self): return self.th

    def c_leftmost(self, node):
        node = self.to_tn(node)
        self.nonnull(node)
        F = self.peek(node)
        self.descend(F, "leftmost")
        r, m = fresh("first", TN), z3.Const("m", TN)
        self.fact(And(F(r), Not(r == null)))
        self.fact(Forall([m], Implies(F(m), Or(m == r, klt(r, m)))))
        return r

    def c_query(self, node, begin, end):
        node = self.to_tn(node)
        self.nonnull(node)
        b, n = toreal(self, begin), toreal(self, end)
        self.oblige("precondition of query: begin <= end", b <= n)

        def run():
            F = self.peek(node)
            self.descend(F, "query")
            m = fresh("m", TN)
            return Fam([Part((m,), And(F(m), hits(m, b, n)), m)], "list", (self.thref.id,))
        return self.alloc(GenRec(run))

    def c_inOrder(self, root):
        root = self.to_tn(root)

        def run():
            F = self.peek(root)
            if self.variant is not None:
                self.descend(F, "inOrder")
            m = fresh("m", TN)
            return Fam([Part((m,), F(m), m)], "list", (self.thref.id,))
        return self.alloc(GenRec(run))


def hits(m, b, n):
    return Or(And(LOW(m) < n, HIGH(m) > b), LOW(m) == b)


def pats(f, v):
    """subterms P(v) usable as triggers"""
    out, seen, st = [], set(), [f]
    while st:
        x = st.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.num_args() == 1 and x.arg(0).eq(v) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.sort() == Bool:
            out.append(x)
        st.extend(x.children())
    return out[:4]
