"""Snapshot graphs: the sorted dictionary of snapshots as a sequence of (interval, graph)
positions, the stored static graphs as identities whose contents live in cells (two graphs that
share structure share a cell), and networkx operations on them as uninterpreted functions of
the graph and their arguments."""
from .core import *
from .logic import *
from .theory_graph import *
from .graph_engine import GEngine

Cell, Con = z3.DeclareSort("Cell"), z3.DeclareSort("Con")
CELL = z3.Function("cell", GR, Cell)
BORN = z3.Function("born", Cell, Int)
# networkx.Graph methods that only read: name -> parameters with defaults
NX_READ = {"number_of_nodes": {}, "order": {}, "size": {"weight": None}, "degree": {"nbunch": None, "weight": None},
           "in_degree": {"nbunch": None, "weight": None}, "out_degree": {"nbunch": None, "weight": None},
           "has_node": {"n": ...}, "has_edge": {"u": ..., "v": ...}, "is_multigraph": {}, "is_directed": {},
           "to_directed": {"as_view": False}, "to_undirected": {"as_view": False}, "subgraph": {"nodes": ...},
           "number_of_edges": {"u": None, "v": None}}
NX_WRITE = {"add_nodes_from": ["nodes_for_adding"], "add_edges_from": ["ebunch_to_add"]}


class Token(Value):
    """an argument nothing is known about"""
    def __init__(self, name): self.name = name
    tname = "token"
    def eq(self, eng, ref, o):
        if o is self:
            return True
        if o is None:
            return False
        self.bad("==")
    def truth(self, eng, ref): return fresh("truth_" + self.name, Bool)
    def iter(self, eng, ref): raise Unsupported("elements of " + self.name)


class UserFn(Token):
    def call(self, eng, ref, args, kw):
        if not args or not is_gr(args[0]):
            raise Unsupported("user function applied to something else")
        kw = dict(kw)
        star = kw.pop("**", None)
        c = eng.content_of(eng.make_kwargs(star, kw))
        return NXVal("call", args[0], {"fn": self, "rest": tuple(args[1:]), "kw": c})


NX_KINDS = ("Graph", "DiGraph", "MultiGraph", "MultiDiGraph")


def empty_con(kind): return z3.Const("empty:" + kind, Con)


def is_gr(x): return isinstance(x, z3.ExprRef) and x.sort() == GR


class NXVal(Value):
    """the result of a networkx operation on a static graph"""
    tname = "nx"

    def __init__(self, name, g, args): self.name, self.g, self.args = name, g, args
    def subst(self, pairs):
        return NXVal(self.name, z3.substitute(self.g, *pairs) if pairs else self.g, {k: vsubst(v, pairs) for k, v in self.args.items()})
    def free(self): return [self.g] + [t for v in self.args.values() for t in vfree(v)]


def vsame(eng, a, b):
    """formula: the two values are the same"""
    if isinstance(a, NXVal) and isinstance(b, NXVal):
        if a.name != b.name or set(a.args) != set(b.args):
            return FALSE
        return And([Eq(a.g, b.g)] + [vsame(eng, a.args[k], b.args[k]) for k in a.args])
    if isinstance(a, (NXVal, Token)) or isinstance(b, (NXVal, Token)):
        return TRUE if a is b else FALSE
    if isinstance(a, Content) and isinstance(b, Content):
        k = fresh("k", Key)
        return Forall([k], And(Iff(a.has(k), b.has(k)), Implies(a.has(k), Eq(a.val(k), b.val(k)))))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return And([vsame(eng, x, y) for x, y in zip(a, b)]) if len(a) == len(b) else FALSE
    if isinstance(a, HRef) and isinstance(b, HRef):
        if a.id == b.id:
            return TRUE
        raise Unsupported("comparison of arguments")
    return bool_(eng.eq(a, b))


class Seq(Value):
    """a sorted dictionary keyed by (start, end): positions 0..n-1 in key order"""
    tname = "dict"
    shared = True

    def __init__(self, n, lo, hi, gr, base=None, segs=None):
        self.n, self.lo, self.hi, self.gr, self.memo = n, lo, hi, gr, []
        # the same, piece by piece: up to each bound, the base sequence shifted, or one entry
        self.base = base or (lo, hi, gr)
        self.segs = segs if segs is not None else ([] if z3.is_int_value(n) and n.as_long() == 0 else [(n, 0)])

    def key(self, eng, k):
        if isinstance(k, tuple) and len(k) == 2:
            return tuple(toreal(eng, x) for x in k)
        raise Unsupported("key of a snapshot")

    def valid(self, i): return And(0 <= i, i < self.n)
    def at_key(self, i, k): return And(Eq(self.lo(i), k[0]), Eq(self.hi(i), k[1]))

    def bisect(self, eng, k, right):
        if not (isinstance(k, tuple) and len(k) in (1, 2)):
            raise Unsupported("bisect")
        x = [toreal(eng, t) for t in k]
        right = right and len(x) == 2

        def less(i):
            if len(x) == 1:
                return self.lo(i) < x[0]
            return Or(self.lo(i) < x[0], And(self.lo(i) == x[0], self.hi(i) <= x[1] if right else self.hi(i) < x[1]))
        for y, r, p, fs in self.memo:
            if len(x) == len(y) and all(a.eq(b) for a, b in zip(x, y)) and r == right and all(any(f is g for g in eng.facts) for f in fs):
                return p
        # the keys are sorted, so a position with a smaller key before it and none after is the one
        for c in eng.bisects[::-1]:
            for d in (0, -1, 1):
                q = z3.simplify(c + d)
                if Solver.quick_unsat(eng.ctx() + [Not(And(0 <= q, q <= self.n, Or(q == 0, less(q - 1)), Or(q == self.n, Not(less(q)))))], 100000):
                    return q
        p, j = fresh("pos", Int), z3.Int("j")
        nf = len(eng.facts)
        eng.fact(And(0 <= p, p <= self.n))
        eng.facts.append(self.all(j, Implies(And(0 <= j, j < p), less(j))))
        eng.facts.append(self.all(j, Implies(And(p <= j, j < self.n), Not(less(j)))))
        self.memo.append((x, right, p, eng.facts[nf:]))
        eng.bisects.append(p)
        return p

    def all(self, j, body):
        l = self.lo(j)
        return z3.ForAll([j], body, patterns=[l]) if z3.is_app(l) and l.decl().kind() == z3.Z3_OP_UNINTERPRETED else z3.ForAll([j], body)

    def index_of(self, eng, k):
        """position of a key, or None"""
        p = self.bisect(eng, k, False)
        if eng.decide(And(p < self.n, self.at_key(p, k))):
            return p
        return None

    def changed(self, eng, ref, n, segs):
        """a new state of the dictionary, given piece by piece"""
        L, H, G = fresh_fun("lo", Int, Real), fresh_fun("hi", Int, Real), fresh_fun("gr", Int, GR)
        j, i = z3.Int("j"), z3.Int("i")
        for x, F in enumerate((L, H, G)):
            e = None
            for end, it in reversed(segs):
                v = it[x] if isinstance(it, tuple) else self.base[x](z3.simplify(j + it))
                e = v if e is None else z3.If(j < end, v, e)
            if e is not None:
                eng.facts.append(z3.ForAll([j], F(j) == e, patterns=[F(j)]))
        # the sorted container keeps its keys in increasing order
        eng.facts.append(z3.ForAll([i, j], Implies(And(0 <= i, i < j, j < n), Or(L(i) < L(j), And(L(i) == L(j), H(i) < H(j)))), patterns=[z3.MultiPattern(L(i), L(j))]))
        eng.put(ref, Seq(n, L, H, G, self.base, segs))

    def cut(self, eng, p):
        """the pieces before position p and those from it on"""
        before, start = [], z3.IntVal(0)
        for k, (end, it) in enumerate(self.segs):
            if eng.decide(p < end):
                if not eng.decide(p <= start):
                    before.append((p, it))
                return before, list(self.segs[k:])
            before.append((end, it))
            start = end
        return before, []

    def store(self, eng, ref, k, v):
        k, v = self.key(eng, k), eng.to_gr(v)
        p = self.bisect(eng, k, False)
        q = self
        if eng.decide(And(p < self.n, self.at_key(p, k))):
            self.drop(eng, ref, p)
            q = eng.heap[ref.id]
        a, b = q.cut(eng, p)
        up = lambda x: z3.simplify(x + 1)
        q.changed(eng, ref, up(q.n), a + [(up(p), (k[0], k[1], v))] + [(up(e), it if isinstance(it, tuple) else it - 1) for e, it in b])

    def drop(self, eng, ref, p):
        a, b = self.cut(eng, p)
        down = lambda x: z3.simplify(x - 1)
        if not b:
            raise Unsupported("position of a snapshot")
        if isinstance(b[0][1], tuple) or eng.decide(b[0][0] <= p + 1):
            b = b[1:]
        self.changed(eng, ref, down(self.n), a + [(down(e), it if isinstance(it, tuple) else it + 1) for e, it in b])

    def norm(self, eng, i):
        """a Python index as a position"""
        if isinstance(i, int):
            i = z3.IntVal(i)
        if not (isinstance(i, z3.ArithRef) and i.is_int()):
            raise Unsupported("index of a snapshot")
        ok = And(-self.n <= i, i < self.n)
        if not eng.decide(ok):
            raise PyRaise(VExc("IndexError"))
        if Solver.quick_unsat(eng.ctx() + [i < 0]):
            return i
        if Solver.quick_unsat(eng.ctx() + [i >= 0]):
            return z3.simplify(i + self.n)
        return z3.If(i < 0, i + self.n, i)

    def clamp(self, eng, i, default):
        if i is None:
            return default
        i = eng.num(i)
        if not i.is_int():
            raise Unsupported("slice bound")
        if Solver.quick_unsat(eng.ctx() + [Not(And(0 <= i, i <= self.n))]):
            return i
        return z3.If(i < 0, z3.If(i + self.n < 0, 0, i + self.n), z3.If(i > self.n, self.n, i))

    def elem(self, what, i):
        k = (self.lo(i), self.hi(i))
        return {"keys": k, "values": self.gr(i), "items": (k, self.gr(i))}[what]

    def view(self, eng, ref, what, a=None, b=None):
        i = fresh("i", Int)
        a = z3.IntVal(0) if a is None else a
        b = self.n if b is None else b
        return Fam([Part((i,), And(a <= i, i < b), self.elem(what, i))], "list", (ref.id,), "pos")

    def iter(self, eng, ref): return self.view(eng, ref, "keys")
    def length(self, eng, ref): return self.n
    def truth(self, eng, ref): return self.n > 0
    def contains(self, eng, ref, k):
        k, i = self.key(eng, k), fresh("i", Int)
        return Exists([i], And(self.valid(i), self.at_key(i, k)))
    def getitem(self, eng, ref, k):
        p = self.index_of(eng, self.key(eng, k))
        if p is None:
            raise PyRaise(VExc("KeyError"))
        return self.gr(p)
    def setitem(self, eng, ref, k, v): self.store(eng, ref, k, v)
    def delitem(self, eng, ref, k):
        p = self.index_of(eng, self.key(eng, k))
        if p is None:
            raise PyRaise(VExc("KeyError"))
        self.drop(eng, ref, p)

    def method(self, eng, ref, name, args, kw):
        if name == "update" and len(args) == 1 and not kw:
            for p in eng.mapping_parts(args[0]):
                if p.vars or not z3.is_true(p.guard):
                    raise Unsupported("update of the snapshots")
                eng.heap[ref.id].store(eng, ref, *p.elem)
            return None
        if name == "__setitem__":
            return self.store(eng, ref, *args)
        if name == "setdefault":
            p = self.index_of(eng, self.key(eng, args[0]))
            if p is not None:
                return self.gr(p)
            self.store(eng, ref, args[0], args[1])
            return args[1]
        if name == "get":
            p = self.index_of(eng, self.key(eng, args[0]))
            return self.gr(p) if p is not None else (args[1] if len(args) > 1 else None)
        if name == "pop":
            k = args[0]
            p = self.index_of(eng, self.key(eng, k))
            if p is None:
                if len(args) > 1:
                    return args[1]
                raise PyRaise(VExc("KeyError"))
            v = self.gr(p)
            self.drop(eng, ref, p)
            return v
        if name in ("popitem", "peekitem"):
            i = args[0] if args else kw.get("index", -1)
            p = self.norm(eng, i)
            r = self.elem("items", p)
            if name == "popitem":
                self.drop(eng, ref, p)
            return r
        if name in ("bisect_left", "bisect_right", "bisect"):
            return self.bisect(eng, args[0], name != "bisect_left")
        if name in ("keys", "values", "items"):
            return SView(ref, name)
        self.bad("method ." + name)

    def loop_base(self, eng):
        if not (z3.is_int_value(self.n) and self.n.as_long() == 0):
            raise Unsupported("loop that changes the snapshots")
        return LoopSeq()


class LoopSeq(Value):
    """a dictionary being filled by the loop body that is executing"""
    tname = "dict"

    def __init__(self, tail=()): self.tail = tuple(tail)
    def bad(self, what): raise Unsupported("loop-carried use of the snapshots: " + what)
    def store(self, eng, ref, k, v):
        if not (isinstance(k, tuple) and len(k) == 2):
            raise Unsupported("key of a snapshot")
        eng.put(ref, LoopSeq(self.tail + (Part((), TRUE, (tuple(toreal(eng, x) for x in k), v)),)))
    def setitem(self, eng, ref, k, v): self.store(eng, ref, k, v)
    def method(self, eng, ref, name, args, kw):
        if name == "update" and len(args) == 1 and not kw:
            for p in eng.mapping_parts(args[0]):
                if p.vars or not z3.is_true(p.guard):
                    raise Unsupported("update of the snapshots")
                eng.heap[ref.id].store(eng, ref, *p.elem)
            return None
        if name == "__setitem__":
            return self.store(eng, ref, *args)
        self.bad(name)
    def loop_base(self, eng): return LoopSeq()


def seq_merge(self, eng, ref, results, part):
    parts = []
    for pc, rec in results:
        if not isinstance(rec, LoopSeq):
            raise Unsupported("loop that changes the snapshots")
        if len(rec.tail) > 1:
            raise Unsupported("loop that stores several snapshots")
        for p in rec.tail:
            parts.append(Part(part.vars + p.vars, And(part.guard, pc, p.guard), p.elem))
    for i, p in enumerate(parts):
        for q in parts[i:]:
            r = rename(q)
            same = And([Eq(a, b) for a, b in zip(p.elem[0], r.elem[0])])
            eng.oblige("a loop stores at most one graph for an interval", Implies(And(p.guard, r.guard, same), vsame(eng, p.elem[1], r.elem[1])))
    return SMap(parts)


Seq.loop_merge = seq_merge
LoopSeq.loop_merge = seq_merge


class SMap(Value):
    """a sorted dictionary filled by a loop: its entries"""
    tname = "dict"
    def __init__(self, parts): self.parts = parts


class SView(Value):
    """snapshots.keys() / values() / items(): a live view"""
    tname = "view"

    def __init__(self, ref, what): self.ref, self.what = ref, what
    def seq(self, eng):
        s = eng.heap[self.ref.id]
        if not isinstance(s, Seq):
            raise Unsupported("view of the snapshots")
        return s
    def iter(self, eng, ref): return self.seq(eng).view(eng, self.ref, self.what)
    def length(self, eng, ref): return self.seq(eng).n
    def truth(self, eng, ref): return self.seq(eng).n > 0
    def contains(self, eng, ref, x):
        s, i = self.seq(eng), fresh("i", Int)
        return Exists([i], And(s.valid(i), bool_(eng.eq(s.elem(self.what, i), x))))
    def getitem(self, eng, ref, k):
        s = self.seq(eng)
        if isinstance(k, slice):
            if k.step is not None:
                raise Unsupported("slice with a step")
            f = s.view(eng, self.ref, self.what, s.clamp(eng, k.start, z3.IntVal(0)), s.clamp(eng, k.stop, s.n))
            return eng.alloc(CollRec("list", f.parts, "pos"))
        return s.elem(self.what, s.norm(eng, k))


class GHeap(Value):
    """contents of the static graphs"""
    def __init__(self, con): self.con = con
    def loop_base(self, eng): return LoopG(self.con)

    def loop_merge(self, eng, ref, results, part):
        ups = []
        for pc, rec in results:
            if not isinstance(rec, LoopG):
                raise Unsupported("graphs created in a loop")
            if len(rec.tail) > 1:
                raise Unsupported("several updates of graphs in a loop body")
            for c, U in rec.tail:
                ups.append((part.vars, And(part.guard, pc), c, U))
        return eng.update_cells(self, ups)


class LoopG(Value):
    def __init__(self, con, tail=()): self.con0, self.tail = con, tuple(tail)
    con = property(lambda s: (_ for _ in ()).throw(Unsupported("loop-carried read of a graph's contents")))
    def loop_base(self, eng): raise Unsupported("nested loops that update graphs")


def toreal(eng, t):
    t = eng.num(t)
    return z3.ToReal(t) if t.is_int() else t


class SEngine(GEngine):
    def reset(self, trace):
        GEngine.reset(self, trace)
        self.ghref = self.alloc(GHeap(z3.Function("con0", Cell, Con)))
        self.boxes, self.ops, self.age, self.bisects, self.touched = {}, [], 0, [], []

    gh = property(lambda s: s.heap[s.ghref.id])

    # a generator is read eagerly; the records it looked at must not change while it is consumed
    def rec(self, v):
        if isinstance(v, HRef):
            for t in self.touched:
                t.add(v.id)
        return GEngine.rec(self, v)

    def run_gen(self, func, loc, frame=None):
        self.touched.append(set())
        try:
            return GEngine.run_gen(self, func, loc, frame)
        finally:
            self.touched.pop()

    def graph_records(self):
        if not self.touched:
            return GEngine.graph_records(self)
        return tuple(i for i in GEngine.graph_records(self) if i in self.touched[-1])

    # ------------------------------------------------------------ static graphs
    def to_gr(self, v):
        if is_gr(v):
            return v
        if isinstance(v, (HRef, NXVal)):
            for r, x in self.boxes.values():
                if x is v or isinstance(x, HRef) and isinstance(v, HRef) and x.id == v.id:
                    return r
            r = self.new_gr("boxed")
            self.boxes[r.get_id()] = (r, v)
            return r
        raise Unsupported("snapshot %r" % (v,))

    def new_gr(self, name):
        r = fresh(name, GR)
        self.age += 1
        self.fact(BORN(CELL(r)) == self.age)
        return r

    def op(self, name, args):
        """the effect of a networkx update on a graph's contents"""
        for n, a, U in self.ops:
            if n == name and set(a) == set(args) and all(Solver.quick_unsat(self.ctx() + [Not(vsame(self, a[k], args[k]))]) for k in a):
                return U
        U = fresh_fun("U_" + name, Con, Con)
        self.ops.append((name, args, U))
        return U

    def update_cells(self, h, ups):
        for i, (vs, g, c, U) in enumerate(ups):
            for j in range(i, len(ups)):
                ws, g2, c2, U2 = ups[j]
                q = rename(Part(tuple(ws), g2, c2))
                same = And([Eq(a, b) for a, b in zip(vs, q.vars)]) if i == j else FALSE
                self.oblige("a graph is updated once", Implies(And(g, q.guard, Eq(c, q.elem)), same))
        f = fresh_fun("con", Cell, Con)
        con = h.con
        x = z3.Const("c", Cell)
        for vs, g, c, U in ups:
            self.fact(Forall(vs, Implies(g, f(c) == U(con(c)))))
        self.facts.append(z3.ForAll([x], Or([f(x) == con(x)] + [Exists(vs, And(g, c == x)) for vs, g, c, U in ups]), patterns=[f(x)]))
        return GHeap(f)

    def gr_method(self, g, name, args, kw):
        if name in NX_READ:
            params = NX_READ[name]
            ns = list(params)
            if len(args) > len(ns) or any(k not in params for k in kw):
                raise PyRaise(VExc("TypeError"))
            loc = dict(zip(ns, args))
            if any(k in loc for k in kw):
                raise PyRaise(VExc("TypeError"))
            loc.update(kw)
            for k, d in params.items():
                if d is ... and k not in loc:
                    raise PyRaise(VExc("TypeError"))
                if k in loc and (loc[k] is d):
                    del loc[k]
                elif k in loc and k == "nbunch" and is_gr(loc[k]) and loc[k].eq(g):
                    del loc[k]           # all nodes
            return NXVal("order" if name == "number_of_nodes" else name, g, loc)
        if name in NX_WRITE:
            ns = NX_WRITE[name]
            kw = dict(kw)
            star = kw.pop("**", None)
            loc = dict(zip(ns, args))
            for n in ns:
                if n in kw:
                    loc[n] = kw.pop(n)
            if len(loc) != len(ns) or len(args) > len(ns):
                raise PyRaise(VExc("TypeError"))
            loc["**"] = self.content_of(self.make_kwargs(star, kw))
            U, h, c0 = self.op(name, loc), self.gh, CELL(g)
            if isinstance(h, LoopG):
                self.put(self.ghref, LoopG(h.con0, h.tail + ((c0, U),)))
                return None
            con = h.con
            self.put(self.ghref, GHeap(lambda c: z3.If(c == c0, U(con(c)), con(c))))
            return None
        if name in ("copy", "__copy__", "__deepcopy__") and len(args) <= (name == "__deepcopy__") and not kw:
            return self.copy_gr(g, name != "__copy__")
        if name == "__len__":
            return NXVal("order", g, {})
        raise Unsupported("static graph method ." + name)

    def copy_gr(self, g, deep):
        if isinstance(self.gh, LoopG):
            raise Unsupported("graph copied in a loop")
        r = self.new_gr("copy")
        if not deep:
            self.facts.pop()
            self.fact(CELL(r) == CELL(g))
            self.fact(Not(r == g))
            return r
        con, c0, c1 = self.gh.con, CELL(r), CELL(g)
        self.put(self.ghref, GHeap(lambda c: z3.If(c == c0, con(c1), con(c))))
        return r

    def call_method(self, recv, name, args, kw):
        if is_gr(recv):
            return self.gr_method(recv, name, args, kw)
        return GEngine.call_method(self, recv, name, args, kw)

    def contains(self, coll, x):
        if is_gr(coll):
            return self.gr_method(coll, "has_node", [x], {})
        return GEngine.contains(self, coll, x)

    def b_len(self, args, kw):
        if is_gr(args[0]):
            return NXVal("order", args[0], {})
        return GEngine.b_len(self, args, kw)

    def b_list(self, args, kw):
        if len(args) == 1 and isinstance(args[0], Token) and not isinstance(args[0], UserFn):
            return args[0]             # a list with the same elements in the same order
        return GEngine.b_list(self, args, kw)

    def hook_builtin(self, name, args, kw):
        if name in ("copy.deepcopy", "copy.copy", "deepcopy", "copy") and len(args) == 1 and is_gr(args[0]):
            return self.copy_gr(args[0], name.endswith("deepcopy"))
        if name in NX_KINDS and not args and not kw:
            if isinstance(self.gh, LoopG):
                raise Unsupported("graph created in a loop")
            r = self.new_gr(name)
            con, c0, e = self.gh.con, CELL(r), empty_con(name)
            self.put(self.ghref, GHeap(lambda c: z3.If(c == c0, e, con(c))))
            return r
        return GEngine.hook_builtin(self, name, args, kw)

    def coerce_field(self, cls, name, v):
        if "SnapshotGraph" in cls.mro_names():
            if name == "snapshots" and is_empty_dict(self, v):
                c = z3.Const("gr:none", GR)
                return self.alloc(Seq(z3.IntVal(0), lambda j: z3.RealVal(0), lambda j: z3.RealVal(0), lambda j: c))
            if name == "graph":
                return PyDict()
            return v
        return GEngine.coerce_field(self, cls, name, v)
