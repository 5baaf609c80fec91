"""C21: contracts of the conversions between temporal graphs and snapshot graphs.

to_snapshot_graph of an interval graph and from_snapshot_graph are sweeps: their loops carry
invariants written here (Sweep, Runs), checked on entry and for an arbitrary iteration of the
real loop body. A loop the invariants do not fit is reported as undecided, never as a violation."""
from .specs_graph import *
from .specs_proj import flag_args, fname
from .theory_graph import *
from .graph_engine import *

ANY = tuple(z3.Bool("option%d" % i) for i in range(4))


# ---------------------------------------------------------------- values
class Named(Value):
    """an opaque token"""
    def __init__(self, name): self.name = name
    def eq(self, eng, ref, o): return TRUE if o is self else self.bad("==")
    def truth(self, eng, ref): return fresh("truth_" + self.name, Bool)


class SNode(Value):
    """the k-th node of the tree in order"""
    def __init__(self, seq, k): self.seq, self.k = seq, k

    def getattr(self, eng, ref, name):
        if name == "low":
            return self.seq.lo(self.k)
        if name == "high":
            return self.seq.hi(self.k)
        self.bad("." + name)


class ITreeC(ITree):
    """the interval tree, with its in-order listing (contract of IntervalTree.inOrder: every
    interval of the tree once, by begin, then end)"""
    def getattr(self, eng, ref, name):
        if name == "root":
            return eng.theroot
        return ITree.getattr(self, eng, ref, name)

    def method(self, eng, ref, name, args, kw):
        if name == "inOrder" and len(args) == 1 and args[0] is eng.theroot and not kw:
            eng.used("IntervalTree.inOrder")
            return eng.nodeseq(self.T)
        return ITree.method(self, eng, ref, name, args, kw)


class SMulti(Value):
    """sortedcontainers.SortedList of numbers: how often each is in it"""
    tname = "list"

    def __init__(self, eng, cnt, size):
        self.cnt, self.size, self.m = cnt, size, None
        x = z3.Real("x")
        eng.fact(size >= 0)
        eng.facts.append(z3.ForAll([x], cnt(x) >= 0))
        eng.facts.append(Implies(size == 0, z3.ForAll([x], cnt(x) == 0)))

    def least(self, eng):
        if not eng.decide(self.size > 0):
            raise PyRaise(VExc("IndexError"))
        if self.m is None or not any(self.m[1] is f for f in eng.facts):
            m, x = fresh("least", Real), z3.Real("x")
            f = And(self.cnt(m) > 0, z3.ForAll([x], Implies(x < m, self.cnt(x) == 0)))
            eng.facts.append(f)
            self.m = (m, f)
        return self.m[0]

    def length(self, eng, ref): return self.size
    def truth(self, eng, ref): return self.size > 0

    def getitem(self, eng, ref, k):
        if k == 0 and isinstance(k, int):
            return self.least(eng)
        self.bad("subscript")

    def method(self, eng, ref, name, args, kw):
        c = self.cnt
        if name == "add" and len(args) == 1 and not kw:
            v = toreal(eng, args[0])
            eng.put(ref, SMulti(eng, lambda x: z3.If(x == v, c(x) + 1, c(x)), z3.simplify(self.size + 1)))
            return None
        if name == "pop" and (list(args) == [0] and not kw or not args and kw == {"index": 0}):
            m = self.least(eng)
            eng.put(ref, SMulti(eng, lambda x: z3.If(x == m, c(x) - 1, c(x)), z3.simplify(self.size - 1)))
            return m
        self.bad("method ." + name)

    def eq(self, eng, ref, o): self.bad("==")


class SnapLog(Value):
    """the snapshot graph being built, by the contract of SnapshotGraph.insert: the intervals stored,
    and (ghost) for an instant covered, an interval that covers it"""
    tname = "obj"

    def __init__(self, rec, cs, ce): self.rec, self.cs, self.ce = rec, cs, ce

    def method(self, eng, ref, name, args, kw):
        S, E = snap_key(eng, name, args, kw)
        rec, cs, ce = self.rec, self.cs, self.ce
        s, e = fresh("s", Real), fresh("e", Real)
        eng.oblige(eng.nm + ": no instant is covered by two snapshots",
                   Implies(And(rec(s, e), s < e, S < E), Or(e <= S, E <= s)))
        inn = lambda t: And(S <= t, t < E)
        eng.put(ref, SnapLog(lambda s, e: Or(rec(s, e), And(s == S, e == E)),
                             lambda t: z3.If(inn(t), S, cs(t)), lambda t: z3.If(inn(t), E, ce(t))))
        return None


class SnapColl(CollRec):
    """the same, as the collection of the intervals stored"""
    tname = "obj"
    def __init__(self, parts): CollRec.__init__(self, "set", parts)
    def contains(self, eng, ref, x): self.bad("in")
    def iter(self, eng, ref): self.bad("iteration")
    def method(self, eng, ref, name, args, kw):
        eng.put(ref, SnapColl(self.parts + (Part((), TRUE, snap_key(eng, name, args, kw)),)))
    def loop_base(self, eng): return LoopSnap("set")
    def loop_merge(self, eng, ref, results, part): return SnapColl(CollRec.loop_merge(self, eng, ref, results, part).parts)


class LoopSnap(LoopColl):
    def method(self, eng, ref, name, args, kw):
        eng.put(ref, LoopSnap("set", self.tail + (Part((), TRUE, snap_key(eng, name, args, kw)),)))
    def contains(self, eng, ref, x): self.bad("in")
    def loop_base(self, eng): raise Unsupported("nested loops that insert snapshots")


def snap_key(eng, name, args, kw):
    """the interval an insertion stores a snapshot under; what is stored must be faithful to it"""
    f = eng.byname["SnapshotGraph"].lookup(name)
    if name not in ("insert", "add_snapshot") or f is None:
        raise Unsupported("SnapshotGraph." + name)
    loc = eng.bind(f, Named("self"), args, kw)
    eng.used("SnapshotGraph." + name)
    if loc.get("ebunch") is not None:
        raise Unsupported("snapshot given by its edges")
    a, b, t = (loc[k] for k in ("start", "end", "time"))
    if t is not None and a is None and b is None:
        a = b = t
    elif t is not None or a is None or b is None:
        raise PyRaise(VExc("ValueError"))
    S, E = toreal(eng, a), toreal(eng, b)
    if eng.decide(S > E):
        raise PyRaise(VExc("ValueError"))
    g = loc["graph"]
    if not isinstance(g, Proj):
        raise Unsupported("snapshot %r" % (g,))
    cfg, L = eng.cfg, eng.L
    for k, v in eng.flags.items():
        w = eng.truth(g.args[k]) if not isinstance(g.args[k], bool) else g.args[k]
        eng.oblige(eng.nm + ": the option %s is passed on" % k, Iff(bool_(w), bool_(v)))
    eng.oblige(eng.nm + ": the snapshot is taken of this graph", TRUE if g.gref.id == eng.gid else FALSE)
    e, t = fresh("any", cfg.sort), fresh("instant", Real)
    eng.oblige(eng.nm + ": at every instant it covers, a snapshot holds exactly the edges present",
               Implies(And(L(e), Or(And(S <= t, t < E), And(S == t, t == E))), Iff(window(eng, cfg, e, g.args), alive(cfg, e, t))))
    return (S, E)


def alive(cfg, e, t):
    return And(edge_comp(e, 2) <= t, t < edge_comp(e, 3)) if cfg.interval else edge_comp(e, 2) == t


# ---------------------------------------------------------------- loops with given invariants
class Walk(Value):
    """a loop over a sequence of n elements whose invariant is given"""
    first = 0

    def elem(self, eng, k): raise NotImplementedError
    def havoc(self, eng, names): raise NotImplementedError
    def inv(self, eng, k): raise NotImplementedError


class CEngine(GEngine):
    def reset(self, trace):
        GEngine.reset(self, trace)
        self.theroot = Named("root")
        self.stage, self.nm, self.mode, self.seq = None, "", None, None

    def materialize(self, *a, **k):
        r = GEngine.materialize(self, *a, **k)
        if type(r.get("tree")) is ITree:
            r["tree"] = ITreeC(r["tree"].T)
        return r

    def nodeseq(self, T): return NodeSeq(self, T)

    def instantiate(self, cls, args, kw):
        if cls.name == "SnapshotGraph" and not args and not kw and self.mode in ("sweep", "coll"):
            self.used("SnapshotGraph.__init__")
            no = lambda *_: FALSE
            z = z3.Function("nowhere", Real, Real)
            return self.alloc(SnapLog(no, lambda t: z(t), lambda t: z(t)) if self.mode == "sweep" else SnapColl(()))
        if cls.name == "IntervalGraph" and not args and not kw and self.mode == "runs":
            self.used("IntervalGraph.__init__")
            return self.alloc(EdgeLog(()))
        return GEngine.instantiate(self, cls, args, kw)

    def hook_builtin(self, name, args, kw):
        if name in ("SortedList", "sortedcontainers.SortedList") and not args and not kw:
            return self.alloc(SMulti(self, lambda x: z3.IntVal(0), z3.IntVal(0)))
        return GEngine.hook_builtin(self, name, args, kw)

    # ---- loops
    def assigned(self, body):
        """variables the statements assign that hold a number now"""
        loc = self.fstack[-1].locals
        names = sorted({n.id for b in body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)})
        live = exposed(body, set())[0]
        return names, [n for n in names if n in loc and n in live and self.is_num(loc[n])]

    def need_inv(self, fs):
        """the invariant must hold here; a loop it does not fit is outside the method, not wrong"""
        for n, f in fs:
            f = bool_(f)
            if z3.is_true(f):
                self.on_obligation(n, None, None)
                continue
            st, who = Solver.check(list(self.ctx()) + [Not(f)])
            if st != "unsat":
                raise Unsupported("loop invariant not established: " + n)
            self.on_obligation(n, None, None)
            self.fact(f)

    def frozen(self, cells):
        return {i: r for i, r in self.heap.items() if i not in cells}

    def check_frozen(self, h):
        for i, r in h.items():
            if self.heap.get(i) is not r and not (isinstance(r, SMulti) and False):
                raise Unsupported("loop modifies %s" % type(r).__name__)

    def scramble(self, names, carried):
        loc = self.fstack[-1].locals
        for n in names:
            loc[n] = fresh(n, Real) if n in carried else Poison()

    def walk(self, s, A):
        n = A.n
        fr = self.fstack[-1]
        A.enter(self)
        if A.first:
            if not self.decide(n > 0):
                return self.block(s.orelse)
            self.one(s, A, z3.IntVal(0))
        names, carried = self.assigned([s])
        tn = target_names(s.target)
        carried = [c for c in carried if c not in tn]
        self.need_inv(A.inv(self, z3.IntVal(A.first), carried))
        self.scramble(names, carried)
        A.havoc(self)
        if self.decide(fresh("more", Bool)):
            k = fresh("k", Int)
            self.fact(And(A.first <= k, k < n))
            for _, f in A.inv(self, k, carried):
                self.fact(f)
            h = self.frozen(A.cells(self))
            self.one(s, A, k)
            self.check_frozen(h)
            c2 = [c for c in self.assigned([s])[1] if c not in tn and c in carried]
            if c2 != carried:
                raise Unsupported("loop updates a variable with a non-number")
            self.need_inv(A.inv(self, z3.simplify(k + 1), carried))
            raise Infeasible()
        for _, f in A.inv(self, n, carried):
            self.fact(f)
        A.leave(self)
        for x in tn:
            fr.locals[x] = Poison()
        self.block(s.orelse)

    def one(self, s, A, k):
        old, self.stage = self.stage, (A, k)
        self.assign(s.target, A.elem(self, k))
        try:
            self.block(s.body)
        except ContinueSig:
            pass
        except BreakSig:
            raise Unsupported("break out of a sweep")
        self.stage = old

    def for_over(self, s, it):
        A = None
        if isinstance(it, EdgeWalk):
            return edge_walk(self, s, it)
        if isinstance(it, Walk):
            A = it
        elif isinstance(it, HRef) and isinstance(self.heap[it.id], SMulti) and self.mode == "sweep":
            A = Rest(self, it)
        if A is not None:
            return self.walk(s, A) if not isinstance(A, Rest) else self.drain(s, A)
        return GEngine.for_over(self, s, it)

    def drain(self, s, A):
        """a loop over the sorted list: take the least, until none is left"""
        names, carried = self.assigned([s])
        tn = target_names(s.target)
        carried = [c for c in carried if c not in tn]
        none = not carried                # nothing pending: the variables were never set
        if none:
            if not Solver.quick_unsat(self.ctx() + [A.rest.size > 0]):
                raise Unsupported("loop variables of the closing sweep")
            return self.block(s.orelse)
        self.need_inv(A.inv(self, carried))
        self.scramble(names, carried)
        A.havoc(self)
        for _, f in A.inv(self, carried):
            self.fact(f)
        if self.decide(A.rest.size > 0):
            h = self.frozen(A.cells(self))
            m = A.rest.least(self)
            c = A.rest.cnt
            self.assign(s.target, m)
            A.rest = SMulti(self, lambda x: z3.If(x == m, c(x) - 1, c(x)), z3.simplify(A.rest.size - 1))
            try:
                self.block(s.body)
            except ContinueSig:
                pass
            except BreakSig:
                raise Unsupported("break out of a sweep")
            self.check_frozen(h)
            self.need_inv(A.inv(self, carried))
            raise Infeasible()
        for x in tn:
            self.fstack[-1].locals[x] = Poison()
        self.block(s.orelse)

    def s_While(self, s):
        if self.mode != "sweep" or self.stage is None:
            if self.mode != "sweep" or getattr(self, "seq", None) is None:
                return GEngine.s_While(self, s)
            A, k = Closing(self.seq), None
            if not self.assigned([s])[1]:
                if not Solver.quick_unsat(self.ctx() + [A.pending(self).size > 0]):
                    raise Unsupported("loop variables of the closing sweep")
                if self.decide(bool_(self.truth(self.eval(s.test)))):
                    raise Unsupported("loop of the closing sweep")
                return self.block(s.orelse)
            A.carried = self.assigned([s])[1]
        else:
            A, k = self.stage
        names, carried = self.assigned(s.body)
        carried = [c for c in carried if c in A.carried]
        base = lambda: A.inner(self, k, carried)
        # does the test itself need a pending end?
        self.need_inv(base())
        test = lambda: self.truth(self.eval(s.test))
        fr = self.fstack[-1]
        snap = self.snapshot()
        self.scramble(names, carried)
        A.havoc(self)
        for _, f in base():
            self.fact(f)
        need = any(r.kind == "raise" for r in self.explore(lambda: self.decide(bool_(test()))))
        self.restore(snap)
        inv = lambda: base() + ([("the loop test can be evaluated", A.pending(self).size > 0)] if need else [])
        self.need_inv(inv())
        self.scramble(names, carried)
        A.havoc(self)
        for _, f in inv():
            self.fact(f)
        h = self.frozen(A.cells(self))
        if not self.decide(bool_(test())):
            return self.block(s.orelse)
        try:
            self.block(s.body)
        except BreakSig:
            return
        except ContinueSig:
            pass
        self.check_frozen(h)
        self.need_inv(inv())
        raise Infeasible()


def exposed(body, defined):
    """names the statements may read before they assign them; names they assign on every way through"""
    out, d = set(), set(defined)
    reads = lambda *xs: {n.id for x in xs if x is not None for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
    writes = lambda x: {n.id for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    for s in body:
        if isinstance(s, ast.Assign):
            out |= reads(s) - d
            for t in s.targets:
                d |= writes(t)
        elif isinstance(s, ast.AugAssign):
            out |= (reads(s) | writes(s.target)) - d
            d |= writes(s.target)
        elif isinstance(s, ast.If):
            out |= reads(s.test) - d
            a, da = exposed(s.body, d)
            b, db = exposed(s.orelse, d)
            out |= a | b
            if da is None and db is None:
                return out, None
            d |= db if da is None else da if db is None else da & db
        elif isinstance(s, ast.For):
            out |= reads(s.iter) - d
            out |= exposed(s.body, d | writes(s.target))[0] | exposed(s.orelse, d)[0]
        elif isinstance(s, ast.While):
            out |= reads(s.test) - d
            out |= exposed(s.body, d)[0] | exposed(s.orelse, d)[0]
        elif isinstance(s, (ast.Continue, ast.Break, ast.Return, ast.Raise)):
            return out | (reads(s) - d), None
        else:
            out |= reads(s) | (writes(s) - d if not isinstance(s, ast.Expr) else set())
            out -= d
    return out, d


def the_cell(eng, kind):
    cs = [i for i, r in eng.heap.items() if isinstance(r, kind)]
    if len(cs) != 1:
        raise Unsupported("%d values of kind %s" % (len(cs), kind.__name__))
    return cs[0]


# ---------------------------------------------------------------- the sweep over an interval graph
class NodeSeq(Walk):
    """the tree's intervals in order, and the invariant of the sweep over them"""
    first = 1

    def __init__(self, eng, T):
        self.n = z3.Int("intervals")
        self.lo, self.hi = z3.Function("low", Int, Real), z3.Function("high", Int, Real)
        at, wit = z3.Function("place", IEdge, Int), z3.Function("edge_of", Int, IEdge)
        lo, hi, n = self.lo, self.hi, self.n
        i, j, e = z3.Int("i"), z3.Int("j"), z3.Const("e", IEdge)
        ok = lambda i: And(0 <= i, i < n)
        eng.fact(n >= 0)
        eng.facts.append(z3.ForAll([i, j], Implies(And(0 <= i, i < j, j < n), Or(lo(i) < lo(j), And(lo(i) == lo(j), hi(i) < hi(j)))),
                                   patterns=[z3.MultiPattern(lo(i), lo(j))]))
        for p in (lo, hi):
            eng.facts.append(z3.ForAll([i], Implies(ok(i), And(T(wit(i)), IEdge.ib(wit(i)) == lo(i), IEdge.in_(wit(i)) == hi(i), lo(i) < hi(i), hi(i) < INF, NINF < lo(i))), patterns=[p(i)]))
        eng.facts.append(z3.ForAll([e], Implies(T(e), And(ok(at(e)), lo(at(e)) == IEdge.ib(e), hi(at(e)) == IEdge.in_(e))), patterns=[T(e)]))
        eng.seq = self
        self.carried = []

    def elem(self, eng, k): return SNode(self, k)
    def enter(self, eng): pass
    def leave(self, eng): eng.fact(TRUE)
    def cells(self, eng): return (the_cell(eng, SMulti), the_cell(eng, SnapLog))
    def pending(self, eng): return eng.heap[the_cell(eng, SMulti)]

    def begin(self, eng, carried):
        loc = eng.fstack[-1].locals
        if len(carried) != 1:
            raise Unsupported("the sweep carries %d numbers" % len(carried))
        return toreal(eng, loc[carried[0]])

    def havoc(self, eng):
        a, b = self.cells(eng)
        cnt = fresh_fun("cnt", Real, Int)
        eng.heap[a] = SMulti(eng, lambda x: cnt(x), fresh("size", Int))
        eng.heap[b] = fresh_log()

    def common(self, eng, B, k, p):
        """k intervals seen: the pending ends, and what has been stored so far"""
        lo, hi = self.lo, self.hi
        x, j = z3.Real("x"), z3.Int("j")
        fs = [("the sweep has reached a begin already seen", And(lo(0) <= B, lo(z3.simplify(k - 1)) <= B)),
              ("pending ends are not before the sweep", z3.ForAll([x], Implies(p.cnt(x) > 0, x >= B))),
              ("every later end seen is pending", z3.ForAll([j], Implies(And(0 <= j, j < k, hi(j) > B), p.cnt(hi(j)) > 0), patterns=[hi(j)]))]
        return fs + stored(eng, lo(0), B)

    def inv(self, eng, k, carried):
        self.carried = carried
        B = self.begin(eng, carried)
        return [("the sweep is at the begin of the last interval", B == self.lo(z3.simplify(k - 1)))] + self.common(eng, B, k, self.pending(eng))

    def inner(self, eng, k, carried):
        B = self.begin(eng, carried)
        # (up to the begin of the interval being added)
        return [("the sweep is not past the begin of the new interval", B <= self.lo(k))] + self.common(eng, B, k, self.pending(eng))


def fresh_log():
    r, cs, ce = fresh_fun("rec", Real, Real, Bool), fresh_fun("cs", Real, Real), fresh_fun("ce", Real, Real)
    return SnapLog(lambda s, e: r(s, e), lambda t: cs(t), lambda t: ce(t))


def stored(eng, start, B):
    g = eng.heap[the_cell(eng, SnapLog)]
    s, e, t = z3.Real("s"), z3.Real("e"), z3.Real("t")
    return [("stored snapshots lie before the sweep", z3.ForAll([s, e], Implies(g.rec(s, e), And(start <= s, s <= e, e <= B)))),
            ("every instant before the sweep is covered",
             z3.ForAll([t], Implies(And(start <= t, t < B), And(g.rec(g.cs(t), g.ce(t)), g.cs(t) <= t, t < g.ce(t)))))]


class Closing:
    """a loop after the last interval that takes the pending ends one by one"""
    def __init__(self, seq): self.seq = seq
    def cells(self, eng): return self.seq.cells(eng)
    def pending(self, eng): return self.seq.pending(eng)
    def havoc(self, eng): self.seq.havoc(eng)
    def inner(self, eng, k, carried): return self.seq.common(eng, self.seq.begin(eng, carried), self.seq.n, self.pending(eng))


class Rest(Walk):
    """the pending ends, taken in order after the last interval"""
    def __init__(self, eng, ref):
        self.rest, self.ref = eng.heap[ref.id], ref

    def cells(self, eng): return (the_cell(eng, SnapLog),)

    def havoc(self, eng):
        cnt = fresh_fun("cnt", Real, Int)
        self.rest = SMulti(eng, lambda x: cnt(x), fresh("size", Int))
        eng.heap[the_cell(eng, SnapLog)] = fresh_log()

    def inv(self, eng, carried):
        q = eng.seq
        return q.common(eng, q.begin(eng, carried), q.n, self.rest)


def conv_setup(cfg, mode, fl=ANY):
    def setup(eng):
        g = arb_graph(eng, cfg, None)
        eng.mode, eng.nm, eng.cfg, eng.flags = mode, "%s.to_snapshot_graph" % cfg.name, cfg, flag_args(cfg, fl)
        S = eng.heap[eng.heap[g.id].ghost.id]
        eng.L, eng.gid = S.L, g.id
        e = z3.Const("e", cfg.sort)
        if cfg.interval:
            eng.fact(Forall([e], Implies(S.L(e), edge_comp(e, 2) < edge_comp(e, 3))))
        return g, [], dict(eng.flags), {}
    return setup


def t_interval(cfg):
    def post(eng, I, kind, rv):
        nm = eng.nm
        if not no_raise(eng, nm, kind, rv):
            return
        r = eng.rec(rv)[0] if isinstance(rv, Value) else None
        if not isinstance(r, SnapLog):
            raise Unsupported("result of to_snapshot_graph")
        e, t = fresh("any", cfg.sort), fresh("instant", Real)
        if getattr(eng, "seq", None) is None:
            raise Unsupported("the tree is not listed in order")
        eng.oblige(nm + ": every instant of a stored edge is covered by a snapshot",
                   Implies(And(I["S0"].L(e), alive(cfg, e, t)), And(r.rec(r.cs(t), r.ce(t)), r.cs(t) <= t, t < r.ce(t))))
        check_state(eng, I["g"], I["S0"], nm)
    return task(cfg, "to_snapshot_graph", "any options", conv_setup(cfg, "sweep"), post)


def t_impulse(cfg):
    def post(eng, I, kind, rv):
        nm = eng.nm
        if not no_raise(eng, nm, kind, rv):
            return
        r = eng.rec(rv)[0] if isinstance(rv, Value) else None
        if not isinstance(r, SnapColl):
            raise Unsupported("result of to_snapshot_graph")
        e, t = fresh("any", cfg.sort), fresh("instant", Real)
        cov = lambda p: Or(And(p.elem[0] <= t, t < p.elem[1]), And(p.elem[0] == t, t == p.elem[1]))
        eng.oblige(nm + ": every instant of a stored edge is covered by a snapshot",
                   Implies(And(I["S0"].L(e), alive(cfg, e, t)), Or([Exists(p.vars, And(p.guard, cov(p))) for p in map(rename, r.parts)])))
        ps = list(r.parts)
        for i, p in enumerate(ps):
            for q in ps[i:]:
                p, q = rename(p), rename(q)
                eng.oblige(nm + ": no instant is covered by two snapshots",
                           Implies(And(p.guard, q.guard, cov(p), cov(q)), And(p.elem[0] == q.elem[0], p.elem[1] == q.elem[1])))
        check_state(eng, I["g"], I["S0"], nm)
    return task(cfg, "to_snapshot_graph", "any options", conv_setup(cfg, "coll"), post)


def conv_tasks():
    out = []
    for cfg in CFGS.values():
        out.append((t_interval if cfg.interval else t_impulse)(cfg))
    out += runs_tasks()
    for t in out:
        t.engine, t.props = CEngine, {"C21"}
    return out



# ---------------------------------------------------------------- from_snapshot_graph
class SGArg(Value):
    """a snapshot graph of simple undirected graphs: snapshot k has the edges {a, b} with has(k, a, b)"""
    tname = "obj"

    def __init__(self, eng):
        self.n = z3.Int("snapshots")
        self.p = z3.Function("has_edge", Int, Nd, Nd, Bool)
        self.T = z3.Function("time_of", Int, Real)
        a, b, k, l = z3.Const("a", Nd), z3.Const("b", Nd), z3.Int("k"), z3.Int("l")
        eng.fact(self.n >= 0)
        eng.facts.append(z3.ForAll([k, a, b], self.p(k, a, b) == self.p(k, b, a), patterns=[self.p(k, a, b)]))
        # snapshot k stands for the time from begin + k * period on
        eng.period, eng.begin0 = z3.Real("period"), z3.Real("begin")
        eng.fact(And(eng.period > 0, self.T(0) == eng.begin0))
        eng.facts.append(z3.ForAll([k, l], Implies(k < l, self.T(k) < self.T(l)), patterns=[z3.MultiPattern(self.T(k), self.T(l))]))
        eng.facts.append(z3.ForAll([k], And(NINF < self.T(k), self.T(k) < INF), patterns=[self.T(k)]))

    def iter(self, eng, ref): self.bad("iteration")
    def method(self, eng, ref, name, args, kw):
        if name == "get" and not args and not kw:
            eng.used("SnapshotGraph.get")
            return SnapWalk(self)
        self.bad("method ." + name)
    def length(self, eng, ref): return self.n


class SnapOne(Value):
    """snapshot k"""
    def __init__(self, sg, k): self.sg, self.k = sg, k
    def method(self, eng, ref, name, args, kw):
        if name == "edges":
            d = args[0] if args else kw.get("data", False)
            if isinstance(d, bool) and len(args) + len(kw) <= 1:
                return EdgeWalk(self, d)
        if name in ("is_directed", "is_multigraph") and not args and not kw:
            return False
        self.bad("method ." + name)
    def getattr(self, eng, ref, name):
        return EdgeWalk(self, False) if name == "edges" else BoundM(self, name)


class Data(Value):
    """the attributes of an edge of a snapshot"""
    tname = "dict"
    def __init__(self, tag): self.tag = tag
    def subst(self, pairs): return self


class EDict(Value):
    """a dictionary from ordered pairs to dictionaries from numbers to (number, attributes)"""
    tname = "dict"

    def __init__(self, K, has, beg): self.K, self.has, self.beg = K, has, beg

    def pair(self, k):
        if isinstance(k, tuple) and len(k) == 2:
            a, b = as_nd(k[0]), as_nd(k[1])
            if a is not None and b is not None:
                return a, b
        raise Unsupported("key of the pairs seen")

    def contains(self, eng, ref, k): return self.K(*self.pair(k))
    def truth(self, eng, ref): self.bad("truth")
    def iter(self, eng, ref):
        a, b = fresh("a", Nd), fresh("b", Nd)
        return Fam([Part((a, b), self.K(a, b), (a, b))], "list", (ref.id,))

    def getitem(self, eng, ref, k):
        p = self.pair(k)
        if not eng.decide(self.K(*p)):
            raise PyRaise(VExc("KeyError"))
        return Inner(ref, p)

    def setitem(self, eng, ref, k, v):
        u, w = self.pair(k)
        r = eng.heap[v.id] if isinstance(v, HRef) else None
        if not isinstance(r, DictRec) or r.groups or any(p.vars for p in r.entries):
            raise Unsupported("entry of the pairs seen")
        K, has = self.K, self.has
        eng.put(ref, EDict(lambda a, b: Or(K(a, b), And(a == u, b == w)), lambda a, b, x: And(has(a, b, x), Not(And(a == u, b == w))), self.beg))
        for p in r.entries:
            Inner(ref, (u, w)).setitem(eng, None, *p.elem)

    def method(self, eng, ref, name, args, kw):
        if name in ("items", "keys") and not args and not kw:
            f = self.iter(eng, ref)
            if name == "keys":
                return f
            p = f.parts[0]
            return Fam([Part(p.vars, p.guard, (p.elem, Inner(ref, p.elem)))], "list", f.live)
        if name == "setdefault" and len(args) == 2:
            if not eng.decide(self.K(*self.pair(args[0]))):
                self.setitem(eng, ref, *args)
            return Inner(ref, self.pair(args[0]))
        if name == "get" and len(args) in (1, 2) and not kw:
            if eng.decide(self.K(*self.pair(args[0]))):
                return Inner(ref, self.pair(args[0]))
            return args[1] if len(args) == 2 else None
        self.bad("method ." + name)

    def loop_base(self, eng): raise Unsupported("loop over anything but the snapshots updates the pairs seen")


class Inner(Value):
    """the dictionary of one pair"""
    tname = "dict"

    def __init__(self, ref, p): self.ref, self.p = ref, p
    def subst(self, pairs): return Inner(self.ref, vsubst(self.p, pairs))
    def free(self): return vfree(self.p)
    def D(self, eng): return eng.heap[self.ref.id]
    def contains(self, eng, ref, k): return self.D(eng).has(*self.p, toreal(eng, k))
    def iter(self, eng, ref):
        x = fresh("x", Real)
        return Fam([Part((x,), self.D(eng).has(*self.p, x), x)], "list", (self.ref.id,))
    def truth(self, eng, ref): return self.iter(eng, ref).truth(eng, ref)

    def at(self, eng, x): return (self.D(eng).beg(*self.p, x), Data((self.p, x)))

    def getitem(self, eng, ref, k):
        x = toreal(eng, k)
        if not eng.decide(self.D(eng).has(*self.p, x)):
            raise PyRaise(VExc("KeyError"))
        return self.at(eng, x)

    def setitem(self, eng, ref, k, v):
        x, d = toreal(eng, k), self.D(eng)
        u, w = self.p
        if not (isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], Data)):
            raise Unsupported("entry of a pair")
        n = toreal(eng, v[0])
        here = lambda a, b, y: And(a == u, b == w, y == x)
        has, beg = d.has, d.beg
        eng.put(self.ref, EDict(d.K, lambda a, b, y: Or(has(a, b, y), here(a, b, y)), lambda a, b, y: z3.If(here(a, b, y), n, beg(a, b, y))))

    def delitem(self, eng, ref, k):
        x, d = toreal(eng, k), self.D(eng)
        u, w = self.p
        if not eng.decide(d.has(u, w, x)):
            raise PyRaise(VExc("KeyError"))
        has = d.has
        eng.put(self.ref, EDict(d.K, lambda a, b, y: And(has(a, b, y), Not(And(a == u, b == w, y == x))), d.beg))

    def method(self, eng, ref, name, args, kw):
        if name == "pop" and len(args) == 1 and not kw:
            v = self.getitem(eng, ref, args[0])
            self.delitem(eng, ref, args[0])
            return v
        if name in ("items", "keys") and not args and not kw:
            f = self.iter(eng, ref)
            if name == "keys":
                return f
            p = f.parts[0]
            return Fam([Part(p.vars, p.guard, (p.elem, self.at(eng, p.elem)))], "list", f.live)
        self.bad("method ." + name)


class EdgeLog(CollRec):
    """the interval graph being built, by the contract of add_edge: the edges given"""
    tname = "obj"
    def __init__(self, parts): CollRec.__init__(self, "set", parts)
    def contains(self, eng, ref, x): self.bad("in")
    def iter(self, eng, ref): self.bad("iteration")
    def method(self, eng, ref, name, args, kw):
        eng.put(ref, EdgeLog(self.parts + (Part((), TRUE, edge_given(eng, name, args, kw)),)))
    def loop_base(self, eng): return LoopEdges("set")
    def loop_merge(self, eng, ref, results, part): return EdgeLog(CollRec.loop_merge(self, eng, ref, results, part).parts)


class LoopEdges(LoopColl):
    def method(self, eng, ref, name, args, kw):
        eng.put(ref, LoopEdges("set", self.tail + (Part((), TRUE, edge_given(eng, name, args, kw)),)))
    def contains(self, eng, ref, x): self.bad("in")
    def loop_base(self, eng): return LoopEdges("set")
    def loop_merge(self, eng, ref, results, part): return LoopEdges("set", LoopColl.loop_merge(self, eng, ref, results, part).tail)


def edge_given(eng, name, args, kw):
    if name != "add_edge":
        raise Unsupported("IntervalGraph." + name)
    eng.used("IntervalGraph.add_edge")
    kw = dict(kw)
    if not isinstance(kw.pop("**", None), (Data, type(None))):
        raise Unsupported("attributes given to add_edge")
    names = ["u", "v", "begin", "end"]
    loc = dict(zip(names, args), **{k: kw.pop(k) for k in names if k in kw})
    if kw or set(loc) != set(names) or len(args) > 4:
        raise Unsupported("arguments of add_edge")
    b, n = toreal(eng, loc["begin"]), toreal(eng, loc["end"])
    eng.oblige(eng.nm + ": an edge is added with begin <= end", b <= n)
    return (as_nd(loc["u"]), as_nd(loc["v"]), b, n)


class Ghost:
    """for an entry of a pair, the first and one past the last snapshot of its run; for a snapshot with the
    pair, one past the last snapshot of the run it is in"""
    def __init__(self, si, sj, re): self.si, self.sj, self.re = si, sj, re


class SnapWalk(Walk):
    """the loop over the snapshots; the invariant: the entries of a pair are the runs of consecutive
    snapshots with the pair among those seen"""
    def __init__(self, sg): self.sg, self.n = sg, sg.n
    def elem(self, eng, k): return SnapOne(self.sg, k)

    def enter(self, eng):
        z = lambda *_: z3.IntVal(0)
        eng.ghost, eng.sg = Ghost(z, z, z), self.sg
        i = the_cell_dict(eng)
        r = eng.heap[i]
        if isinstance(r, DictRec):
            if r.entries or r.groups:
                raise Unsupported("pairs seen before any snapshot")
            no = lambda *_: FALSE
            f = z3.Function("nobegin", Nd, Nd, Real, Real)
            eng.heap[i] = EDict(no, no, lambda a, b, x: f(a, b, x))
    def leave(self, eng): pass
    def cells(self, eng): return (the_cell(eng, EDict),)

    def havoc(self, eng):
        K, has, beg = fresh_fun("seen", Nd, Nd, Bool), fresh_fun("run", Nd, Nd, Real, Bool), fresh_fun("from", Nd, Nd, Real, Real)
        eng.heap[self.cells(eng)[0]] = EDict(lambda a, b: K(a, b), lambda a, b, x: has(a, b, x), lambda a, b, x: beg(a, b, x))
        si, sj, re = fresh_fun("si", Nd, Nd, Real, Int), fresh_fun("sj", Nd, Nd, Real, Int), fresh_fun("re", Nd, Nd, Int, Int)
        eng.ghost = Ghost(lambda a, b, x: si(a, b, x), lambda a, b, x: sj(a, b, x), lambda a, b, m: re(a, b, m))

    def inv(self, eng, k, carried):
        eng.carried = carried
        return self.clock(eng, k, carried) + self.runs(eng, lambda a, b: k, k)

    def clock(self, eng, k, carried):
        if len(carried) != 1:
            raise Unsupported("the loop over the snapshots carries %d numbers" % len(carried))
        eng.fact(self.sg.T(z3.simplify(k + 1)) == self.sg.T(k) + eng.period)
        if not z3.is_int_value(k):
            eng.fact(self.sg.T(k) == self.sg.T(z3.simplify(k - 1)) + eng.period)
        return [("the time advances by one period a snapshot", toreal(eng, eng.fstack[-1].locals[carried[0]]) == self.sg.T(k))]

    def runs(self, eng, stage, top):
        d, g, p, T = eng.heap[self.cells(eng)[0]], eng.ghost, self.sg.p, self.sg.T
        a, b, x, m = z3.Const("a", Nd), z3.Const("b", Nd), z3.Real("x"), z3.Int("m")
        q = stage(a, b)
        si, sj, re = g.si(a, b, x), g.sj(a, b, x), g.re(a, b, m)
        H = d.has(a, b, x)
        return [
            ("a pair is kept one way round", z3.ForAll([a, b], Implies(And(d.K(a, b), d.K(b, a)), a == b))),
            ("every pair of a snapshot seen is kept", z3.ForAll([a, b, m], Implies(And(0 <= m, m < q, p(m, a, b)), Or(d.K(a, b), d.K(b, a))), patterns=[p(m, a, b)])),
            ("an entry belongs to a pair", z3.ForAll([a, b, x], Implies(H, d.K(a, b)))),
            ("an entry spans snapshots seen", z3.ForAll([a, b, x], Implies(H, And(0 <= si, si < sj, sj <= q, x == T(sj), d.beg(a, b, x) == T(si))))),
            ("the pair is in every snapshot of an entry", z3.ForAll([a, b, x, m], Implies(And(H, si <= m, m < sj), p(m, a, b)))),
            ("the pair is not in the snapshot before an entry", z3.ForAll([a, b, x], Implies(And(H, si > 0), Not(p(si - 1, a, b))))),
            ("the pair is not in the snapshot after an entry", z3.ForAll([a, b, x], Implies(And(H, sj < q), Not(p(sj, a, b))))),
            ("every snapshot seen with the pair is in an entry", z3.ForAll([a, b, m], Implies(And(0 <= m, m < q, d.K(a, b), p(m, a, b)),
                And(d.has(a, b, T(re)), re > m, g.si(a, b, T(re)) <= m, g.sj(a, b, T(re)) == re)), patterns=[p(m, a, b)])),
        ]


class EdgeWalk(Walk):
    """the loop over the edges of one snapshot, each once, in any order, written either way round"""
    def __init__(self, one, data):
        self.one, self.data, self.n = one, data, z3.Int("edges_of_snapshot")

    def call(self, eng, ref, args, kw): return self.one.method(eng, ref, "edges", args, kw)
    def enter(self, eng): raise Unsupported("nested sweep")


def the_cell_dict(eng):
    loc = eng.fstack[-1].locals
    cs = {v.id for v in loc.values() if isinstance(v, HRef) and isinstance(eng.heap[v.id], (DictRec, EDict))}
    if len(cs) != 1:
        raise Unsupported("%d dictionaries when the sweep starts" % len(cs))
    return cs.pop()


def edge_walk(eng, s, A):
    """the inner loop"""
    if eng.stage is None or not isinstance(eng.stage[0], SnapWalk):
        raise Unsupported("edges of a snapshot outside the sweep")
    W, k = eng.stage
    sg, T, p = A.one.sg, A.one.sg.T, A.one.sg.p
    if not z3.is_true(z3.simplify(A.one.k == k)):
        raise Unsupported("edges of another snapshot")
    names, num = eng.assigned([s])
    tn = target_names(s.target)
    carried = [c for c in num if c not in tn]
    k1 = z3.simplify(k + 1)
    none = lambda a, b: k
    loc = eng.fstack[-1].locals
    eng.fact(T(k1) == T(k) + eng.period)

    def scramble():
        for n in names:
            loc = eng.fstack[-1].locals
            loc[n] = Poison()
    if carried:
        raise Unsupported("loop over edges updates a number")
    eng.need_inv(W.runs(eng, none, k))
    W.havoc(eng)
    scramble()
    if eng.decide(fresh("more", Bool)):
        vis = fresh_fun("visited", Nd, Nd, Bool)
        a, b = z3.Const("a", Nd), z3.Const("b", Nd)
        eng.facts.append(z3.ForAll([a, b], And(vis(a, b) == vis(b, a), Implies(vis(a, b), p(k, a, b))), patterns=[vis(a, b)]))
        stage = lambda a, b: z3.If(vis(a, b), k1, k)
        for _, f in W.runs(eng, stage, k1):
            eng.fact(f)
        u, v = fresh("u", Nd), fresh("v", Nd)
        eng.fact(And(p(k, u, v), Not(vis(u, v))))
        eng.assign(s.target, (u, v, Data("own")) if A.data else (u, v))
        h = eng.frozen(W.cells(eng))
        g = eng.ghost
        # whichever way round the pair is kept
        try:
            eng.block(s.body)
        except ContinueSig:
            pass
        except BreakSig:
            raise Unsupported("break out of a sweep")
        eng.check_frozen(h)
        me = lambda a, b: Or(And(a == u, b == v), And(a == v, b == u))
        before = And(k > 0, p(z3.simplify(k - 1), u, v))
        eng.ghost = Ghost(lambda a, b, x: z3.If(And(me(a, b), x == T(k1)), z3.If(before, g.si(a, b, T(k)), k), g.si(a, b, x)),
                          lambda a, b, x: z3.If(And(me(a, b), x == T(k1)), k1, g.sj(a, b, x)),
                          lambda a, b, m: z3.If(And(me(a, b), Or(m == k, g.re(a, b, m) == k)), k1, g.re(a, b, m)))
        eng.need_inv(W.runs(eng, lambda a, b: z3.If(Or(vis(a, b), me(a, b)), k1, k), k1))
        raise Infeasible()
    a, b = z3.Const("a", Nd), z3.Const("b", Nd)
    for _, f in W.runs(eng, lambda a, b: z3.If(p(k, a, b), k1, k), k1):
        eng.fact(f)
    eng.block(s.orelse)


def t_runs():
    cfg = CFGS["IntervalGraph"]

    def setup(eng):
        eng.mode, eng.nm, eng.cfg = "runs", "IntervalGraph.from_snapshot_graph", cfg
        sg = SGArg(eng)
        eng.sg = None
        return None, [sg], {"begin": eng.begin0, "period": eng.period}, {"sg": sg}

    def post(eng, I, kind, rv):
        nm = eng.nm
        if not no_raise(eng, nm, kind, rv):
            return
        r = eng.rec(rv)[0] if isinstance(rv, Value) else None
        if not isinstance(r, EdgeLog) or eng.sg is None:
            raise Unsupported("result of from_snapshot_graph")
        sg = I["sg"]
        p, T, n = sg.p, sg.T, sg.n
        g = eng.ghost
        # a maximal run of snapshots with the pair
        m = fresh("m", Int)
        def run(a, b, i, j):
            x = z3.Int("x")
            return And(0 <= i, i < j, j <= n, z3.ForAll([x], Implies(And(i <= x, x < j), p(x, a, b)), patterns=[p(x, a, b)]),
                       Or(i == 0, Not(p(i - 1, a, b))), Or(j == n, Not(p(j, a, b))))
        parts = [rename(q) for q in r.parts]
        for q in parts:
            a, b, t0, t1 = q.elem
            i, j = g.si(a, b, t1), g.sj(a, b, t1)
            h = And(q.guard)
            eng.oblige(nm + ": an edge spans snapshots", Implies(h, And(0 <= i, i < j, j <= n, t0 == T(i), t1 == T(j))))
            eng.oblige(nm + ": the pair is in every snapshot its edge spans", Implies(And(h, i <= m, m < j), p(m, a, b)))
            eng.oblige(nm + ": an edge spans all the consecutive snapshots with its pair", Implies(h, And(Or(i == 0, Not(p(i - 1, a, b))), Or(j == n, Not(p(j, a, b))))))
        a, b, i, j = fresh("a", Nd), fresh("b", Nd), fresh("i", Int), fresh("j", Int)
        eng.oblige(nm + ": every run of consecutive snapshots with a pair gives an edge",
                   Implies(And(run(a, b, i, j), p(i, a, b), p(j - 1, a, b)), Or([Exists(q.vars, And(q.guard, Or(And(q.elem[0] == a, q.elem[1] == b), And(q.elem[0] == b, q.elem[1] == a)),
                                                                      q.elem[2] == T(i), q.elem[3] == T(j))) for q in map(rename, r.parts)])))
        for q1 in r.parts:
            for q2 in r.parts:
                x, y = rename(q1), rename(q2)
                e, f = x.elem, y.elem
                eng.oblige(nm + ": a pair has one edge at a time",
                           Implies(And(x.guard, y.guard, Or(And(e[0] == f[0], e[1] == f[1]), And(e[0] == f[1], e[1] == f[0])), e[2] <= f[2], f[2] < e[3]),
                                   And(e[2] == f[2], e[3] == f[3])))
    return task(cfg, "from_snapshot_graph", "undirected simple snapshots", setup, post)


def runs_tasks(): return [t_runs()]
