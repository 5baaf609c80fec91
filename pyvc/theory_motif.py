"""Keys of the motif counter (tuples of node labels, two per edge), the dictionary of counts, and
the summary of loops that update it.

A loop over a family of distinct elements that writes one entry per element (and per element of
loops inside it) is summarised without an invariant: the entries written are proved distinct, each
entry read is proved to be either untouched by the iterations before it (its value is the one before
the loop) or untouched by those that follow (its value is the one after the loop)."""
from .graph_engine import *
from .theory_graph import *
from .specs_conv import CEngine, exposed

Ky = z3.DeclareSort("Ky")
NIL = z3.Const("empty_key", Ky)
SNOC = z3.Function("snoc", Ky, Nd, Nd, Ky)      # prefix + (u, v)
CONS = z3.Function("cons", Nd, Nd, Ky, Ky)      # (u, v) + suffix
N = z3.Function("pairs", Ky, Int)               # len / 2
INIT, TAIL = z3.Function("init", Ky, Ky), z3.Function("tail", Ky, Ky)
LU, LV, FU, FV = (z3.Function(x, Ky, Nd) for x in ("last_u", "last_v", "first_u", "first_v"))
KQ = z3.Function("label_at", Ky, Int, Nd)
LT = z3.Function("label_less", Nd, Nd, Bool)

_k, _u, _v, _i = z3.Const("k", Ky), z3.Const("u", Nd), z3.Const("v", Nd), z3.Int("i")
KEY_AXIOMS = [
    z3.ForAll([_k], N(_k) >= 0, patterns=[N(_k)]),
    N(NIL) == 0,
    z3.ForAll([_k], Implies(N(_k) == 0, _k == NIL), patterns=[N(_k)]),
    z3.ForAll([_k, _u, _v], And(N(SNOC(_k, _u, _v)) == N(_k) + 1, INIT(SNOC(_k, _u, _v)) == _k, LU(SNOC(_k, _u, _v)) == _u, LV(SNOC(_k, _u, _v)) == _v),
              patterns=[SNOC(_k, _u, _v)]),
    z3.ForAll([_k, _u, _v], And(N(CONS(_u, _v, _k)) == N(_k) + 1, TAIL(CONS(_u, _v, _k)) == _k, FU(CONS(_u, _v, _k)) == _u, FV(CONS(_u, _v, _k)) == _v),
              patterns=[CONS(_u, _v, _k)]),
    z3.ForAll([_k], Implies(N(_k) >= 1, And(_k == SNOC(INIT(_k), LU(_k), LV(_k)), N(INIT(_k)) == N(_k) - 1)), patterns=[INIT(_k)]),
    z3.ForAll([_k], Implies(N(_k) >= 1, And(_k == CONS(FU(_k), FV(_k), TAIL(_k)), N(TAIL(_k)) == N(_k) - 1)), patterns=[TAIL(_k)]),
    z3.ForAll([_u, _v], SNOC(NIL, _u, _v) == CONS(_u, _v, NIL), patterns=[SNOC(NIL, _u, _v)]),
    z3.ForAll([_u, _v], SNOC(NIL, _u, _v) == CONS(_u, _v, NIL), patterns=[CONS(_u, _v, NIL)]),
]


def is_key(x): return isinstance(x, z3.ExprRef) and x.sort() == Ky


def to_key(k):
    if is_key(k):
        return k
    if isinstance(k, tuple) and len(k) % 2 == 0 and all(isinstance(x, z3.ExprRef) and x.sort() == Nd for x in k):
        r = NIL
        for i in range(0, len(k), 2):
            r = SNOC(r, k[i], k[i + 1])
        return r
    raise Unsupported("key %r" % (k,))


def apps(t, decls):
    """applications of the given functions in a term"""
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and any(x.decl().eq(d) for d in decls):
            out.append(x)
        st.extend(x.children() if not z3.is_quantifier(x) else [x.body()])
    return out


class W:
    """entries written: for every value of vars with guard, entry key becomes val"""
    def __init__(self, vars, guard, key, val): self.vars, self.guard, self.key, self.val = tuple(vars), guard, key, val

    def sub(self, pairs): return W(self.vars, subst(self.guard, pairs), subst(self.key, pairs), subst(self.val, pairs))

    def rename(self):
        ps = [(x, fresh(str(x).split("!")[0], x.sort())) for x in self.vars]
        w = self.sub(ps)
        w.vars = tuple(b for _, b in ps)
        return w


def invert(w):
    """the values of w.vars that write entry k, as functions of k, and the condition that there are some"""
    def go(k):
        t, cur, sol, conds, rest = w.key, k, [], [], []

        def arg(a, p):
            if any(a.eq(x) for x in w.vars):
                for x, q in sol:
                    if x.eq(a):
                        conds.append(q == p)
                        return
                sol.append((a, p))
            else:
                rest.append((a, p))
        while z3.is_app(t) and (t.decl().eq(SNOC) or t.decl().eq(CONS)):
            conds.append(N(cur) >= 1)
            if t.decl().eq(SNOC):
                arg(t.arg(1), LU(cur))
                arg(t.arg(2), LV(cur))
                t, cur = t.arg(0), INIT(cur)
            else:
                arg(t.arg(0), FU(cur))
                arg(t.arg(1), FV(cur))
                t, cur = t.arg(2), TAIL(cur)
        arg(t, cur)
        if len(sol) != len(w.vars):
            raise Unsupported("which element of the loop writes an entry")
        return sol, And(conds, [subst(a, sol) == p for a, p in rest])
    return go


class CMap(Value):
    """a dictionary from keys to counts. Inside a loop being summarised, cur holds the functions that
    stand for its present contents, and writes what the iteration wrote"""
    tname = "dict"

    def __init__(self, P, V, cur=None, writes=()):
        self.P, self.V, self.cur, self.writes = P, V, cur, tuple(writes)

    def read(self, eng, k):
        p, v = self.P(k), self.V(k)
        for w in self.writes:
            if w.vars:
                w = w.rename()
                if not Solver.quick_unsat(list(eng.ctx()) + [w.guard, w.key == k], 400000):
                    raise Unsupported("an entry is read after a loop that may write it")
                continue
            p, v = Or(w.key == k, p), z3.If(w.key == k, w.val, v)
        return bool_(z3.simplify(p)), z3.simplify(v)

    def contains(self, eng, ref, k): return self.read(eng, to_key(k))[0]

    def getitem(self, eng, ref, k):
        p, v = self.read(eng, to_key(k))
        if not eng.decide(p):
            raise PyRaise(VExc("KeyError"))
        return v

    def setitem(self, eng, ref, k, v):
        k, v = to_key(k), eng.num(v)
        if not v.is_int():
            raise Unsupported("count that is not an integer")
        if self.cur is None:
            P, V = self.P, self.V
            return eng.put(ref, CMap(lambda x: Or(x == k, P(x)), lambda x: z3.If(x == k, v, V(x))))
        ws = list(self.writes)
        if ws and not ws[-1].vars and ws[-1].key.eq(k):
            ws.pop()
        elif any(not Solver.quick_unsat(list(eng.ctx()) + [w.guard, w.key == k], 400000) for w in (x.rename() for x in ws)):
            raise Unsupported("an entry is written twice")
        eng.put(ref, CMap(self.P, self.V, self.cur, ws + [W((), TRUE, k, v)]))

    def iter(self, eng, ref):
        if self.cur is not None:
            raise Unsupported("iteration over the counts inside a loop")
        k = fresh("key", Ky)
        return Fam([Part((k,), self.P(k), k)], "set", (ref.id,))

    def truth(self, eng, ref): return self.iter(eng, ref).truth(eng, ref)

    def method(self, eng, ref, name, args, kw):
        if kw:
            self.bad("method ." + name)
        if name == "keys" and not args:
            return self.iter(eng, ref)
        if name == "items" and not args:
            f = self.iter(eng, ref)
            p = f.parts[0]
            return Fam([Part(p.vars, p.guard, (p.elem, self.V(p.elem)))], "set", f.live)
        if name == "get" and len(args) in (1, 2):
            p, v = self.read(eng, to_key(args[0]))
            if eng.decide(p):
                return v
            return args[1] if len(args) == 2 else None
        if name == "setdefault" and len(args) == 2:
            p, v = self.read(eng, to_key(args[0]))
            if eng.decide(p):
                return v
            self.setitem(eng, ref, *args)
            return args[1]
        self.bad("method ." + name)

    def eq(self, eng, ref, o): self.bad("==")


class ByLen(Fam):
    """a family of keys sorted by length"""
    def __init__(self, f, rev):
        Fam.__init__(self, f.parts, "list", f.live)
        self.rev = rev


class KEngine(CEngine):
    """keys as values, and loops that update counts"""
    def reset(self, trace):
        CEngine.reset(self, trace)
        self.defs, self.mono = [], []

    def ctx(self): return KEY_AXIOMS + self.mono + CEngine.ctx(self)

    def b_len(self, args, kw):
        if is_key(args[0]):
            return 2 * N(args[0])
        return CEngine.b_len(self, args, kw)

    def binop(self, op, a, b):
        if op == "Add" and (is_key(a) or is_key(b)):
            if is_key(a) and isinstance(b, tuple) and len(b) == 2:
                return SNOC(a, *b)
            if is_key(b) and isinstance(a, tuple) and len(a) == 2:
                return CONS(*a, b)
            raise Unsupported("sum of keys")
        return CEngine.binop(self, op, a, b)

    def compare(self, op, a, b):
        if op in ("<", "<=", ">", ">=") and all(isinstance(x, z3.ExprRef) and x.sort() == Nd for x in (a, b)):
            x, y = (a, b) if op[0] == "<" else (b, a)
            return LT(x, y) if len(op) == 1 else Or(LT(x, y), x == y)
        return CEngine.compare(self, op, a, b)

    def b_sorted(self, args, kw):
        f = self.iter(args[0])
        if len(args) == 1 and len(f.parts) == 1 and len(f.parts[0].vars) == 1 and f.kind == "set" and is_key(f.parts[0].elem) and f.parts[0].elem.eq(f.parts[0].vars[0]):
            kw = dict(kw)
            rev = kw.pop("reverse", False)
            key = kw.pop("key", None)
            if kw or not isinstance(rev, bool):
                raise Unsupported("sorted with options")
            g = Fam([rename(f.parts[0])], "list", ())
            if key is None:
                return g
            k = fresh("probe", Ky)
            r = self.call(key, [k], {})
            x = self.num(r)
            s = fresh("probe2", Ky)
            x2 = self.num(self.call(key, [s], {}))
            # a measure that grows with the length
            if not Solver.quick_unsat(list(self.ctx()) + [Not(And(Iff(N(k) < N(s), x < x2), Iff(N(k) == N(s), x == x2)))], 400000):
                if Solver.quick_unsat(list(self.ctx()) + [Not(And(Iff(N(k) < N(s), x > x2), Iff(N(k) == N(s), x == x2)))], 400000):
                    rev = not rev
                else:
                    raise Unsupported("sorted by another key")
            return ByLen(g, rev)
        return CEngine.b_sorted(self, args, kw)

    # ---- loops
    def count_cell(self):
        cs = [i for i, r in self.heap.items() if isinstance(r, CMap)]
        return cs[0] if len(cs) == 1 else None

    def for_over(self, s, it):
        c = self.count_cell()
        if c is not None and self.count_mode():
            f = it if isinstance(it, ByLen) else self.iter(it)
            if any(p.vars for p in f.parts):
                return self.count_loop(s, f, c)
        return CEngine.for_over(self, s, it)

    def count_mode(self): return True

    def count_loop(self, s, f, c):
        if len(f.parts) != 1:
            raise Unsupported("loop over several collections")
        part = rename(f.parts[0])
        fr = self.fstack[-1]
        d = self.heap[c]
        cur, curP = fresh_fun("count_now", Ky, Int), fresh_fun("counted_now", Ky, Bool)
        h0, l0 = dict(self.heap), dict(fr.locals)
        k = z3.Const("k", Ky)
        self.mono.append(z3.ForAll([k], Implies(d.P(k), curP(k)), patterns=[curP(k)]))      # nothing is ever removed
        self.heap[c] = CMap(lambda k: curP(k), lambda k: cur(k), (cur, curP))

        def body():
            self.assume(part.guard)
            self.assign(s.target, part.elem)
            self.block(s.body)
        self.loopvars.extend(part.vars)
        try:
            rs = self.explore(body)
        finally:
            del self.loopvars[len(self.loopvars) - len(part.vars):]
        self.heap[c] = d
        paths = []
        for r in rs:
            if r.facts:
                raise Unsupported("facts found inside a loop over counts")
            for i, x in r.heap.items():
                if i != c and i in h0 and h0[i] is not x:
                    raise Unsupported("loop modifies %s" % type(h0[i]).__name__)
            paths.append((And(part.guard, [q for q in r.conds if not q.eq(part.guard)]), r))
        names = {n for r in rs for n in r.locals if n not in l0 or not self.same(r.locals[n], l0[n])}
        used = {n for n in self.assigned([s])[0] if n in l0 and not isinstance(l0[n], Poison) and n in names and n not in target_names(s.target)}
        carried = used & exposed(s.body, set(target_names(s.target)))[0]
        if carried:
            raise Unsupported("loop carries %s" % sorted(carried)[0])

        free = lambda t: not apps(t, (cur, curP))
        weak = lambda g: And([q for q in conjuncts(g) if free(q)])
        no = lambda *fs: Solver.quick_unsat(list(self.ctx()) + list(fs), 2000000)
        nx = len(part.vars)
        # everything an iteration writes, as families over (element, elements of inner loops)
        fams = []
        for pi, (g, r) in enumerate(paths):
            for w in r.heap[c].writes:
                w = w.rename()
                if not free(w.key):
                    raise Unsupported("entry written under a key read from the counts")
                fams.append((pi, W(part.vars + w.vars, And(g, w.guard), w.key, w.val)))

        def before(a, b):
            o = [Not(And([p == q for p, q in zip(a, b)]))]
            if isinstance(f, ByLen):
                la, lb = (N(subst(part.elem, list(zip(part.vars, t)))) for t in (a, b))
                o.append(la >= lb if f.rev else la <= lb)
            return And(o)
        # an entry is written once
        for i, (pi, a) in enumerate(fams):
            for pj, b0 in fams[i:]:
                b = b0.rename()
                m = len(a.vars) if a is b0 else nx
                if not no(weak(a.guard), weak(b.guard), a.key == b.key, Not(And([x == y for x, y in zip(a.vars[:m], b.vars[:m])]))):
                    raise Unsupported("an entry may be written by several elements")
        # what is read is the value before the loop, or the one after it
        final = []
        V1, P1 = fresh_fun("count_after", Ky, Int), fresh_fun("counted_after", Ky, Bool)

        def resolve(t, g):
            out = []
            for x in apps(t, (cur, curP)):
                k = x.arg(0)
                if not free(k):
                    raise Unsupported("entry read under a key read from the counts")
                ws = [b.rename() for _, b in fams]
                if all(no(weak(g), weak(b.guard), before(b.vars[:nx], part.vars), b.key == k) for b in ws):
                    p, v = d.read(self, k)
                    out.append((x, v if x.decl().eq(cur) else p))
                elif d.cur is None and all(no(weak(g), weak(b.guard), Or(before(part.vars, b.vars[:nx]), And([p == q for p, q in zip(part.vars, b.vars[:nx])])), b.key == k) for b in ws):
                    final.append(1)
                    out.append((x, V1(k) if x.decl().eq(cur) else P1(k)))
                else:
                    raise Unsupported("an entry read in a loop may be written by other iterations")
            return subst(t, out) if out else t
        res = []
        for pi, w in fams:
            res.append(W(w.vars, resolve(w.guard, w.guard), w.key, resolve(w.val, w.guard)))
        for g, r in paths:
            if r.kind != "normal" and not no(resolve(g, g)):
                raise Unsupported("a loop over counts may end by %s" % r.kind)
        if d.cur is not None:
            for w in res:
                if any(not no(w.guard, o.guard, w.key == o.key) for o in (x.rename() for x in d.writes)):
                    raise Unsupported("an entry is written twice")
            self.heap[c] = CMap(d.P, d.V, d.cur, d.writes + tuple(res))
        else:
            inv = [(w, invert(w)) for w in res]
            P, V = d.P, d.V

            def newP(k):
                out = [P(k)]
                for w, go in inv:
                    sol, cond = go(k)
                    out.append(And(cond, subst(w.guard, sol)))
                return Or(out)

            def newV(k):
                out = V(k)
                for w, go in inv:
                    sol, cond = go(k)
                    out = z3.If(And(cond, subst(w.guard, sol)), subst(w.val, sol), out)
                return out
            if final:
                self.defs.append(lambda k: And(V1(k) == newV(k), P1(k) == newP(k)))
                self.heap[c] = CMap(lambda k: P1(k), lambda k: V1(k))
            else:
                self.heap[c] = CMap(newP, newV)
        for n in names | set(target_names(s.target)):
            fr.locals[n] = Poison()
        self.block(s.orelse)

    def unfold(self, *ks):
        for k in ks:
            for d in self.defs:
                self.fact(d(k))
