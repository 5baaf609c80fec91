"""Representation of the four edge-timed graph classes: the real dictionaries of the
code as logical maps, the representation invariant tying them to the abstract edge set,
and the models of the library objects they use (dict of dict of dict, SortedDict,
networkx graphs, NodeDataView)."""
from .core import *
from .logic import *


class Cfg:
    def __init__(self, name, interval, directed):
        self.name, self.interval, self.directed = name, interval, directed
        self.sort = IEdge if interval else PEdge
        self.maps = ("_pred", "_succ") if directed else ("_adj",)
        self.module = "dynetworkx.classes." + name.lower()

    def u(self, e): return edge_comp(e, 0)
    def v(self, e): return edge_comp(e, 1)

    def joins(self, m, x, y, e):
        """edge e is listed under m[x][y]"""
        u, v = self.u(e), self.v(e)
        if m == "_pred":
            return And(Eq(u, x), Eq(v, y))
        if m == "_succ":
            return And(Eq(v, x), Eq(u, y))
        return Or(And(Eq(u, x), Eq(v, y)), And(Eq(u, y), Eq(v, x)))

    def rev(self, e): return IEdge.ie(edge_comp(e, 1), edge_comp(e, 0), edge_comp(e, 2), edge_comp(e, 3))

    def times_ok(self, e):
        if self.interval:
            b, n = edge_comp(e, 2), edge_comp(e, 3)
            return And(NINF < b, b <= n, n < INF)
        return And(NINF < edge_comp(e, 2), edge_comp(e, 2) < INF)


CFGS = {c.name: c for c in (Cfg("IntervalGraph", True, False), Cfg("IntervalDiGraph", True, True),
                            Cfg("ImpulseGraph", False, False), Cfg("ImpulseDiGraph", False, True))}


def as_nd(x):
    if isinstance(x, z3.ExprRef) and x.sort() == Nd:
        return x
    return None


def not_hashable(eng, x):
    if isinstance(x, HRef) and getattr(eng.heap[x.id], "tname", None) in ("list", "dict", "set"):
        raise PyRaise(VExc("TypeError"))


class AttrHeap(Value):
    """contents of all attribute dictionaries"""
    component = True
    shared = True
    tname = "attrs"

    def __init__(self, has, val): self.has, self.val = has, val


class RfAlias(Value):
    """a local dict that has been stored in the graph: the same object"""
    tname = "dict"

    def __init__(self, rf): self.rf = rf
    def method(self, eng, ref, name, args, kw): return eng.rf_method(self.rf, name, args, kw)
    def getitem(self, eng, ref, k): return eng.attr_content(self.rf).getitem(eng, ref, k)
    def setitem(self, eng, ref, k, v): return eng.rf_method(self.rf, "__setitem__", [k, v], {})
    def contains(self, eng, ref, x): return eng.attr_content(self.rf).has(eng.as_key(x))
    def truth(self, eng, ref): return eng.attr_content(self.rf).truth(eng, ref)
    def iter(self, eng, ref): return eng.attr_content(self.rf).iter(eng, ref)


class NMap(Value):
    """x -> y -> edge -> attributes"""
    component = True
    shared = True
    tname = "dict"

    def __init__(self, sort, n1, n2, n3, at, epoch=0):
        self.sort, self.n1, self.n2, self.n3, self.at, self.epoch = sort, n1, n2, n3, at, epoch

    def upd(self, **kw):
        d = dict(sort=self.sort, n1=self.n1, n2=self.n2, n3=self.n3, at=self.at, epoch=self.epoch)
        d.update(kw)
        return NMap(**d)

    def contains(self, eng, ref, x):
        n = as_nd(x)
        if n is None:
            not_hashable(eng, x)
            return False
        return self.n1(n)

    def getitem(self, eng, ref, x):
        n = as_nd(x)
        if n is None:
            not_hashable(eng, x)
            raise PyRaise(VExc("KeyError"))
        if not eng.decide(self.n1(n)):
            raise PyRaise(VExc("KeyError"))
        return MRef1(ref, n, self.epoch)

    def fam(self, ref):
        x = fresh("x", Nd)
        f = Fam([Part((x,), self.n1(x), x)], "set", (ref.id,))
        f.lv = 1
        return f

    def iter(self, eng, ref): return self.fam(ref)
    def length(self, eng, ref): return eng.fam_len(self.fam(ref))
    def truth(self, eng, ref): return self.fam(ref).truth(eng, ref)

    def pop1(self, eng, ref, x):
        a, b, c = self.n1, self.n2, self.n3
        eng.put(ref, self.upd(n1=lambda p: And(a(p), Not(Eq(p, x))), n2=lambda p, q: And(b(p, q), Not(Eq(p, x))),
                              n3=lambda p, q, e: And(c(p, q, e), Not(Eq(p, x))), epoch=eng.tick()))

    def add1(self, eng, ref, x):
        a = self.n1
        eng.put(ref, self.upd(n1=lambda p: Or(a(p), Eq(p, x))))

    def set_empty1(self, eng, ref, x):
        self.pop1(eng, ref, x)
        eng.heap[ref.id].add1(eng, ref, x)

    def setitem(self, eng, ref, k, v):
        n = as_nd(k)
        if n is None:
            raise Unsupported("adjacency key")
        if not is_empty_dict(eng, v):
            raise Unsupported("adjacency value")
        self.set_empty1(eng, ref, n)

    def delitem(self, eng, ref, k):
        n = as_nd(k)
        if n is None or not eng.decide(self.n1(n)):
            raise PyRaise(VExc("KeyError"))
        self.pop1(eng, ref, n)

    def method(self, eng, ref, name, args, kw):
        if kw:
            self.bad("keywords of ." + name)
        if name in ("keys", "__iter__"):
            return self.fam(ref)
        if name == "__contains__":
            return self.contains(eng, ref, args[0])
        if name == "__getitem__":
            return self.getitem(eng, ref, args[0])
        if name in ("values", "items"):
            f = self.fam(ref)
            p = f.parts[0]
            v = MRef1(ref, p.elem, self.epoch)
            g = Fam([Part(p.vars, p.guard, v if name == "values" else (p.elem, v))], "list", (ref.id,))
            g.lv = 1
            return g
        n = as_nd(args[0])
        if n is None:
            not_hashable(eng, args[0])
            self.bad("key of ." + name)
        if name == "get":
            if eng.decide(self.n1(n)):
                return MRef1(ref, n, self.epoch)
            return args[1] if len(args) > 1 else None
        if name == "pop":
            if eng.decide(self.n1(n)):
                self.pop1(eng, ref, n)
                return Opaque()
            if len(args) > 1:
                return args[1]
            raise PyRaise(VExc("KeyError"))
        if name == "setdefault":
            if not is_empty_dict(eng, args[1] if len(args) > 1 else None):
                raise Unsupported("adjacency default")
            self.add1(eng, ref, n)
            return MRef1(ref, n, eng.heap[ref.id].epoch)
        self.bad("method ." + name)


def is_empty_dict(eng, v):
    return isinstance(v, HRef) and isinstance(eng.heap[v.id], DictRec) and not eng.heap[v.id].entries and not eng.heap[v.id].groups


class MRef1(Value):
    """m[x]"""
    tname = "dict"

    def __init__(self, ref, x, epoch): self.ref, self.x, self.epoch = ref, x, epoch
    def subst(self, pairs): return MRef1(self.ref, subst(self.x, pairs), self.epoch)
    def free(self): return [self.x]

    def m(self, eng):
        m = eng.heap[self.ref.id]
        if m.epoch != self.epoch:
            raise Unsupported("reference into an adjacency entry that may have been replaced")
        return m

    def fam(self, eng):
        m, y, x = self.m(eng), fresh("y", Nd), self.x
        f = Fam([Part((y,), m.n2(x, y), y)], "set", (self.ref.id,))
        f.lv = 2
        return f

    def contains(self, eng, ref, y):
        n = as_nd(y)
        if n is None:
            not_hashable(eng, y)
            return False
        return self.m(eng).n2(self.x, n)

    def getitem(self, eng, ref, y):
        n = as_nd(y)
        if n is None:
            raise PyRaise(VExc("KeyError"))
        if not eng.decide(self.m(eng).n2(self.x, n)):
            raise PyRaise(VExc("KeyError"))
        return MRef2(self.ref, self.x, n, self.epoch)

    def iter(self, eng, ref): return self.fam(eng)
    def length(self, eng, ref): return eng.fam_len(self.fam(eng))
    def truth(self, eng, ref): return self.fam(eng).truth(eng, ref)

    def eq(self, eng, ref, o):
        if is_empty_dict(eng, o):
            t = self.truth(eng, ref)
            return Not(t)
        self.bad("==")

    def pop2(self, eng, y):
        m, x = self.m(eng), self.x
        b, c = m.n2, m.n3
        eng.put(self.ref, m.upd(n2=lambda p, q: And(b(p, q), Not(And(Eq(p, x), Eq(q, y)))),
                                n3=lambda p, q, e: And(c(p, q, e), Not(And(Eq(p, x), Eq(q, y)))), epoch=eng.tick()))

    def add2(self, eng, y):
        m, x = self.m(eng), self.x
        b = m.n2
        eng.put(self.ref, m.upd(n2=lambda p, q: Or(b(p, q), And(Eq(p, x), Eq(q, y)))))

    def setitem(self, eng, ref, k, v):
        n = as_nd(k)
        if n is None or not is_empty_dict(eng, v):
            raise Unsupported("adjacency value")
        self.pop2(eng, n)
        m = eng.heap[self.ref.id]
        MRef1(self.ref, self.x, m.epoch).add2(eng, n)

    def delitem(self, eng, ref, k):
        n = as_nd(k)
        if n is None or not eng.decide(self.m(eng).n2(self.x, n)):
            raise PyRaise(VExc("KeyError"))
        self.pop2(eng, n)

    def method(self, eng, ref, name, args, kw):
        if kw:
            self.bad("keywords of ." + name)
        if name == "keys":
            return self.fam(eng)
        if name in ("values", "items"):
            p = self.fam(eng).parts[0]
            v = MRef2(self.ref, self.x, p.elem, self.epoch)
            g = Fam([Part(p.vars, p.guard, v if name == "values" else (p.elem, v))], "list", (self.ref.id,))
            g.lv = 2
            return g
        n = as_nd(args[0]) if args else None
        if n is None:
            self.bad("key of ." + name)
        if name == "get":
            if eng.decide(self.m(eng).n2(self.x, n)):
                return MRef2(self.ref, self.x, n, self.epoch)
            return args[1] if len(args) > 1 else None
        if name == "pop":
            if eng.decide(self.m(eng).n2(self.x, n)):
                self.pop2(eng, n)
                return Opaque()
            if len(args) > 1:
                return args[1]
            raise PyRaise(VExc("KeyError"))
        if name == "setdefault":
            if not is_empty_dict(eng, args[1] if len(args) > 1 else None):
                raise Unsupported("adjacency default")
            self.add2(eng, n)
            return MRef2(self.ref, self.x, n, eng.heap[self.ref.id].epoch)
        self.bad("method ." + name)


class MRef2(Value):
    """m[x][y]"""
    tname = "dict"

    def __init__(self, ref, x, y, epoch): self.ref, self.x, self.y, self.epoch = ref, x, y, epoch
    def subst(self, pairs): return MRef2(self.ref, subst(self.x, pairs), subst(self.y, pairs), self.epoch)
    def free(self): return [self.x, self.y]
    m = MRef1.m

    def key(self, eng, k):
        m = self.m(eng)
        if is_edge(k) and k.sort() == m.sort:
            return k
        if isinstance(k, tuple):
            return eng.to_edge(k, m.sort)
        not_hashable(eng, k)
        return None

    def fam(self, eng):
        m = self.m(eng)
        e = fresh("e", m.sort)
        f = Fam([Part((e,), m.n3(self.x, self.y, e), e)], "set", (self.ref.id,))
        f.lv = 3
        return f

    def contains(self, eng, ref, k):
        e = self.key(eng, k)
        return False if e is None else self.m(eng).n3(self.x, self.y, e)

    def getitem(self, eng, ref, k):
        e = self.key(eng, k)
        m = self.m(eng)
        if e is None or not eng.decide(m.n3(self.x, self.y, e)):
            raise PyRaise(VExc("KeyError"))
        return m.at(self.x, self.y, e)

    def iter(self, eng, ref): return self.fam(eng)
    def length(self, eng, ref): return eng.fam_len(self.fam(eng))
    def truth(self, eng, ref): return self.fam(eng).truth(eng, ref)

    def eq(self, eng, ref, o):
        if is_empty_dict(eng, o):
            return Not(self.truth(eng, ref))
        self.bad("==")

    def put3(self, eng, e, r):
        m, x, y = self.m(eng), self.x, self.y
        c, a = m.n3, m.at
        hit = lambda p, q, f: And(Eq(p, x), Eq(q, y), Eq(f, e))
        eng.put(self.ref, m.upd(n3=lambda p, q, f: Or(c(p, q, f), hit(p, q, f)),
                                at=lambda p, q, f: ite(hit(p, q, f), r, a(p, q, f))))

    def pop3(self, eng, e):
        m, x, y = self.m(eng), self.x, self.y
        c = m.n3
        eng.put(self.ref, m.upd(n3=lambda p, q, f: And(c(p, q, f), Not(And(Eq(p, x), Eq(q, y), Eq(f, e))))))

    def setitem(self, eng, ref, k, v):
        e = self.key(eng, k)
        if e is None:
            raise Unsupported("edge key")
        self.put3(eng, e, eng.to_rf(v))

    def delitem(self, eng, ref, k):
        e = self.key(eng, k)
        if e is None or not eng.decide(self.m(eng).n3(self.x, self.y, e)):
            raise PyRaise(VExc("KeyError"))
        self.pop3(eng, e)

    def method(self, eng, ref, name, args, kw):
        if kw:
            self.bad("keywords of ." + name)
        if name == "keys":
            return self.fam(eng)
        m = self.m(eng)
        if name in ("values", "items"):
            p = self.fam(eng).parts[0]
            v = m.at(self.x, self.y, p.elem)
            g = Fam([Part(p.vars, p.guard, v if name == "values" else (p.elem, v))], "list", (self.ref.id,))
            g.lv = 3
            return g
        e = self.key(eng, args[0]) if args else None
        if e is None:
            self.bad("key of ." + name)
        if name == "get":
            if eng.decide(m.n3(self.x, self.y, e)):
                return m.at(self.x, self.y, e)
            return args[1] if len(args) > 1 else None
        if name == "pop":
            if len(args) > 1:
                r = m.at(self.x, self.y, e)
                self.pop3(eng, e)
                return Opaque()
            if eng.decide(m.n3(self.x, self.y, e)):
                r = m.at(self.x, self.y, e)
                self.pop3(eng, e)
                return r
            raise PyRaise(VExc("KeyError"))
        if name == "setdefault":
            if eng.decide(m.n3(self.x, self.y, e)):
                return m.at(self.x, self.y, e)
            r = eng.to_rf(args[1])
            self.put3(eng, e, r)
            return r
        self.bad("method ." + name)


def ite(c, a, b):
    c = bool_(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a.eq(b):
        return a
    return z3.If(c, a, b)


class NodeMap(Value):
    """x -> attributes"""
    component = True
    shared = True
    tname = "dict"

    def __init__(self, n, at): self.n, self.at = n, at

    def key(self, eng, k):
        n = as_nd(k)
        if n is None:
            not_hashable(eng, k)
        return n

    def contains(self, eng, ref, x):
        n = self.key(eng, x)
        return False if n is None else self.n(n)

    def getitem(self, eng, ref, k):
        n = self.key(eng, k)
        if n is None or not eng.decide(self.n(n)):
            raise PyRaise(VExc("KeyError"))
        return self.at(n)

    def fam(self, ref):
        x = fresh("x", Nd)
        return Fam([Part((x,), self.n(x), x)], "set", (ref.id,))

    def iter(self, eng, ref): return self.fam(ref)
    def length(self, eng, ref): return eng.fam_len(self.fam(ref))
    def truth(self, eng, ref): return self.fam(ref).truth(eng, ref)

    def put1(self, eng, ref, n, r):
        a, b = self.n, self.at
        eng.put(ref, NodeMap(lambda x: Or(a(x), Eq(x, n)), lambda x: ite(Eq(x, n), r, b(x))))

    def pop1(self, eng, ref, n):
        a = self.n
        eng.put(ref, NodeMap(lambda x: And(a(x), Not(Eq(x, n))), self.at))

    def setitem(self, eng, ref, k, v):
        n = self.key(eng, k)
        if n is None:
            raise Unsupported("node key")
        self.put1(eng, ref, n, eng.to_rf(v))

    def delitem(self, eng, ref, k):
        n = self.key(eng, k)
        if n is None or not eng.decide(self.n(n)):
            raise PyRaise(VExc("KeyError"))
        self.pop1(eng, ref, n)

    def method(self, eng, ref, name, args, kw):
        if kw:
            self.bad("keywords of ." + name)
        if name in ("keys",):
            return self.fam(ref)
        if name in ("values", "items"):
            p = self.fam(ref).parts[0]
            v = self.at(p.elem)
            return Fam([Part(p.vars, p.guard, v if name == "values" else (p.elem, v))], "list", (ref.id,))
        n = self.key(eng, args[0]) if args else None
        if n is None:
            self.bad("key of ." + name)
        if name == "get":
            if eng.decide(self.n(n)):
                return self.at(n)
            return args[1] if len(args) > 1 else None
        if name == "pop":
            if eng.decide(self.n(n)):
                r = self.at(n)
                self.pop1(eng, ref, n)
                return r
            if len(args) > 1:
                return args[1]
            raise PyRaise(VExc("KeyError"))
        if name == "setdefault":
            if eng.decide(self.n(n)):
                return self.at(n)
            r = eng.to_rf(args[1])
            self.put1(eng, ref, n, r)
            return r
        self.bad("method ." + name)


# ---------------------------------------------------------------- SortedDict timestamp -> {(u, v)}
class STree(Value):
    component = True
    shared = True
    tname = "dict"

    def __init__(self, t1, t2, epoch=0): self.t1, self.t2, self.epoch = t1, t2, epoch

    def key(self, eng, k):
        if eng.is_num(k) or isinstance(k, z3.ExprRef) and k.sort() == Val:
            k = eng.num(k)
            return z3.ToReal(k) if k.is_int() else k
        return None

    def fam(self, ref, extra=None):
        t = fresh("t", Real)
        g = self.t1(t)
        f = Fam([Part((t,), And(g, extra(t)) if extra else g, t)], "set", (ref.id,), "asc")
        f.lv = 1
        return f

    def contains(self, eng, ref, k):
        t = self.key(eng, k)
        return False if t is None else self.t1(t)

    def getitem(self, eng, ref, k):
        t = self.key(eng, k)
        if t is None or not eng.decide(self.t1(t)):
            raise PyRaise(VExc("KeyError"))
        return TRef(ref, t, self.epoch)

    def iter(self, eng, ref): return self.fam(ref)
    def length(self, eng, ref): return eng.fam_len(self.fam(ref))
    def truth(self, eng, ref): return self.fam(ref).truth(eng, ref)

    def pop1(self, eng, ref, t):
        a, b = self.t1, self.t2
        eng.put(ref, STree(lambda s: And(a(s), Not(Eq(s, t))), lambda s, p, q: And(b(s, p, q), Not(Eq(s, t))), eng.tick()))

    def delitem(self, eng, ref, k):
        t = self.key(eng, k)
        if t is None or not eng.decide(self.t1(t)):
            raise PyRaise(VExc("KeyError"))
        self.pop1(eng, ref, t)

    def setitem(self, eng, ref, k, v):
        t = self.key(eng, k)
        r = eng.heap[v.id] if isinstance(v, HRef) else None
        if t is None or not (isinstance(r, CollRec) and r.kind == "set"):
            raise Unsupported("timestamp entry")
        self.pop1(eng, ref, t)
        m = eng.heap[ref.id]
        a, b = m.t1, m.t2
        g = lambda p, q: eng.fam_member(r.fam(), (p, q))
        eng.put(ref, STree(lambda s: Or(a(s), Eq(s, t)), lambda s, p, q: Or(b(s, p, q), And(Eq(s, t), g(p, q))), m.epoch))

    def method(self, eng, ref, name, args, kw):
        if name == "irange":
            b = args[0] if args else kw.pop("minimum", None)
            n = args[1] if len(args) > 1 else kw.pop("maximum", None)
            inc = args[2] if len(args) > 2 else kw.pop("inclusive", (True, True))
            if kw or not (isinstance(inc, tuple) and len(inc) == 2):
                self.bad("options of irange")
            f = self.fam(ref, lambda t: And(lower(eng, t, b, inc[0]), upper(eng, t, n, inc[1])))
            return f
        if kw:
            self.bad("keywords of ." + name)
        if name in ("keys", "__iter__"):
            return self.fam(ref)
        if name in ("items", "values"):
            p = self.fam(ref).parts[0]
            v = TRef(ref, p.elem, self.epoch)
            g = Fam([Part(p.vars, p.guard, v if name == "values" else (p.elem, v))], "list", (ref.id,), "asc")
            g.lv = 1
            return g
        if name == "peekitem":
            i = args[0] if args else -1
            t = eng.fam_index(self.fam(ref), i)
            return (t, TRef(ref, t, self.epoch))
        t = self.key(eng, args[0]) if args else None
        if t is None:
            self.bad("key of ." + name)
        if name == "get":
            if eng.decide(self.t1(t)):
                return TRef(ref, t, self.epoch)
            return args[1] if len(args) > 1 else None
        if name == "pop":
            if eng.decide(self.t1(t)):
                self.pop1(eng, ref, t)
                return Opaque()
            if len(args) > 1:
                return args[1]
            raise PyRaise(VExc("KeyError"))
        if name == "setdefault":
            r = eng.heap[args[1].id] if len(args) > 1 and isinstance(args[1], HRef) else None
            if not (isinstance(r, CollRec) and r.kind == "set" and not r.parts):
                raise Unsupported("timestamp default")
            a = self.t1
            eng.put(ref, STree(lambda s: Or(a(s), Eq(s, t)), self.t2, self.epoch))
            return TRef(ref, t, self.epoch)
        self.bad("method ." + name)


def lower(eng, t, b, inc):
    if b is None:
        return TRUE
    x, y = eng.arith2(t, b)
    return Or(x > y, And(bool_(eng.truth(inc)), x == y))


def upper(eng, t, n, inc):
    if n is None:
        return TRUE
    x, y = eng.arith2(t, n)
    return Or(x < y, And(bool_(eng.truth(inc)), x == y))


class TRef(Value):
    """the set of end-node pairs at one timestamp"""
    tname = "set"

    def __init__(self, ref, t, epoch): self.ref, self.t, self.epoch = ref, t, epoch
    def subst(self, pairs): return TRef(self.ref, subst(self.t, pairs), self.epoch)
    def free(self): return [self.t]
    m = MRef1.m

    def fam(self, eng):
        m, p, q = self.m(eng), fresh("p", Nd), fresh("q", Nd)
        f = Fam([Part((p, q), m.t2(self.t, p, q), (p, q))], "list", (self.ref.id,))
        f.lv = 2
        return f

    def pair(self, x):
        if isinstance(x, tuple) and len(x) == 2 and as_nd(x[0]) is not None and as_nd(x[1]) is not None:
            return x
        raise Unsupported("element of a timestamp entry")

    def contains(self, eng, ref, x):
        p, q = self.pair(x)
        return self.m(eng).t2(self.t, p, q)

    def iter(self, eng, ref): return self.fam(eng)
    def length(self, eng, ref): return eng.fam_len(self.fam(eng))
    def truth(self, eng, ref): return self.fam(eng).truth(eng, ref)

    def method(self, eng, ref, name, args, kw):
        m, t = self.m(eng), self.t
        b = m.t2
        if name in ("add", "remove", "discard"):
            p, q = self.pair(args[0])
            hit = lambda s, x, y: And(Eq(s, t), Eq(x, p), Eq(y, q))
            if name == "add":
                eng.put(self.ref, STree(m.t1, lambda s, x, y: Or(b(s, x, y), hit(s, x, y)), m.epoch))
                return None
            if name == "remove" and not eng.decide(m.t2(t, p, q)):
                raise PyRaise(VExc("KeyError"))
            eng.put(self.ref, STree(m.t1, lambda s, x, y: And(b(s, x, y), Not(hit(s, x, y))), m.epoch))
            return None
        if name == "copy":
            return eng.alloc(CollRec("set", self.fam(eng).parts))
        self.bad("method ." + name)


# ---------------------------------------------------------------- interval tree, by contract
class ITree(Value):
    """an IntervalTree known through its contracts: the set T of edges it holds"""
    component = True
    shared = True
    tname = "obj"

    def __init__(self, T, span=None): self.T, self.span = T, span

    def get_span(self, eng, ref):
        if self.span is None:
            b, n = fresh("begin", Real), fresh("end", Real)
            wb, we = fresh("wb", IEdge), fresh("we", IEdge)
            e = fresh("e", IEdge)
            T = self.T
            eng.fact(Forall([e], Implies(T(e), And(b <= edge_comp(e, 2), edge_comp(e, 3) <= n, Not(b == INF)))))
            eng.fact(Or(And(b == INF, n == NINF), And(T(wb), IEdge.ib(wb) == b, T(we), IEdge.in_(we) == n)))
            r = ITree(T, (b, n))
            eng.put(ref, r)
            return b, n
        return self.span

    def getattr(self, eng, ref, name):
        eng.used("IntervalTree." + name)
        if name == "begin":
            return self.get_span(eng, ref)[0]
        if name == "end":
            return self.get_span(eng, ref)[1]
        if name in ("root", "nodes", "number_of_edges"):
            raise Unsupported("IntervalTree." + name)
        return BoundM(ref, name)

    def setattr(self, eng, ref, name, v): raise Unsupported("assignment to IntervalTree." + name)

    def getitem(self, eng, ref, k):
        if isinstance(k, slice) and k.step is None:
            return self.slice(eng, ref, k.start, k.stop)
        raise Unsupported("IntervalTree subscript")

    def slice(self, eng, ref, b, n):
        eng.used("IntervalTree.slice")
        if b is not None and n is not None:
            x, y = eng.arith2(b, n)
            eng.oblige("precondition of IntervalTree.slice: begin <= end", x <= y)
        def run():
            # the generator reads the tree when consumed
            T = eng.heap[ref.id].T
            e = fresh("e", IEdge)
            return Fam([Part((e,), And(T(e), meets(eng, e, b, n)), e)], "list", (ref.id,))
        return eng.alloc(GenRec(run))

    def edge(self, eng, x):
        if is_edge(x):
            return x
        if isinstance(x, tuple):
            e = eng.to_edge(x, IEdge)
            if e is not None:
                return e
        raise Unsupported("edge given to the tree")

    def method(self, eng, ref, name, args, kw):
        eng.used("IntervalTree." + name)
        T = self.T
        if name == "add" and len(args) == 1 and not kw:
            e = self.edge(eng, args[0])
            eng.oblige("IntervalTree.add: the edge is not stored yet", Not(T(e)))
            eng.oblige("IntervalTree.add: begin <= end", CFGS["IntervalGraph"].times_ok(e))
            eng.put(ref, ITree(lambda f: Or(T(f), Eq(f, e))))
            return None
        if name == "remove" and len(args) == 1 and not kw:
            e = self.edge(eng, args[0])
            eng.put(ref, ITree(lambda f: And(T(f), Not(Eq(f, e)))))
            return None
        if name == "slice" and len(args) >= 2 and not kw and (len(args) == 2 or args[2] is None):
            return self.slice(eng, ref, args[0], args[1])
        if name in ("unique_timestamps", "unique_begin_timestamps", "unique_end_timestamps"):
            b = args[0] if args else kw.get("begin")
            n = args[1] if len(args) > 1 else kw.get("end")
            inc = args[2] if len(args) > 2 else kw.get("inclusive", (True, True))
            which = {"unique_timestamps": (2, 3), "unique_begin_timestamps": (2,), "unique_end_timestamps": (3,)}[name]
            return eng.alloc(CollRec("list", uniq_parts(eng, self, ref, which, b, n, inc), "asc"))
        self.bad("method ." + name)


def uniq_parts(eng, tree, ref, which, b, n, inc):
    sb, sn = tree.get_span(eng, ref)
    b = sb if b is None else b
    n = sn if n is None else n
    t, e = fresh("t", Real), fresh("e", IEdge)
    g = Exists([e], And(tree.T(e), Or([Eq(edge_comp(e, i), t) for i in which])))
    return [Part((t,), And(g, lower(eng, t, b, inc[0]), upper(eng, t, n, inc[1])), t)]


def meets(eng, e, b, n):
    lo, hi = edge_comp(e, 2), edge_comp(e, 3)
    if b is None and n is None:
        return TRUE
    if b is not None:
        b = z3.ToReal(eng.num(b)) if eng.num(b).is_int() else eng.num(b)
    if n is not None:
        n = z3.ToReal(eng.num(n)) if eng.num(n).is_int() else eng.num(n)
    if b is None:
        return lo < n
    if n is None:
        return Or(hi > b, Eq(lo, b))
    return Or(And(lo < n, hi > b), Eq(lo, b))


def inwin(eng, e, b, n, inc):
    t = edge_comp(e, 2)
    r = And(lower(eng, t, b, inc[0]), upper(eng, t, n, inc[1]))
    if b is not None and n is not None:
        x, y = eng.arith2(b, n)
        same = Eq(x, y)
        return Or(And(same, t == x), And(Not(same), r))
    return r


# ---------------------------------------------------------------- views and foreign graphs
class NDView(Value):
    """NodeDataView(mapping, data, default)"""
    tname = "fam"

    def __init__(self, parts, data, default, live=()): self.parts, self.data, self.default, self.live = parts, data, default, live

    def keyfam(self): return Fam([Part(p.vars, p.guard, p.elem[0]) for p in self.parts], "set", self.live)

    def iter(self, eng, ref):
        if self.data is False:
            return self.keyfam()
        out = []
        for p in self.parts:
            n, r = p.elem
            if self.data is True:
                out.append(Part(p.vars, p.guard, (n, r)))
            else:
                k = eng.as_key(self.data)
                c = eng.attr_content(r)
                h = c.has(k)
                out.append(Part(p.vars, And(p.guard, h), (n, c.val(k))))
                out.append(Part(p.vars, And(p.guard, Not(h)), (n, self.default)))
        return Fam(out, "list", self.live)

    def contains(self, eng, ref, x): return eng.fam_member(self.keyfam(), x)
    def length(self, eng, ref): return eng.fam_len(self.keyfam())
    def truth(self, eng, ref): return self.keyfam().truth(eng, ref)
    def subst(self, pairs): return NDView(Fam(self.parts).subst(pairs).parts, self.data, self.default, self.live)
    def free(self): return Fam(self.parts).free()


class NXRec(Value):
    """a networkx graph under construction: the log of what was added"""
    tname = "obj"

    def __init__(self, kind, edges=(), nodes=()): self.kind, self.edges, self.nodes = kind, tuple(edges), tuple(nodes)

    def getattr(self, eng, ref, name):
        if name == "nodes" or name == "edges":
            return NXNodes(ref) if name == "nodes" else BoundM(ref, name)
        return BoundM(ref, name)

    def nodefam(self, eng):
        x = fresh("x", Nd)
        g = []
        for p in map(rename, self.edges):
            g.append(Exists(p.vars, And(p.guard, Or(bool_(eng.eq(p.elem[0], x)), bool_(eng.eq(p.elem[1], x))))))
        for p in map(rename, self.nodes):
            g.append(Exists(p.vars, And(p.guard, bool_(eng.eq(p.elem[0], x)))))
        return Fam([Part((x,), Or(g), x)], "set")

    def iter(self, eng, ref): return self.nodefam(eng)
    def contains(self, eng, ref, x): return eng.fam_member(self.nodefam(eng), x)
    def length(self, eng, ref): return eng.fam_len(self.nodefam(eng))
    def truth(self, eng, ref): return self.nodefam(eng).truth(eng, ref)

    def content(self, eng, v):
        if isinstance(v, Content):
            return v
        return freeze(eng, eng.content_of(v))

    def method(self, eng, ref, name, args, kw):
        empty = Content(lambda k: FALSE, lambda k: z3.Const("val:none", Val))
        extra = eng.kw_content(kw)
        if name == "add_edges_from":
            es = []
            f = eng.iter(args[0])
            if f.kind == "set":
                f = eng.canonical_set(f)
            for p in f.parts:
                t = p.elem
                if is_edge(t):
                    raise Unsupported("edges given to networkx")
                if not isinstance(t, tuple) or len(t) not in (2, 3):
                    raise Unsupported("edges given to networkx")
                c = self.content(eng, t[2]) if len(t) == 3 else empty
                es.append(rename(Part(p.vars, p.guard, (t[0], t[1], merge_content(extra, c)))))
            eng.put(ref, NXRec(self.kind, self.edges + tuple(es), self.nodes))
            return None
        if name == "add_edge":
            if len(args) != 2:
                raise Unsupported("add_edge on a static graph")
            eng.put(ref, NXRec(self.kind, self.edges + (Part((), TRUE, (args[0], args[1], extra or empty)),), self.nodes))
            return None
        if name in ("add_nodes_from", "add_node"):
            f = eng.iter(args[0]) if name == "add_nodes_from" else Fam([Part((), TRUE, args[0])])
            if f.kind == "set":
                f = eng.canonical_set(f)
            ns = []
            for p in f.parts:
                t = p.elem
                if isinstance(t, tuple) and len(t) == 2:
                    ns.append(rename(Part(p.vars, p.guard, (t[0], merge_content(extra, self.content(eng, t[1]))))))
                elif as_nd(t) is not None:
                    ns.append(rename(Part(p.vars, p.guard, (t, extra or empty))))
                else:
                    raise Unsupported("nodes given to networkx")
            eng.put(ref, NXRec(self.kind, self.edges, self.nodes + tuple(ns)))
            return None
        if name == "nodes" and not args and not kw:
            return self.nodefam(eng)
        self.bad("method ." + name)

    def loop_base(self, eng): return LoopNX(self.kind, base=self)

    def loop_merge(self, eng, ref, results, part):
        es, ns = list(self.edges), list(self.nodes)
        for pc, rec in results:
            for l, src in ((es, rec.edges), (ns, rec.nodes)):
                for p in src:
                    l.append(Part(part.vars + p.vars, And(part.guard, pc, p.guard), p.elem))
        return NXRec(self.kind, es, ns)


class LoopNX(NXRec):
    """within a loop: only what the iteration adds; base: the graph before the loop"""
    def __init__(self, kind, edges=(), nodes=(), base=None):
        NXRec.__init__(self, kind, edges, nodes)
        self.base = base

    def method(self, eng, ref, name, args, kw):
        if name not in ("add_edges_from", "add_edge", "add_nodes_from", "add_node"):
            raise Unsupported("loop-carried use of a static graph")
        NXRec.method(self, eng, ref, name, args, kw)
        r = eng.heap[ref.id]
        eng.put(ref, LoopNX(r.kind, r.edges, r.nodes, self.base))
        return None

    def nodefam(self, eng): raise Unsupported("loop-carried use of a static graph")


class NXNodes(Value):
    """G.nodes of a static graph under construction"""
    tname = "fam"

    def __init__(self, ref): self.ref = ref
    def iter(self, eng, ref): return eng.heap[self.ref.id].nodefam(eng)
    def contains(self, eng, ref, x): return eng.heap[self.ref.id].contains(eng, self.ref, x)
    def length(self, eng, ref): return eng.heap[self.ref.id].length(eng, self.ref)
    def truth(self, eng, ref): return eng.heap[self.ref.id].truth(eng, self.ref)

    def call(self, eng, ref, args, kw):
        if args or kw:
            raise Unsupported("options of G.nodes()")
        return eng.heap[self.ref.id].nodefam(eng)

    def getitem(self, eng, ref, n):
        if as_nd(n) is None:
            raise Unsupported("G.nodes[...]")
        g = eng.heap[self.ref.id]
        have = bool_(eng.fam_member((getattr(g, "base", None) or g).nodefam(eng), n))
        if not Solver.quick_unsat(eng.ctx() + [Not(have)], 3000000):
            raise Unsupported("G.nodes[...] of a node that may be missing")
        return NXNodeAttr(self.ref, n)


class NXNodeAttr(Value):
    """G.nodes[n], n a node of G: what is put there is put on the node"""
    tname = "dict"

    def __init__(self, ref, n): self.ref, self.n = ref, n

    def method(self, eng, ref, name, args, kw):
        if name == "update" and len(args) <= 1:
            g = eng.heap[self.ref.id]
            c = merge_content(g.content(eng, args[0]) if args else None, eng.kw_content(kw) or Content(lambda k: FALSE, lambda k: z3.Const("val:none", Val)))
            eng.heap[self.ref.id].method(eng, self.ref, "add_nodes_from", [((self.n, c),)], {})
            return None
        self.bad("method ." + name)

    def getattr(self, eng, ref, name): return BoundM(self, name)

    def setitem(self, eng, ref, k, v):
        kk = eng.as_key(k)
        c = Content(lambda q: q == kk, lambda q: eng.as_val(v))
        eng.heap[self.ref.id].method(eng, self.ref, "add_nodes_from", [((self.n, c),)], {})


def merge_content(a, b):
    """b over a"""
    if a is None:
        return b
    return Content(lambda k: Or(a.has(k), b.has(k)), lambda k: ite(b.has(k), b.val(k), a.val(k)))


def freeze(eng, c):
    return c


class Static(Value):
    """a foreign static graph given by the caller: edges(data=True) lists (u, v, attributes)"""
    tname = "obj"
    component = True

    def __init__(self, has, a, b, at): self.has, self.a, self.b, self.at = has, a, b, at

    def method(self, eng, ref, name, args, kw):
        if name == "edges" and not args and kw.get("data", None) is True and set(kw) <= {"data"}:
            return eng.static_edges(self)
        self.bad("method ." + name)

    def getattr(self, eng, ref, name): return BoundM(ref, name)


class Model(Value):
    """any fitted predictor: predicts any two numbers"""
    tname = "obj"

    def method(self, eng, ref, name, args, kw):
        if name == "predict":
            return eng.alloc(CollRec("list", [Part((), TRUE, (fresh("node_time", Real), fresh("interval_time", Real)))]))
        self.bad("method ." + name)

    def eq(self, eng, ref, o): return o is ref


class Uncertain(Value):
    """a field whose value nothing here depends on"""
    tname = "obj"
