"""Symbolic executor for the subset of Python used by dynetworkx.

Every path of a function is executed over logical values; loops and comprehensions over
collections of unknown size are summarised exactly as guarded families (no unrolling, no
bound).  What cannot be translated raises Unsupported: the caller then reports the
function as not proved (bounded stand-in), never as proved."""
import ast, collections, copy
from .logic import *
from .load import Func, Class, resolve


class Unsupported(Exception):
    pass


class Infeasible(Exception):
    pass


class PyRaise(Exception):
    def __init__(self, exc):
        self.exc = exc


class Sig(Exception):
    pass


class BreakSig(Sig):
    pass


class ContinueSig(Sig):
    pass


class ReturnSig(Sig):
    def __init__(self, v):
        self.v = v


# ---------------------------------------------------------------- values
class Value:
    """interface of everything that is not a python constant, tuple or z3 term"""
    tname = None

    def bad(self, what):
        raise Unsupported("%s on %s" % (what, type(self).__name__))

    def getattr(self, eng, ref, name): return BoundM(ref, name)
    def method(self, eng, ref, name, args, kw): self.bad("method ." + name)
    def getitem(self, eng, ref, k): self.bad("subscript")
    def setitem(self, eng, ref, k, v): self.bad("subscript assignment")
    def delitem(self, eng, ref, k): self.bad("del subscript")
    def contains(self, eng, ref, x): self.bad("in")
    def iter(self, eng, ref): self.bad("iteration")
    def length(self, eng, ref): self.bad("len")
    def truth(self, eng, ref): self.bad("truth value")
    def eq(self, eng, ref, o): self.bad("==")
    def setattr(self, eng, ref, name, v): self.bad("attribute assignment ." + name)
    def call(self, eng, ref, args, kw): self.bad("call")
    def subst(self, pairs): return self
    def free(self): return []


class HRef(Value):
    """reference to a mutable record in the heap"""
    def __init__(self, id): self.id = id
    def __repr__(self): return "@%d" % self.id


class BoundM(Value):
    def __init__(self, recv, name): self.recv, self.name = recv, name
    def call(self, eng, ref, args, kw): return eng.call_method(self.recv, self.name, args, kw)


class VFunc(Value):
    def __init__(self, func, recv=None, frame=None): self.func, self.recv, self.frame = func, recv, frame
    def call(self, eng, ref, args, kw): return eng.call_func(self.func, self.recv, args, kw, self.frame)


class VClass(Value):
    def __init__(self, cls): self.cls = cls
    def call(self, eng, ref, args, kw): return eng.instantiate(self.cls, args, kw)

    def getattr(self, eng, ref, name):
        f = self.cls.lookup(name)
        if f is None:
            raise Unsupported("class attribute %s.%s" % (self.cls.name, name))
        if f.static:
            return StaticM(self.cls, f)
        return VFunc(f, self if f.classm else None)


class StaticM(Value):
    def __init__(self, cls, func): self.cls, self.func = cls, func
    def call(self, eng, ref, args, kw): return eng.call_static(self.cls, self.func, args, kw)


class Builtin(Value):
    def __init__(self, name): self.name = name
    def __repr__(self): return "builtin " + self.name
    def call(self, eng, ref, args, kw): return eng.builtin(self.name, args, kw)
    def eq(self, eng, ref, o): return isinstance(o, Builtin) and o.name == self.name


class VModule(Value):
    def __init__(self, name): self.name = name
    def getattr(self, eng, ref, name): return eng.module_attr(self.name, name)


class VExc(Value):
    def __init__(self, name): self.name = name
    def method(self, eng, ref, name, args, kw): return Opaque()


class Opaque(Value):
    """a value nothing may depend on (messages, timers)"""
    def method(self, eng, ref, name, args, kw): return Opaque()


class Poison(Value):
    """a variable whose value after a loop is not tracked"""


class Args(Value):
    """*args of symbolic content is not supported; placeholder"""


# content of an attribute dictionary, as a value
class Content(Value):
    def __init__(self, has, val): self.has, self.val = has, val

    def subst(self, pairs):
        h, v = self.has, self.val
        return Content(lambda k: subst_fn(h, k, pairs), lambda k: subst_fn(v, k, pairs))

    def getitem(self, eng, ref, k):
        k = eng.as_key(k)
        if not eng.decide(self.has(k)):
            raise PyRaise(VExc("KeyError"))
        return self.val(k)

    def contains(self, eng, ref, k): return self.has(eng.as_key(k))

    def method(self, eng, ref, name, args, kw):
        if name == "copy" and not args:
            return self
        if name == "get":
            k = eng.as_key(args[0])
            d = args[1] if len(args) > 1 else None
            return self.val(k) if eng.decide(self.has(k)) else d
        if name in ("keys", "items"):
            return self.view(name)
        self.bad("method ." + name)

    def view(self, what):
        k = fresh("k", Key)
        return Fam([Part((k,), self.has(k), k if what == "keys" else (k, self.val(k)))])

    def iter(self, eng, ref): return self.view("keys")

    def truth(self, eng, ref):
        k = fresh("k", Key)
        return Exists([k], self.has(k))


def subst_fn(f, k, pairs):
    """apply closure f at k, then substitute (k itself must not be captured)"""
    t = z3.Const("#hole%d" % subst_fn.n, k.sort())
    subst_fn.n += 1
    return subst(subst(f(t), pairs), [(t, k)])


subst_fn.n = 0

Part = collections.namedtuple("Part", "vars guard elem")


def vsubst(v, pairs):
    if not pairs:
        return v
    if isinstance(v, z3.ExprRef):
        return subst(v, pairs)
    if isinstance(v, tuple):
        return tuple(vsubst(x, pairs) for x in v)
    if isinstance(v, Value):
        return v.subst(pairs)
    return v


def vfree(v):
    """z3 terms inside a value"""
    if isinstance(v, z3.ExprRef):
        return [v]
    if isinstance(v, tuple):
        return [y for x in v for y in vfree(x)]
    if isinstance(v, Content):
        k = z3.Const("#kprobe", Key)
        return [v.has(k), v.val(k)]
    if isinstance(v, Value):
        return v.free()
    return []


def rename(p):
    if not p.vars:
        return p
    pairs = [(x, fresh(str(x).split("!")[0], x.sort())) for x in p.vars]
    return Part(tuple(b for _, b in pairs), subst(p.guard, pairs), vsubst(p.elem, pairs))


def is_pos(f):
    """the elements come one per value of an integer variable, in increasing order of it"""
    return f.kind == "list" and all(len(p.vars) == 1 and p.vars[0].sort() == Int for p in f.parts) and (
        f.order == "pos" or f.order == "asc" and len(f.parts) == 1 and isinstance(f.parts[0].elem, z3.ExprRef) and f.parts[0].elem.eq(f.parts[0].vars[0]))


def comp_order(gens, f, parts):
    return "pos" if len(gens) == 1 and is_pos(f) and all(len(p.vars) == 1 for p in parts) else None


class Fam(Value):
    """an iterable's elements. kind: list (multiplicities count) or set.
    live: heap records that must not change while it is being iterated.
    order: None, or 'asc' (increasing)"""
    tname = "fam"

    def __init__(self, parts, kind="list", live=(), order=None):
        self.parts, self.kind, self.live, self.order = list(parts), kind, tuple(live), order

    def iter(self, eng, ref): return self
    def subst(self, pairs):
        return Fam([Part(p.vars, subst(p.guard, pairs), vsubst(p.elem, pairs)) for p in self.parts], self.kind, self.live, self.order)
    def free(self): return [t for p in self.parts for t in [p.guard] + vfree(p.elem)]
    def contains(self, eng, ref, x): return eng.fam_member(self, x)
    def length(self, eng, ref): return eng.fam_len(self)
    def truth(self, eng, ref): return Or([Exists(p.vars, p.guard) for p in self.parts])

    def getitem(self, eng, ref, k): return eng.fam_index(self, k)

    def method(self, eng, ref, name, args, kw):
        if name == "isdisjoint":
            f = eng.iter(args[0])
            return Not(Or([Exists(p.vars, And(p.guard, eng.fam_member(self, p.elem))) for p in map(rename, f.parts)]))
        self.bad("method ." + name)


class CollRec(Value):
    """a local list / set"""
    def __init__(self, kind, parts, order=None):
        self.kind, self.parts, self.order = kind, tuple(parts), order

    tname = property(lambda s: s.kind)

    def fam(self): return Fam(self.parts, self.kind, (), self.order)

    def iter(self, eng, ref):
        f = self.fam()
        f.live = (ref.id,)
        return f

    def contains(self, eng, ref, x): return eng.fam_member(self.fam(), x)
    def length(self, eng, ref): return eng.fam_len(self.fam())
    def truth(self, eng, ref): return self.fam().truth(eng, ref)

    def eq(self, eng, ref, o):
        if isinstance(o, HRef):
            r = eng.heap[o.id]
            if isinstance(r, CollRec) and r.kind == self.kind == "list":
                a, b = self.parts, r.parts
                if all(not p.vars for p in a + b):
                    if len(a) != len(b):
                        return False
                    return eng.and_([eng.eq(p.elem, q.elem) for p, q in zip(a, b)])
                # [None] / [x] against a symbolic list
                if len(b) == 1 and not b[0].vars and b[0].elem is None and all(
                        p.vars and p.elem is not None for p in a):
                    return False
                if len(a) == 1 and not a[0].vars and a[0].elem is None and all(
                        p.vars and p.elem is not None for p in b):
                    return False
            elif isinstance(r, CollRec) and r.kind != self.kind:
                return False
        self.bad("==")

    def getitem(self, eng, ref, k):
        if isinstance(k, slice):
            if k == slice(None, None, None):
                return eng.alloc(CollRec(self.kind, self.parts, self.order))
            raise Unsupported("list slice")
        return eng.fam_index(self.fam(), k)

    def add_part(self, eng, ref, p):
        eng.put(ref, CollRec(self.kind, self.parts + (p,)))

    def setitem(self, eng, ref, k, v):
        n = len(self.parts)
        if self.kind == "list" and isinstance(k, int) and not isinstance(k, bool) and all(not p.vars and z3.is_true(p.guard) for p in self.parts):
            if not -n <= k < n:
                raise PyRaise(VExc("IndexError"))
            ps = list(self.parts)
            ps[k] = Part((), TRUE, v)
            return eng.put(ref, CollRec("list", tuple(ps)))
        self.bad("subscript assignment")

    def method(self, eng, ref, name, args, kw):
        one = lambda: args[0]
        L = self.kind == "list"
        if (name == "append" and L) or (name == "add" and not L):
            o = self.order or ""
            # pos+k: k leading parts in order of their integer variable, then single elements one by one
            o = "pos+%d" % len(self.parts) if o == "pos" else o if o.startswith("pos+") else None
            return eng.put(ref, CollRec(self.kind, self.parts + (Part((), TRUE, one()),), o))
        if (name == "extend" and L) or (name == "update" and not L):
            for a in args:
                for p in map(rename, eng.iter(a).parts):
                    eng.heap[ref.id].add_part(eng, ref, p)
            return None
        if name == "copy":
            return eng.alloc(CollRec(self.kind, self.parts, self.order))
        if not L:
            if name == "union":
                parts = list(self.parts)
                for a in args:
                    parts += map(rename, eng.iter(a).parts)
                return eng.alloc(CollRec("set", parts))
            if name in ("discard", "remove", "difference", "difference_update", "intersection", "intersection_update"):
                if name in ("discard", "remove"):
                    other = Fam([Part((), TRUE, one())])
                    if name == "remove" and not eng.decide(eng.fam_member(self.fam(), one())):
                        raise PyRaise(VExc("KeyError"))
                    neg, inplace = True, True
                else:
                    other = eng.iter(one())
                    neg, inplace = "difference" in name, name.endswith("update")
                parts = []
                for p in self.parts:
                    m = eng.fam_member(other, p.elem)
                    g = And(p.guard, Not(m) if neg else m)
                    if not z3.is_false(g):
                        parts.append(Part(p.vars, g, p.elem))
                r = CollRec("set", parts)
                if inplace:
                    eng.put(ref, r)
                    return None
                return eng.alloc(r)
            if name == "issubset":
                return And([Not(Exists(p.vars, And(p.guard, Not(eng.contains(args[0], p.elem))))) for p in map(rename, self.parts)])
            if name == "pop" and not args and not kw and hasattr(eng, "choose"):
                x = eng.choose(eng.iter(ref), "KeyError")
                eng.heap[ref.id].method(eng, ref, "remove", [x], {})
                return x
        if name == "sort" and L and not args and kw and hasattr(eng, "sort_in_place"):
            return eng.sort_in_place(ref, kw)
        if name in ("isdisjoint",):
            return self.fam().method(eng, ref, name, args, kw)
        if name == "sort" and L and not args and not kw:
            eng.put(ref, CollRec("list", self.parts, "asc"))
            return None
        if name == "clear":
            eng.put(ref, CollRec(self.kind, ()))
            return None
        self.bad("method ." + name)

    # loop summarisation
    def loop_base(self, eng): return LoopColl(self.kind)

    def loop_merge(self, eng, ref, results, part):
        parts = list(self.parts)
        order = "pos" if not parts and self.kind == "list" and eng.merge_pos else None
        for pc, rec in results:
            if not isinstance(rec, LoopColl):
                raise Unsupported("collection rebuilt in a loop")
            if len(rec.tail) > 1 or any(p.vars for p in rec.tail):
                order = None
            for p in rec.tail:
                parts.append(Part(part.vars + p.vars, And(part.guard, pc, p.guard), p.elem))
        return CollRec(self.kind, parts, order)


class LoopColl(Value):
    """a collection being grown by the loop body that is executing: only additions, plus
    membership tests of exactly the element added (the de-duplication idiom)"""
    def __init__(self, kind, tail=(), tests=()):
        self.kind, self.tail, self.tests = kind, tuple(tail), tuple(tests)

    tname = property(lambda s: s.kind)

    def add_part(self, eng, ref, p): eng.put(ref, LoopColl(self.kind, self.tail + (p,), self.tests))

    def method(self, eng, ref, name, args, kw):
        L = self.kind == "list"
        if (name == "append" and L) or (name == "add" and not L):
            return self.add_part(eng, ref, Part((), TRUE, args[0]))
        if (name == "extend" and L) or (name == "update" and not L):
            for a in args:
                for p in map(rename, eng.iter(a).parts):
                    eng.heap[ref.id].add_part(eng, ref, p)
            return None
        raise Unsupported("loop-carried use of a collection: ." + name)

    def contains(self, eng, ref, x):
        if self.tail and self.kind != "set" or any(p.vars for p in self.tail):
            raise Unsupported("loop-carried membership after an addition")
        here = [And(p.guard, bool_(eng.eq(p.elem, x))) for p in self.tail]
        for c, y in self.tests:
            if eng.same(x, y):
                return Or([c] + here)
        c = fresh("carried", Bool)
        eng.put(ref, LoopColl(self.kind, self.tail, self.tests + ((c, x),)))
        return Or([c] + here)

    def bad(self, what):
        raise Unsupported("loop-carried use of a collection: " + what)

    def loop_base(self, eng): return LoopColl(self.kind)

    def loop_merge(self, eng, ref, results, part):
        tail = list(self.tail)
        for pc, rec in results:
            for p in rec.tail:
                tail.append(Part(part.vars + p.vars, And(part.guard, pc, p.guard), p.elem))
        return LoopColl(self.kind, tail, self.tests)


class GenRec(Value):
    """a generator object: runs when consumed, once"""
    tname = "generator"

    def __init__(self, thunk): self.thunk = thunk

    def iter(self, eng, ref):
        if self.thunk is None:
            return Fam([])
        t = self.thunk
        eng.put(ref, GenRec(None))
        f = t()
        return f

    def truth(self, eng, ref): return True


class DictRec(Value):
    """a local dict. entries: parts with elem (key, value). groups: parts with elem
    (key, item) contributed by setdefault(key, []).append(item)"""
    tname = "dict"

    def __init__(self, entries=(), groups=(), counts=False):
        """counts: what is looked up is the number of the group's items"""
        self.entries, self.groups, self.counts = tuple(entries), tuple(groups), counts

    def keyfam(self):
        return Fam([Part(p.vars, p.guard, p.elem[0]) for p in self.entries + self.groups], "set")

    def canonical(self, eng):
        """one part per key"""
        if not self.groups and len(self.entries) == 1 and self.entries[0].vars and self.entries[0].elem[0].eq(
                self.entries[0].vars[0]) and len(self.entries[0].vars) == 1:
            return self.keyfam()
        return eng.canonical_set(self.keyfam())

    def iter(self, eng, ref):
        f = self.canonical(eng)
        f.live = (ref.id,)
        return f

    def contains(self, eng, ref, x): return eng.fam_member(self.keyfam(), x)
    def truth(self, eng, ref): return self.keyfam().truth(eng, ref)
    def length(self, eng, ref): return eng.fam_len(self.keyfam())

    def lookup(self, eng, k):
        if self.groups and not self.entries:
            ps = []
            for p in map(rename, self.groups):
                ps.append(Part(p.vars, And(p.guard, bool_(eng.eq(p.elem[0], k))), p.elem[1]))
            return eng.fam_len(Fam(ps)) if self.counts else Fam(ps)
        es = [p for p in map(rename, self.entries)]
        if not self.groups and es:
            # later entries win; a symbolic entry must have its variables fixed by the key
            for p in reversed(es):
                c = And(p.guard, bool_(eng.eq(p.elem[0], k)))
                if not p.vars:
                    if eng.decide(c):
                        return p.elem[1]
                    continue
                sol = eng.solve_key(p, k)
                if sol is None:
                    raise Unsupported("dict lookup")
                g, v = sol
                if eng.decide(g):
                    return v
            return None
        return None

    def getitem(self, eng, ref, k):
        if not eng.decide(self.contains(eng, ref, k)):
            raise PyRaise(VExc("KeyError"))
        r = self.lookup(eng, k)
        if r is None:
            raise Unsupported("dict lookup")
        return r

    def setitem(self, eng, ref, k, v):
        if self.groups:
            self.bad("mixed dict")
        eng.put(ref, DictRec(self.entries + (Part((), TRUE, (k, v)),)))

    def method(self, eng, ref, name, args, kw):
        if name == "setdefault" and len(args) == 2 and isinstance(args[1], HRef):
            r = eng.heap[args[1].id]
            if isinstance(r, CollRec) and not r.parts and not self.entries:
                return GroupRef(ref, args[0], r.kind)
        if name == "get":
            if eng.decide(self.contains(eng, ref, args[0])):
                return self.getitem(eng, ref, args[0])
            return args[1] if len(args) > 1 else None
        if name in ("items", "keys", "values"):
            f = self.canonical(eng)
            if name == "keys":
                f.live = (ref.id,)
                return f
            out = []
            for p in f.parts:
                v = self.lookup(eng, p.elem) if self.groups else self.value_at(eng, p.elem)
                out.append(Part(p.vars, p.guard, (p.elem, v) if name == "items" else v))
            return Fam(out, "list", (ref.id,))
        if name == "copy":
            return eng.alloc(DictRec(self.entries, self.groups, self.counts))
        if name == "pop" and self.entries and not self.groups and 1 <= len(args) <= 2:
            k = args[0]
            if not eng.decide(self.contains(eng, ref, k)):
                if len(args) > 1:
                    return args[1]
                raise PyRaise(VExc("KeyError"))
            v = self.getitem(eng, ref, k)
            self.delitem(eng, ref, k)
            return v
        if name == "update" and not kw and len(args) == 1:
            f = eng.mapping_parts(args[0])
            eng.put(ref, DictRec(self.entries + tuple(map(rename, f))))
            return None
        self.bad("method ." + name)

    def value_at(self, eng, k):
        if len(self.entries) == 1:
            s = eng.solve_key(rename(self.entries[0]), k)
            if s is not None:
                return s[1]
        raise Unsupported("dict values")

    def delitem(self, eng, ref, k):
        if self.groups or not self.entries:
            self.bad("del")
        if not eng.decide(self.contains(eng, ref, k)):
            raise PyRaise(VExc("KeyError"))
        eng.put(ref, DictRec([Part(p.vars, And(p.guard, Not(bool_(eng.eq(p.elem[0], k)))), p.elem) for p in map(rename, self.entries)]))

    def subst(self, pairs): return self

    def loop_base(self, eng): return LoopDict()

    def loop_merge(self, eng, ref, results, part):
        if (self.groups or self.entries) and any(getattr(rec, "tests", ()) for _, rec in results):
            raise Unsupported("loop-carried use of a dict that is not empty before the loop")
        es, gs, counts = LoopDict.merged(self, results, part)
        if es and gs and counts:
            raise Unsupported("mixed dict")
        return DictRec(es, gs, bool(counts) if gs else False)


class LoopDict(Value):
    """a dict being filled by the loop body that is executing. Grouping idioms only: d.setdefault(k, []).append(x),
    the same written as a test of k in d, and counting, where every item counted is one member of k's group"""
    tname = "dict"

    def __init__(self, entries=(), groups=(), tests=(), counts=None):
        self.entries, self.groups, self.tests, self.counts = tuple(entries), tuple(groups), tuple(tests), counts

    def but(self, **kw): return LoopDict(**dict(dict(entries=self.entries, groups=self.groups, tests=self.tests, counts=self.counts), **kw))

    def carried(self, eng, ref, k, kind):
        """is k in d already (c), or how many are counted for it (n)?"""
        for what, c, y in self.tests:
            if what == "m" and eng.same(k, y) and not self.groups:
                if kind == "c":
                    return TRUE
                raise Unsupported("loop-carried use of a dict: mixed")
        if self.entries or self.groups:
            raise Unsupported("loop-carried use of a dict after an update")
        for what, c, y in self.tests:
            if what == kind and eng.same(k, y):
                return c
        c = fresh("carried", Bool if kind == "c" else Int)
        eng.put(ref, self.but(tests=self.tests + ((kind, c, k),)))
        return c

    def group(self, eng, ref, k, x, counts):
        r = eng.heap[ref.id]
        if r.counts not in (None, counts):
            raise Unsupported("loop-carried use of a dict: mixed")
        eng.put(ref, r.but(groups=r.groups + (Part((), TRUE, (k, x)),), counts=counts))

    def contains(self, eng, ref, k): return self.carried(eng, ref, k, "c")

    def getitem(self, eng, ref, k):
        if not eng.decide(self.carried(eng, ref, k, "c")):
            raise PyRaise(VExc("KeyError"))
        return GroupRef(ref, k, "list")

    def setitem(self, eng, ref, k, v):
        known = [(what, c) for what, c, y in self.tests if eng.same(k, y)]
        if not self.tests:
            eng.put(ref, self.but(entries=self.entries + (Part((), TRUE, (k, v)),)))
            return
        if self.groups or any(what == "m" for what, _ in known):
            raise Unsupported("loop-carried use of a dict after an update")
        for what, c in known:
            if what == "n" and eng.is_num(v) and z3.simplify(eng.num(v) - c - 1).eq(z3.IntVal(0)):
                return self.group(eng, ref, k, 0, True)
            if what == "c" and not eng.decide(c):
                r = eng.heap[v.id] if isinstance(v, HRef) else None
                if isinstance(v, int) and v == 1:
                    return self.group(eng, ref, k, 0, True)
                if isinstance(r, CollRec) and r.kind == "list" and len(r.parts) <= 1 and all(not p.vars and z3.is_true(p.guard) for p in r.parts):
                    if r.parts:
                        return self.group(eng, ref, k, r.parts[0].elem, False)
                    eng.put(ref, eng.heap[ref.id].but(tests=eng.heap[ref.id].tests + (("m", TRUE, k),)))
                    return
        raise Unsupported("loop-carried use of a dict: assignment")

    def method(self, eng, ref, name, args, kw):
        if name == "setdefault" and len(args) == 2 and isinstance(args[1], HRef):
            r = eng.heap[args[1].id]
            if isinstance(r, CollRec) and not r.parts:
                return GroupRef(ref, args[0], r.kind)
        if name == "get" and len(args) == 2 and isinstance(args[1], int) and not isinstance(args[1], bool) and args[1] == 0:
            return self.carried(eng, ref, args[0], "n")
        raise Unsupported("loop-carried use of a dict: ." + name)

    def bad(self, what):
        raise Unsupported("loop-carried use of a dict: " + what)

    def loop_base(self, eng): return LoopDict()

    def merged(self, results, part):
        es, gs = list(self.entries), list(self.groups)
        counts = self.counts if self.groups else None
        for pc, rec in results:
            if not isinstance(rec, LoopDict):
                raise Unsupported("dict rebuilt in a loop")
            if rec.groups:
                if counts not in (None, bool(rec.counts)):
                    raise Unsupported("loop-carried use of a dict: mixed")
                counts = bool(rec.counts)
            for l, src in ((es, rec.entries), (gs, rec.groups)):
                for p in src:
                    l.append(Part(part.vars + p.vars, And(part.guard, pc, p.guard), p.elem))
        return es, gs, counts

    def loop_merge(self, eng, ref, results, part):
        es, gs, counts = self.merged(results, part)
        return self.but(entries=es, groups=gs, counts=counts)

    @staticmethod
    def check(eng, i, res):
        """the same is put in k's group whether or not it is there already, and nothing else depends on it"""
        tests = {}
        for _, r in res:
            for what, c, k in r.heap[i].tests:
                if what != "m":
                    tests[str(c)] = (what, c)
        if not tests:
            return
        mine = [c for _, c in tests.values()]
        mentions = lambda t: any(c.get_id() in subterm_ids(t) for c in mine)
        for _, r in res:
            if r.heap[i].entries:
                raise Unsupported("loop-carried use of a dict: entries")
            if any(what == "m" and not any(eng.same(p.elem[0], k) for p in r.heap[i].groups) for what, _, k in r.heap[i].tests):
                raise Unsupported("loop-carried use of a dict: an empty group")
            for j, x in r.heap.items():
                if j != i and j in eng.heap and eng.heap[j] is not x:
                    raise Unsupported("loop-carried use of a dict guarding another update")
            for p in r.heap[i].groups:
                if p.vars or any(mentions(t) for t in [p.guard] + vfree(p.elem)):
                    raise Unsupported("loop-carried use of a dict: group")
            for what, c in tests.values():
                if what == "n" and any(c.get_id() in subterm_ids(d) for d in r.conds):
                    raise Unsupported("loop-carried count in a test")
        base = eng.ctx() + [f for _, r in res for f in r.facts]
        for what, c in tests.values():
            if what == "c":
                side = lambda v: [(subst(And(list(r.conds)), [(c, v)]), r.heap[i].groups) for _, r in res]
                for g, gs in side(TRUE):
                    for h, hs in side(FALSE):
                        if len(gs) == len(hs) and all(eng.same(p.elem, q.elem) and p.guard.eq(q.guard) for p, q in zip(gs, hs)):
                            continue
                        if not Solver.quick_unsat(base + [g, h], 400000):
                            raise Unsupported("loop-carried use of a dict: the first time differs")


def subterm_ids(t):
    out, st = set(), [t]
    while st:
        x = st.pop()
        if not isinstance(x, z3.AstRef) or x.get_id() in out:
            continue
        out.add(x.get_id())
        st.extend(x.children() if not z3.is_quantifier(x) else [x.body()])
    return out


class GroupRef(Value):
    """d.setdefault(key, []), or d[key] of a dict being grouped"""
    def __init__(self, d, key, kind): self.d, self.key, self.kind = d, key, kind

    def method(self, eng, ref, name, args, kw):
        if name == "append" and self.kind == "list" or name == "add" and self.kind == "set":
            r = eng.heap[self.d.id]
            if isinstance(r, LoopDict):
                r.group(eng, self.d, self.key, args[0], False)
            else:
                p = Part((), TRUE, (self.key, args[0]))
                eng.put(self.d, type(r)(r.entries, r.groups + (p,)))
            return None
        self.bad("method ." + name)


class ObjRec(Value):
    """an instance of a class of /repo"""
    def __init__(self, cls, fields, ghost=None):
        self.cls, self.fields, self.ghost = cls, fields, ghost

    tname = "obj"

    def getattr(self, eng, ref, name):
        if name in self.fields:
            return self.fields[name]
        h = eng.hook_field(self, ref, name)
        if h is not None:
            return h
        f = self.cls.lookup(name)
        if f is not None:
            if f.prop:
                return eng.call_func(f, ref, [], {})
            return BoundM(ref, name)
        c = self.cls.lookup_const(name)
        if c is not None:
            return eng.eval(c[0])
        raise PyRaise(VExc("AttributeError"))

    def setattr(self, eng, ref, name, v):
        v = eng.coerce_field(self.cls, name, v)
        eng.put(ref, ObjRec(self.cls, dict(self.fields, **{name: v}), self.ghost))

    def method(self, eng, ref, name, args, kw):
        return eng.call_obj_method(ref, self, name, args, kw)

    def contains(self, eng, ref, x):
        return eng.call_obj_method(ref, self, "__contains__", [x], {})

    def length(self, eng, ref):
        return eng.call_obj_method(ref, self, "__len__", [], {})

    def iter(self, eng, ref):
        return eng.iter(eng.call_obj_method(ref, self, "__iter__", [], {}))

    def getitem(self, eng, ref, k):
        return eng.call_obj_method(ref, self, "__getitem__", [k], {})

    def truth(self, eng, ref):
        if self.cls.lookup("__bool__") or self.cls.lookup("__len__"):
            raise Unsupported("truth value of %s" % self.cls.name)
        return True

    def eq(self, eng, ref, o):
        if self.cls.lookup("__eq__"):
            raise Unsupported("== on %s" % self.cls.name)
        return isinstance(o, HRef) and o.id == ref.id


class PyDict(Value):
    """a dict nothing depends on (graph attributes)"""
    tname = "dict"

    def method(self, eng, ref, name, args, kw):
        if name in ("update", "get", "copy", "setdefault"):
            return Opaque()
        self.bad("method ." + name)

    def setitem(self, eng, ref, k, v): return None
    def getitem(self, eng, ref, k): return Opaque()


class Frame:
    def __init__(self, func, cls, module, parent=None):
        self.locals, self.func, self.cls, self.module, self.parent = {}, func, cls, module, parent
        self.yields = None


PathRes = collections.namedtuple("PathRes", "conds facts kind value heap locals")
Card = collections.namedtuple("Card", "decl params parts")
Summ = collections.namedtuple("Summ", "decl params vars guard term")

CMP = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.In: "in",
       ast.NotIn: "not in", ast.Is: "is", ast.IsNot: "is not"}


class Engine:
    MAXPATHS = 3000

    def __init__(self, mods, classes):
        self.mods, self.classes = mods, classes
        self.byname = {}
        for (m, n), c in classes.items():
            self.byname.setdefault(n, c)
        self.obligations = []      # emitted while executing (call-site preconditions, loop invariants)
        self.reset([])
        self.inlined = set()
        self.called = set()

    # ------------------------------------------------------------ paths
    def reset(self, trace):
        self.trace, self.pos, self.pending = list(trace), 0, []
        Fresh.n = 0                # a path is replayed with the same names, so that queries are cached
        self.heap, self.nheap = {}, 0
        self.conds, self.facts = [], []
        self.cards, self.sums = [], []
        self.loopvars = []
        self.fstack = []
        self.depth = 0
        self.nested = 0

    def run_paths(self, fn):
        """all paths of fn() from scratch; yields (engine state is that of the path)"""
        work, n = [[]], 0
        while work:
            tr = work.pop()
            n += 1
            if n > self.MAXPATHS:
                raise Unsupported("too many paths")
            self.reset(tr)
            try:
                fn()
            except Infeasible:
                pass
            work.extend(self.pending)
        return n

    def ctx(self):
        return BACKGROUND + self.facts + self.conds

    def fact(self, f):
        f = bool_(f)
        if not z3.is_true(f):
            self.facts.append(f)

    def decide(self, c):
        if isinstance(c, bool):
            return c
        c = bool_(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.pos < len(self.trace):
            val = self.trace[self.pos]
            self.pos += 1
        else:
            s = z3.simplify(c)
            if z3.is_true(s):
                return True
            if z3.is_false(s):
                return False
            t = not Solver.quick_unsat(self.ctx() + [c])
            f = not Solver.quick_unsat(self.ctx() + [Not(c)]) if t else True
            if t and f:
                self.pending.append(self.trace + [False])
                val = True
            elif t:
                val = True
            elif not t and not Solver.quick_unsat(self.ctx() + [Not(c)]):
                val = False
            else:
                raise Infeasible()
            self.trace.append(val)
            self.pos += 1
        self.conds.append(c if val else Not(c))
        return val

    def assume(self, c):
        c = bool_(c)
        if z3.is_false(c):
            raise Infeasible()
        if not z3.is_true(c):
            self.conds.append(c)

    def snapshot(self):
        return (dict(self.heap), [(f, dict(f.locals)) for f in self.all_frames()], len(self.conds), len(self.facts))

    def all_frames(self):
        out = []
        for f in self.fstack:
            while f is not None and f not in out:
                out.append(f)
                f = f.parent
        return out

    def restore(self, s):
        self.heap = dict(s[0])
        for f, l in s[1]:
            f.locals = dict(l)
        del self.conds[s[2]:]
        del self.facts[s[3]:]

    def explore(self, fn):
        """run fn on every path from the present state; the state is left unchanged"""
        s = self.snapshot()
        old = self.trace, self.pos, self.pending
        work, out = [[]], []
        self.nested += 1
        try:
            while work:
                tr = work.pop()
                if len(out) > 400:
                    raise Unsupported("too many paths in a loop body")
                self.restore(s)
                self.trace, self.pos, self.pending = tr, 0, []
                kind, val = "normal", None
                try:
                    val = fn()
                except Infeasible:
                    kind = None
                except BreakSig:
                    kind = "break"
                except ContinueSig:
                    kind = "normal"
                except ReturnSig as r:
                    kind, val = "return", r.v
                except PyRaise as r:
                    kind, val = "raise", r.exc
                if kind:
                    out.append(PathRes(self.conds[s[2]:], self.facts[s[3]:], kind, val, dict(self.heap),
                                       dict(self.fstack[-1].locals)))
                work.extend(self.pending)
        finally:
            self.nested -= 1
            self.trace, self.pos, self.pending = old
            self.restore(s)
        return out

    # ------------------------------------------------------------ heap
    def alloc(self, rec):
        self.nheap += 1
        self.heap[self.nheap] = rec
        return HRef(self.nheap)

    def put(self, ref, rec):
        self.heap[ref.id] = rec

    def rec(self, v):
        """(interface object, reference) of a value"""
        if isinstance(v, HRef):
            return self.heap[v.id], v
        return v, v

    # ------------------------------------------------------------ basic operations
    def and_(self, xs):
        xs = list(xs)
        if all(isinstance(x, bool) for x in xs):
            return all(xs)
        return And(xs)

    def same(self, a, b):
        """syntactically the same value"""
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            return a.eq(b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        if isinstance(a, HRef) and isinstance(b, HRef):
            return a.id == b.id
        if isinstance(a, z3.ExprRef) or isinstance(b, z3.ExprRef):
            return False
        return type(a) is type(b) and not isinstance(a, Value) and a == b or a is b

    def is_num(self, x):
        return (isinstance(x, (int, float)) and not isinstance(x, bool)) or \
            isinstance(x, z3.ArithRef) or isinstance(x, bool)

    def num(self, x):
        if isinstance(x, bool):
            return z3.IntVal(int(x))
        if isinstance(x, int):
            return z3.IntVal(x)
        if isinstance(x, float):
            if x == float("inf"):
                return INF
            if x == float("-inf"):
                return NINF
            return z3.RealVal(repr(x))
        if isinstance(x, z3.ArithRef):
            return x
        if isinstance(x, z3.ExprRef) and x.sort() == Val:
            return valtime(x)
        raise Unsupported("arithmetic on %r" % (x,))

    def arith2(self, a, b):
        a, b = self.num(a), self.num(b)
        if a.sort() != b.sort():
            a = z3.ToReal(a) if a.is_int() else a
            b = z3.ToReal(b) if b.is_int() else b
        return a, b

    def eq(self, a, b):
        if a is None or b is None:
            if a is None and b is None:
                return True
            o = b if a is None else a
            if isinstance(o, z3.ExprRef) and o.sort() == TN:
                return Eq(o, null)
            if isinstance(o, Poison):
                raise Unsupported("use of a loop variable after its loop")
            return False
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.sort() == b.sort():
            return Eq(a, b)
        if isinstance(a, z3.BoolRef) or isinstance(b, z3.BoolRef):
            if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
                return Iff(a, b)
            if isinstance(a, z3.BoolRef) and isinstance(b, (Value, tuple, str)) or isinstance(b, z3.BoolRef) and \
                    isinstance(a, (Value, tuple, str)):
                return False
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return a == b
        if self.is_num(a) and self.is_num(b):
            x, y = self.arith2(a, b)
            return Eq(x, y)
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return self.and_([self.eq(x, y) for x, y in zip(a, b)])
        if is_edge(a) or is_edge(b):
            e, t = (a, b) if is_edge(a) else (b, a)
            n = len(EDGE_FIELDS[e.sort()])
            if isinstance(t, tuple):
                if len(t) != n:
                    return False
                m = self.to_edge(t, e.sort())
                if m is not None:
                    return Eq(e, m)
                return self.and_([self.eq(edge_comp(e, i), t[i]) for i in range(n)])
            if isinstance(t, (Value, str, int, float)):
                return False
        if isinstance(a, z3.ExprRef) and a.sort() == Key and isinstance(b, str):
            return Eq(a, self.as_key(b))
        if isinstance(b, z3.ExprRef) and b.sort() == Key and isinstance(a, str):
            return Eq(self.as_key(a), b)
        if isinstance(a, z3.ExprRef) and a.sort() == Nd and isinstance(b, HRef) or \
                isinstance(b, z3.ExprRef) and b.sort() == Nd and isinstance(a, HRef):
            return False
        for x, y in ((a, b), (b, a)):
            if isinstance(x, HRef) or isinstance(x, Value):
                r, ref = self.rec(x)
                if isinstance(r, Poison):
                    raise Unsupported("use of a loop variable after its loop")
                if isinstance(y, (int, float, str, tuple, bool)) and not isinstance(r, (Opaque,)):
                    h = getattr(r, "eq_const", None)
                    if h:
                        return h(self, ref, y)
                    return False
                return r.eq(self, ref, y)
        raise Unsupported("== between %r and %r" % (a, b))

    def to_edge(self, t, sort):
        fs = EDGE_FIELDS[sort]
        if len(t) != len(fs):
            return None
        out = []
        for x, f in zip(t, fs):
            w = f.range()
            if w == Real and self.is_num(x):
                x = self.num(x)
                x = z3.ToReal(x) if x.is_int() else x
            if not (isinstance(x, z3.ExprRef) and x.sort() == w):
                return None
            out.append(x)
        return EDGE_MK[sort](*out)

    def as_key(self, k):
        if isinstance(k, str):
            c = z3.Const("key:" + k, Key)
            return c
        if isinstance(k, z3.ExprRef) and k.sort() == Key:
            return k
        raise Unsupported("attribute key %r" % (k,))

    def as_val(self, v):
        if isinstance(v, z3.ExprRef):
            if v.sort() == Val:
                return v
            if isinstance(v, z3.ArithRef):
                return timeval(z3.ToReal(v) if v.is_int() else v)
        if v is None:
            return z3.Const("val:None", Val)
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            return timeval(z3.RealVal(repr(v)))
        raise Unsupported("attribute value %r" % (v,))

    def truth(self, v):
        if v is None:
            return False
        if isinstance(v, (bool, int, float, str, tuple)):
            return bool(v)
        if isinstance(v, z3.BoolRef):
            return v
        if isinstance(v, z3.ArithRef):
            return Not(Eq(v, z3.IntVal(0) if v.is_int() else z3.RealVal(0)))
        if isinstance(v, z3.ExprRef):
            if v.sort() == TN:
                return Not(Eq(v, null))
            if is_edge(v):
                return True
            if v.sort() == Nd:
                return z3.Function("truthy", Nd, Bool)(v)
            if v.sort() == Val:
                return z3.Function("truthyv", Val, Bool)(v)
            if v.sort() == Rf:
                return self.attr_content(v).truth(self, v)
            raise Unsupported("truth value of %s" % v.sort())
        r, ref = self.rec(v)
        return r.truth(self, ref)

    def contains(self, coll, x):
        if isinstance(coll, tuple):
            return self.or_([self.eq(x, y) for y in coll])
        if isinstance(coll, z3.ExprRef) and coll.sort() == Rf:
            return self.attr_content(coll).has(self.as_key(x))
        if isinstance(coll, str):
            if isinstance(x, str):
                return x in coll
        if isinstance(coll, Value):
            r, ref = self.rec(coll)
            return r.contains(self, ref, x)
        if coll is None:
            raise PyRaise(VExc("TypeError"))
        raise Unsupported("in %r" % (coll,))

    def or_(self, xs):
        xs = list(xs)
        if all(isinstance(x, bool) for x in xs):
            return any(xs)
        return Or(xs)

    def iter(self, v):
        if isinstance(v, tuple):
            return Fam([Part((), TRUE, x) for x in v])
        if isinstance(v, Value):
            r, ref = self.rec(v)
            return r.iter(self, ref)
        if is_edge(v):
            return Fam([Part((), TRUE, edge_comp(v, i)) for i in range(len(EDGE_FIELDS[v.sort()]))])
        if v is None or isinstance(v, (bool, int, float)):
            raise PyRaise(VExc("TypeError"))
        if isinstance(v, z3.ExprRef):
            if v.sort() == Nd:
                if self.decide(is_str(v)):
                    raise Unsupported("iterating the characters of a node label")
                raise PyRaise(VExc("TypeError"))
            if v.sort() == Rf:
                return self.attr_content(v).iter(self, v)
            if v.sort() in (Real, Int, Bool):
                raise PyRaise(VExc("TypeError"))
        raise Unsupported("iteration over %r" % (v,))

    def fam_member(self, f, x):
        if not isinstance(f, Fam):
            raise Unsupported("membership")
        out = []
        for p in f.parts:
            q = rename(p)
            out.append(Exists(q.vars, And(q.guard, bool_(self.eq(q.elem, x)))))
        return Or(out)

    def elem_sort(self, f):
        ss = set()
        for p in f.parts:
            e = p.elem
            if isinstance(e, tuple):
                e2 = self.to_edge(e, IEdge)
                e2 = self.to_edge(e, PEdge) if e2 is None else e2
                if e2 is None:
                    if all(isinstance(x, z3.ExprRef) for x in e):
                        ss.add(tuple(x.sort() for x in e))
                        continue
                    raise Unsupported("set of tuples")
                e = e2
            if self.is_num(e):
                ss.add(Real if not (isinstance(e, z3.ArithRef) and e.is_int()) and not isinstance(e, int) else
                       (e.sort() if isinstance(e, z3.ArithRef) else Int))
            elif isinstance(e, z3.ExprRef):
                ss.add(e.sort())
            else:
                raise Unsupported("set of %r" % (e,))
        if len(ss) != 1:
            raise Unsupported("mixed set")
        return ss.pop()

    def canonical_set(self, f):
        """the same set with exactly one index value per element"""
        if not f.parts:
            return Fam([], "set", f.live, f.order)
        if len(f.parts) == 1:
            p = f.parts[0]
            if not p.vars:
                return f
            if len(p.vars) == 1 and isinstance(p.elem, z3.ExprRef) and p.elem.eq(p.vars[0]):
                g = Fam([p], "set", f.live, f.order)
                if hasattr(f, "lv"):
                    g.lv = f.lv
                return g
        s = self.elem_sort(f)
        if isinstance(s, tuple):
            xs = tuple(fresh("x", q) for q in s)
            return Fam([Part(xs, self.fam_member(f, xs), xs)], "set", f.live, f.order)
        x = fresh("x", s)
        return Fam([Part((x,), self.fam_member(f, x), x)], "set", f.live, f.order)

    def fam_len(self, f):
        if f.kind == "set":
            f = self.canonical_set(f)
        n, parts = 0, []
        for p in f.parts:
            if not p.vars and z3.is_true(p.guard):
                n += 1
            else:
                parts.append(p)
        if not parts:
            return n
        t = self.card(parts, f)
        return t + n if n else t

    def scope_params(self, terms):
        return [x for x in self.loopvars if any(occurs([x], t) for t in terms)]

    def card(self, parts, f=None):
        """number of index values satisfying the guards"""
        parts = [p for p in parts if not z3.is_false(p.guard)]
        if not parts:
            return z3.IntVal(0)
        if len(parts) > 1:
            r = self.card([parts[0]])
            for p in parts[1:]:
                r = r + self.card([p])
            return r
        terms = [p.guard for p in parts]
        ps = self.scope_params(terms)
        key = tuple((tuple(v.sort().name() for v in p.vars), canon_key(p.vars, p.guard)) for p in parts)
        for c in self.cards:
            if c.key == key:
                for f in c.facts:
                    if not any(g is f for g in self.facts):
                        self.facts.append(f)
                return c.app
        nf = len(self.facts)
        d = fresh_fun("card", *[x.sort() for x in ps], Int)
        app = d(*ps)
        c = CardInfo(d, ps, parts, key, app)
        self.cards.append(c)
        self.fact(app >= 0)
        ne = Or([Exists(*open_exists(p.vars, p.guard)) for p in parts])
        self.fact(Iff(app == 0, Not(ne)))
        q, r = rename(parts[0]), rename(parts[0])
        if q.vars:
            self.fact(Implies(app >= 2, Exists(q.vars + r.vars, And(q.guard, r.guard, Or([Not(Eq(a, b)) for a, b in zip(q.vars, r.vars)])))))
        else:
            self.fact(app <= 1)
        c.facts = self.facts[nf:]
        return app

    def sum_(self, vs, guard, term):
        if isinstance(term, int):
            if term == 0:
                return z3.IntVal(0)
            c = self.card([Part(tuple(vs), guard, None)])
            return c if term == 1 else c * term
        term = self.num(term)
        ps = self.scope_params([guard, term])
        ps = [p for p in ps if not any(p.eq(v) for v in vs)]
        d = fresh_fun("sum", *[x.sort() for x in ps], term.sort())
        app = d(*ps)
        self.sums.append(SumInfo(d, ps, tuple(vs), guard, term, app))
        return app

    def fam_index(self, f, k):
        if isinstance(k, int) and not isinstance(k, bool):
            if all(not p.vars and z3.is_true(p.guard) for p in f.parts):
                if -len(f.parts) <= k < len(f.parts):
                    return f.parts[k].elem
                raise PyRaise(VExc("IndexError"))
            if f.order == "asc" and k in (0, -1) and f.kind in ("set", "list"):
                if not self.decide(f.truth(self, None)):
                    raise PyRaise(VExc("IndexError"))
                s = self.elem_sort(f)
                if s not in (Real, Int):
                    raise Unsupported("index into an ordered collection of %s" % s)
                m = fresh("ext", s)
                self.fact(self.fam_member(f, m))
                for p in map(rename, f.parts):
                    self.fact(Forall(p.vars, Implies(p.guard, m <= p.elem if k == 0 else m >= p.elem)))
                return m
        raise Unsupported("index into a collection")

    def solve_key(self, p, k):
        """the value of entry part p at key k, when the key determines the index"""
        g = And(p.guard, bool_(self.eq(p.elem[0], k)))
        pairs = []
        cur = p.elem[0]
        comps = list(zip(cur, k)) if isinstance(cur, tuple) and isinstance(k, tuple) and len(cur) == len(k) else [(cur, k)]
        for a, b in comps:
            if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and any(a.eq(v) for v in p.vars):
                pairs.append((a, b))
        if len(pairs) < len(p.vars):
            return None
        return subst(g, pairs), vsubst(p.elem[1], pairs)

    # ------------------------------------------------------------ names
    def lookup(self, name):
        f = self.fstack[-1]
        g = f
        while g is not None:
            if name in g.locals:
                v = g.locals[name]
                if isinstance(v, Poison):
                    raise Unsupported("use of %s after the loop that set it" % name)
                return v
            g = g.parent
        m = f.module
        if m is not None:
            r = resolve(self.mods, m, name)
            if r is not None:
                return self.global_value(r)
        if name in BUILTINS:
            return Builtin(name)
        raise Unsupported("name %s" % name)

    def global_value(self, r):
        if isinstance(r, Class):
            return VClass(r)
        if isinstance(r, Func):
            return VFunc(r)
        if r[0] == "module":
            return VModule(r[1])
        if r[0] == "import":
            return Builtin(r[2]) if r[2] not in self.byname else VClass(self.byname[r[2]])
        if r[0] == "expr":
            return self.eval(r[1])
        raise Unsupported("global")

    def module_attr(self, mod, name):
        if name in self.byname and mod.startswith("dynetworkx"):
            return VClass(self.byname[name])
        if mod == "operator":
            return Builtin("operator." + name.strip("_"))
        if mod == "copy" and name in ("deepcopy", "copy"):
            return Builtin("copy." + name)
        if mod == "math":
            return Builtin("math." + name)
        if mod == "itertools":
            return Builtin(name)
        return Builtin(mod + "." + name)

    # ------------------------------------------------------------ expressions
    def eval(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression " + type(e).__name__)
        return m(e)

    def e_Constant(self, e):
        if e.value is Ellipsis or isinstance(e.value, bytes):
            raise Unsupported("constant")
        return e.value

    def e_Name(self, e): return self.lookup(e.id)
    def e_JoinedStr(self, e): return Opaque()

    def mangle(self, name):
        c = self.fstack[-1].cls
        return c.mangle(name) if c else name

    def e_Attribute(self, e): return self.getattr(self.eval(e.value), self.mangle(e.attr))

    def getattr(self, v, name):
        if isinstance(v, Value):
            r, ref = self.rec(v)
            return r.getattr(self, ref, name)
        if isinstance(v, z3.ExprRef) and v.sort() == TN:
            return self.tn_getattr(v, name)
        if isinstance(v, str) or isinstance(v, z3.ExprRef) or isinstance(v, tuple):
            return BoundM(v, name)
        if isinstance(v, slice) and name in ("start", "stop", "step"):
            return getattr(v, name)
        if v is None:
            raise PyRaise(VExc("AttributeError"))
        raise Unsupported("attribute .%s of %r" % (name, v))

    def e_Tuple(self, e): return tuple(self.eval_items(e.elts))

    def eval_items(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.concrete_items(self.eval(x.value)))
            else:
                out.append(self.eval(x))
        return out

    def concrete_items(self, v):
        f = self.iter(v)
        if any(p.vars or not z3.is_true(p.guard) for p in f.parts):
            raise Unsupported("unpacking a collection of unknown size")
        return [p.elem for p in f.parts]

    def e_List(self, e): return self.alloc(CollRec("list", self.lit_parts(e.elts)))
    def e_Set(self, e): return self.alloc(CollRec("set", self.lit_parts(e.elts)))

    def lit_parts(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(map(rename, self.iter(self.eval(x.value)).parts))
            else:
                out.append(Part((), TRUE, self.eval(x)))
        return out

    def e_Dict(self, e):
        parts = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                parts.extend(map(rename, self.mapping_parts(self.eval(v))))
            else:
                kk = self.eval(k)
                parts.append(Part((), TRUE, (kk, self.eval(v))))
        return self.alloc(DictRec(parts))

    def mapping_parts(self, v):
        """(key, value) parts of a mapping"""
        if isinstance(v, HRef):
            r = self.heap[v.id]
            if isinstance(r, DictRec) and not r.groups:
                return list(r.entries)
        if isinstance(v, z3.ExprRef) and v.sort() == Rf:
            v = self.attr_content(v)
        if isinstance(v, Content):
            k = fresh("k", Key)
            return [Part((k,), v.has(k), (k, v.val(k)))]
        raise Unsupported("mapping")

    def content_of(self, v):
        """attribute content (has, val) of a dict-like value"""
        if isinstance(v, Content):
            return v
        if isinstance(v, z3.ExprRef) and v.sort() == Rf:
            return self.attr_content(v)
        if isinstance(v, HRef):
            r = self.heap[v.id]
            if isinstance(r, DictRec) and not r.groups:
                return self.entries_content(r.entries)
        raise Unsupported("attribute dictionary %r" % (v,))

    def entries_content(self, entries):
        es = []
        for p in entries:
            if not p.vars:
                es.append((lambda k, p=p: And(p.guard, Eq(self.as_key(p.elem[0]), k)),
                           lambda k, p=p: self.as_val(p.elem[1])))
            else:
                # symbolic entry: its key must be an index variable
                kv = self.as_key(p.elem[0])
                if not (len(p.vars) == 1 and kv.eq(p.vars[0])):
                    raise Unsupported("symbolic dictionary")
                es.append((lambda k, p=p, kv=kv: subst(p.guard, [(kv, k)]),
                           lambda k, p=p, kv=kv: subst(self.as_val(p.elem[1]), [(kv, k)])))

        def has(k):
            return Or([h(k) for h, _ in es])

        def val(k):
            r = z3.Const("val:none", Val)
            for h, v in es:
                c = h(k)
                r = v(k) if z3.is_true(c) else (r if z3.is_false(c) else z3.If(c, v(k), r))
            return r
        return Content(has, val)

    def e_IfExp(self, e):
        c = self.truth(self.eval(e.test))
        if not isinstance(c, bool):
            # pure numeric / boolean choice without forking
            pass
        return self.eval(e.body) if self.decide(c) else self.eval(e.orelse)

    def e_UnaryOp(self, e):
        v = self.eval(e.operand)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            return (not t) if isinstance(t, bool) else Not(t)
        if isinstance(e.op, ast.USub):
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                return -v
            n = self.num(v)
            if n.eq(INF):
                return NINF
            if n.eq(NINF):
                return INF
            return -n
        if isinstance(e.op, ast.UAdd):
            return v
        raise Unsupported("operator")

    def e_BoolOp(self, e):
        is_and = isinstance(e.op, ast.And)
        return self.boolop(is_and, e.values)

    def boolop(self, is_and, vals):
        v = self.eval(vals[0])
        if len(vals) == 1:
            return v
        t = self.truth(v)
        if isinstance(t, bool):
            return self.boolop(is_and, vals[1:]) if t == is_and else v
        if isinstance(v, z3.BoolRef):
            m = self.try_merge(lambda: self.boolop(is_and, vals[1:]), t if is_and else Not(t))
            if m is not None:
                return And(t, m) if is_and else Or(t, m)
        if self.decide(t) == is_and:
            return self.boolop(is_and, vals[1:])
        return v if not isinstance(v, z3.BoolRef) else (not is_and)

    def try_merge(self, fn, assume=None):
        """value of a pure boolean computation as one formula (no forking), or None"""
        def go():
            if assume is not None:
                self.assume(assume)
            return fn()
        h0 = dict(self.heap)
        n0 = self.nheap
        rs = self.explore(go)
        out = []
        for r in rs:
            if r.kind != "normal" or not isinstance(r.value, (bool, z3.BoolRef)) or r.facts:
                return None
            for i, x in r.heap.items():
                if i in h0 and h0[i] is not x:
                    return None
            conds = r.conds[1:] if assume is not None and not z3.is_true(assume) and r.conds and r.conds[0].eq(assume) else r.conds
            out.append(And(conds + [bool_(r.value)]))
        return Or(out)

    def e_Compare(self, e):
        left = self.eval(e.left)
        outs = []
        for i, (op, rhs) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(rhs)
            r = self.compare(CMP[type(op)], left, right)
            outs.append(r)
            if r is False:
                return False
            left = right
        return self.and_(outs) if len(outs) > 1 else outs[0]

    def compare(self, op, a, b):
        if op == "==":
            return self.eq(a, b)
        if op == "!=":
            r = self.eq(a, b)
            return (not r) if isinstance(r, bool) else Not(r)
        if op in ("is", "is not"):
            r = self.is_(a, b)
            if op == "is":
                return r
            return (not r) if isinstance(r, bool) else Not(r)
        if op == "in":
            return self.contains(b, a)
        if op == "not in":
            r = self.contains(b, a)
            return (not r) if isinstance(r, bool) else Not(r)
        if a is None or b is None:
            raise PyRaise(VExc("TypeError"))
        if isinstance(a, tuple) and isinstance(b, tuple):
            return self.lex(op, a, b)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
        if isinstance(a, z3.ExprRef) and a.sort() == Nd:
            raise Unsupported("ordering of nodes")
        x, y = self.arith2(a, b)
        return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op]

    def lex(self, op, a, b):
        if op in (">", ">="):
            return self.lex({">": "<", ">=": "<="}[op], b, a)
        if not a or not b:
            return (len(a) < len(b)) if op == "<" else (len(a) <= len(b))
        lt = self.compare("<", a[0], b[0])
        rest = self.lex(op, a[1:], b[1:])
        return Or(bool_(lt), And(bool_(self.eq(a[0], b[0])), bool_(rest)))

    def is_(self, a, b):
        if a is None or b is None:
            return self.eq(a, b)
        if isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, bool) and isinstance(b, bool):
                return a is b
            o = a if isinstance(b, bool) else b
            if isinstance(o, z3.BoolRef):
                return Iff(a, b)
            return False
        if isinstance(a, HRef) and isinstance(b, HRef):
            return a.id == b.id
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.sort() == b.sort() and a.sort() in (TN, Rf, GR):
            return Eq(a, b)
        if isinstance(a, Builtin) and isinstance(b, Builtin):
            return a.name == b.name
        if isinstance(a, VClass) and isinstance(b, VClass):
            return a.cls is b.cls
        if isinstance(a, (VClass, Builtin)) and isinstance(b, (VClass, Builtin)):
            return False
        raise Unsupported("is")

    def e_BinOp(self, e):
        return self.binop(type(e.op).__name__, self.eval(e.left), self.eval(e.right))

    def binop(self, op, a, b):
        if isinstance(a, Opaque) or isinstance(b, Opaque) or (isinstance(a, str) and op in ("Add", "Mod")):
            if isinstance(a, str) and isinstance(b, str) and op == "Add":
                return a + b
            return Opaque()
        if isinstance(a, tuple) and isinstance(b, tuple) and op == "Add":
            return a + b
        if isinstance(a, (HRef, Fam)) or isinstance(b, (HRef, Fam)):
            return self.collop(op, a, b)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not (
                isinstance(a, float) and a in (float("inf"), float("-inf"))) and op != "Div":
            import operator as o
            f = {"Add": o.add, "Sub": o.sub, "Mult": o.mul, "FloorDiv": o.floordiv, "Mod": o.mod, "Pow": o.pow}.get(op)
            if f and not (op in ("FloorDiv", "Mod") and b == 0):
                return f(a, b)
        x, y = self.arith2(a, b)
        if op == "Add":
            return x + y
        if op == "Sub":
            return x - y
        if op == "Mult":
            return x * y
        if op == "Div":
            if self.decide(Eq(y, z3.IntVal(0) if y.is_int() else z3.RealVal(0))):
                raise PyRaise(VExc("ZeroDivisionError"))
            x = z3.ToReal(x) if x.is_int() else x
            y = z3.ToReal(y) if y.is_int() else y
            return x / y
        if op in ("FloorDiv", "Mod"):
            if self.decide(Eq(y, z3.IntVal(0) if y.is_int() else z3.RealVal(0))):
                raise PyRaise(VExc("ZeroDivisionError"))
            q = fresh("quot", Int)
            xr = z3.ToReal(x) if x.is_int() else x
            yr = z3.ToReal(y) if y.is_int() else y
            for o in self.divs:
                if o[0].eq(xr) and o[1].eq(yr):
                    q = o[2]
                    break
            else:
                qr = z3.ToReal(q)
                rem = xr - qr * yr
                self.fact(Implies(yr > 0, And(rem >= 0, rem < yr)))
                self.fact(Implies(yr < 0, And(rem <= 0, rem > yr)))
                self.divs.append((xr, yr, q))
            if op == "FloorDiv":
                return q if x.is_int() and y.is_int() else z3.ToReal(q)
            r = xr - z3.ToReal(q) * yr
            return r
        raise Unsupported("operator " + op)

    @property
    def divs(self):
        if not hasattr(self, "_divs") or self._divs[0] is not self.sums:
            self._divs = (self.sums, [])
        return self._divs[1]

    def collop(self, op, a, b):
        ra = self.rec(a)[0] if isinstance(a, Value) else None
        rb = self.rec(b)[0] if isinstance(b, Value) else None
        if op == "Add" and getattr(ra, "tname", None) == "list" and getattr(rb, "tname", None) == "list":
            return self.alloc(CollRec("list", tuple(map(rename, self.iter(a).parts)) + tuple(map(rename, self.iter(b).parts))))
        m = {"BitOr": "union", "Sub": "difference", "BitAnd": "intersection"}.get(op)
        if m and getattr(ra, "tname", None) == "set":
            return self.call_method(a, m, [b], {})
        if op == "Add" and isinstance(a, GroupRef) and isinstance(b, int):
            d = self.heap[a.d.id]
            if isinstance(d, LoopDict):
                return d.carried(self, a.d, a.key, "n") + b
        raise Unsupported("operator %s on collections" % op)

    def e_Subscript(self, e):
        v = self.eval(e.value)
        return self.getitem(v, self.eval_slice(e.slice))

    def eval_slice(self, s):
        if isinstance(s, ast.Slice):
            g = lambda x: None if x is None else self.eval(x)
            if s.step is not None:
                return slice(g(s.lower), g(s.upper), g(s.step))
            return slice(g(s.lower), g(s.upper), None)
        return self.eval(s)

    def getitem(self, v, k):
        if isinstance(v, tuple):
            if isinstance(k, (int, slice)) and not isinstance(k, bool):
                try:
                    return v[k]
                except IndexError:
                    raise PyRaise(VExc("IndexError"))
            raise Unsupported("tuple index")
        if is_edge(v):
            n = len(EDGE_FIELDS[v.sort()])
            if isinstance(k, int):
                if -n <= k < n:
                    return edge_comp(v, k % n)
                raise PyRaise(VExc("IndexError"))
            if isinstance(k, slice):
                return tuple(edge_comp(v, i) for i in range(n))[k]
        if isinstance(v, z3.ExprRef) and v.sort() == Rf:
            return self.attr_content(v).getitem(self, v, k)
        if isinstance(v, Value):
            r, ref = self.rec(v)
            return r.getitem(self, ref, k)
        if v is None:
            raise PyRaise(VExc("TypeError"))
        if isinstance(v, str) and isinstance(k, int):
            return v[k]
        raise Unsupported("subscript of %r" % (v,))

    def e_Lambda(self, e):
        f = self.fstack[-1]
        return VFunc(Func(e, f.cls, f.module), None, f)

    def e_Starred(self, e): raise Unsupported("starred")

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        self.assign(e.target, v)
        return v

    def e_Call(self, e):
        args, kw = [], {}
        fn = self.eval(e.func)
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.concrete_items(self.eval(a.value)))
            else:
                args.append(self.eval(a))
        for k in e.keywords:
            if k.arg is None:
                v = self.eval(k.value)
                if isinstance(v, HRef) and isinstance(self.heap[v.id], DictRec):
                    r = self.heap[v.id]
                    if not r.groups and all(not p.vars and isinstance(p.elem[0], str) for p in r.entries):
                        for p in r.entries:
                            kw[p.elem[0]] = p.elem[1]
                        continue
                if "**" in kw:
                    raise Unsupported("two ** arguments")
                kw["**"] = v
            else:
                kw[k.arg] = self.eval(k.value)
        return self.call(fn, args, kw)

    def call(self, fn, args, kw):
        if isinstance(fn, Value):
            r, ref = self.rec(fn)
            return r.call(self, ref, args, kw)
        raise Unsupported("call of %r" % (fn,))

    def call_method(self, recv, name, args, kw):
        if isinstance(recv, Value):
            r, ref = self.rec(recv)
            return r.method(self, ref, name, args, kw)
        if isinstance(recv, z3.ExprRef) and recv.sort() == Rf:
            return self.rf_method(recv, name, args, kw)
        if isinstance(recv, str):
            if name == "format" or name == "join":
                return Opaque()
        if isinstance(recv, tuple) and name in ("index", "count"):
            raise Unsupported("tuple method")
        if isinstance(recv, z3.ExprRef) and recv.sort() == Nd:
            raise Unsupported("method of a node label")
        raise Unsupported("method %s of %r" % (name, recv))

    # attribute dictionaries: hooks filled by the graph theory
    def attr_content(self, r): raise Unsupported("attribute dictionary")
    def rf_method(self, r, name, args, kw): raise Unsupported("attribute dictionary")
    def tn_getattr(self, v, name): raise Unsupported("tree node")
    def tn_setattr(self, v, name, x): raise Unsupported("tree node")
    def hook_field(self, rec, ref, name): return None
    def coerce_field(self, cls, name, v): return v

    # ------------------------------------------------------------ calls
    def bind(self, func, recv, args, kw):
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        loc = {}
        args = list(args)
        if recv is not None:
            args = [recv] + args
        kw = dict(kw)
        star = kw.pop("**", None)
        if len(args) > len(names):
            if a.vararg is None:
                raise PyRaise(VExc("TypeError"))
            loc[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None:
            loc[a.vararg.arg] = ()
        for n, v in zip(names, args):
            loc[n] = v
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            names.append(x.arg)
            if d is not None:
                defaults[x.arg] = d
        extra = {}
        for k, v in kw.items():
            if k in names:
                if k in loc:
                    raise PyRaise(VExc("TypeError"))
                loc[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise PyRaise(VExc("TypeError"))
        for n in names:
            if n not in loc:
                if n not in defaults:
                    raise PyRaise(VExc("TypeError"))
                loc[n] = self.eval_default(func, defaults[n])
        if a.kwarg is not None:
            loc[a.kwarg.arg] = self.make_kwargs(star, extra)
        elif star is not None:
            raise Unsupported("** argument to a function without **kwargs")
        return loc

    def eval_default(self, func, d):
        self.fstack.append(Frame(func, func.cls, func.module))
        try:
            return self.eval(d)
        finally:
            self.fstack.pop()

    def make_kwargs(self, star, extra):
        parts = []
        if star is not None:
            parts += self.mapping_parts(star)
        parts += [Part((), TRUE, (k, v)) for k, v in extra.items()]
        return self.alloc(DictRec(parts))

    def call_func(self, func, recv, args, kw, frame=None):
        if func.other_decs:
            raise Unsupported("decorated function %s" % func.name)
        loc = self.bind(func, recv, args, kw)
        self.inlined.add(func.qual)
        if func.is_gen:
            return self.alloc(GenRec(lambda: self.run_gen(func, loc, frame)))
        return self.run_body(func, loc, frame)

    def run_body(self, func, loc, frame=None):
        if self.depth > 40:
            raise Unsupported("recursion without a contract: " + func.name)
        fr = Frame(func, func.cls, func.module, frame)
        fr.locals = dict(loc)
        self.fstack.append(fr)
        self.depth += 1
        try:
            if isinstance(func.node, ast.Lambda):
                return self.eval(func.node.body)
            try:
                self.block(func.node.body)
            except ReturnSig as r:
                return r.v
            return None
        finally:
            self.depth -= 1
            self.fstack.pop()

    def run_gen(self, func, loc, frame=None):
        fr = Frame(func, func.cls, func.module, frame)
        fr.locals = dict(loc)
        y = self.alloc(CollRec("list", ()))
        fr.yields = y
        self.fstack.append(fr)
        self.depth += 1
        try:
            try:
                self.block(func.node.body)
            except ReturnSig:
                pass
            r = self.heap[y.id]
            return Fam(r.parts, "list", self.graph_records(), r.order)
        finally:
            self.depth -= 1
            self.fstack.pop()

    def graph_records(self):
        """heap records a running generator may be reading"""
        return tuple(i for i, r in self.heap.items() if getattr(r, "shared", False))

    def yield_coll(self):
        f = self.fstack[-1]
        while f is not None and f.yields is None:
            f = f.parent
        if f is None:
            raise Unsupported("yield")
        return f.yields

    def e_Yield(self, e):
        v = None if e.value is None else self.eval(e.value)
        y = self.yield_coll()
        self.heap[y.id].add_part(self, y, Part((), TRUE, v))
        return Opaque()

    def e_YieldFrom(self, e):
        f = self.iter(self.eval(e.value))
        if f.kind == "set":
            f = self.canonical_set(f)
        y = self.yield_coll()
        r = self.heap[y.id]
        if isinstance(r, CollRec) and not r.parts:
            self.put(y, CollRec(r.kind, map(rename, f.parts), f.order))
            return Opaque()
        for p in map(rename, f.parts):
            self.heap[y.id].add_part(self, y, p)
        return Opaque()

    def call_static(self, cls, func, args, kw): return self.call_func(func, None, args, kw)

    def call_obj_method(self, ref, rec, name, args, kw):
        f = rec.cls.lookup(name)
        if f is None:
            raise PyRaise(VExc("AttributeError"))
        if f.static:
            return self.call_static(rec.cls, f, args, kw)
        return self.call_func(f, ref, args, kw)

    def instantiate(self, cls, args, kw):
        init = cls.lookup("__init__")
        ref = self.alloc(ObjRec(cls, {}))
        if init is not None:
            self.call_func(init, ref, args, kw)
        return ref

    # ------------------------------------------------------------ comprehensions
    def comp(self, gens, elt, kind):
        """parts of a comprehension; evaluated now"""
        parent = self.fstack[-1]
        out = []
        scope = Frame(parent.func, parent.cls, parent.module, parent)

        def level(i, vs, guard):
            if i == len(gens):
                v = elt()
                out_local.append(Part(tuple(vs), guard, v))
                return
            raise AssertionError

        def run(i, vs, guards):
            """returns list of parts for generators i.. under current scope"""
            if i == len(gens):
                rs = self.explore(lambda: elt())
                ps = []
                for r in rs:
                    self.check_pure(r, "comprehension")
                    if r.kind == "raise":
                        raise_paths.append((tuple(vs), And(guards + r.conds), r.value))
                        continue
                    self.lift_facts(r, vs, guards)
                    base = set(self.heap)
                    self.adopt(r)
                    ps.append(Part(tuple(vs), And(guards + r.conds), self.settled(r.value, base, vs)))
                return ps
            g = gens[i]
            if g.is_async:
                raise Unsupported("async")
            f = self.iter(self.eval(g.iter)) if i or first is None else first
            if f.kind == "set":
                f = self.canonical_set(f)
            ps = []
            for p in map(rename, f.parts):
                def one():
                    self.assume(p.guard)
                    self.assign(g.target, p.elem)
                    for c in g.ifs:
                        self.assume(self.truth(self.eval(c)))
                    sub = run(i + 1, list(vs) + list(p.vars), guards + self.conds[n0:])
                    return sub
                n0 = len(self.conds)
                self.loopvars.extend(p.vars)
                try:
                    rs = self.explore(one)
                finally:
                    del self.loopvars[len(self.loopvars) - len(p.vars):]
                for r in rs:
                    self.check_pure(r, "comprehension")
                    if r.kind == "raise":
                        raise_paths.append((tuple(vs) + p.vars, And(guards + r.conds), r.value))
                        continue
                    self.adopt(r)
                    ps.extend(r.value)
            return ps

        raise_paths = []
        out_local = []
        first = None
        f0 = self.iter(self.eval(gens[0].iter))
        first = f0
        self.fstack.append(scope)
        try:
            parts = run(0, [], [])
        finally:
            self.fstack.pop()
        for vs, g, exc in raise_paths:
            if self.decide(Exists(vs, g)):
                raise PyRaise(exc)
        return parts, f0

    def adopt(self, r):
        """records allocated on an explored path stay reachable"""
        for i, x in r.heap.items():
            if i not in self.heap:
                self.heap[i] = x

    def check_pure(self, r, what):
        if r.kind not in ("normal", "raise"):
            raise Unsupported("control flow in a " + what)
        for i, x in r.heap.items():
            if i in self.heap and self.heap[i] is not x and not isinstance(x, GenRec):
                raise Unsupported("side effect in a " + what)

    def lift_facts(self, r, vs, guards):
        for f in r.facts:
            if vs and occurs(vs, f):
                self.fact(Forall(vs, Implies(And(guards), f)))
            else:
                self.fact(f)

    def e_ListComp(self, e):
        ps, f = self.comp(e.generators, lambda: self.eval(e.elt), "list")
        return self.alloc(CollRec("list", ps, comp_order(e.generators, f, ps)))

    def e_SetComp(self, e):
        ps, f = self.comp(e.generators, lambda: self.eval(e.elt), "set")
        return self.alloc(CollRec("set", ps))

    def e_GeneratorExp(self, e):
        # the outermost iterable is evaluated now, the rest when consumed
        it = self.eval(e.generators[0].iter)
        if not isinstance(it, Value):
            self.iter(it)          # TypeError for non-iterables
        frame = self.fstack[-1]
        loc = dict(frame.locals)

        def thunk():
            fr = Frame(frame.func, frame.cls, frame.module, frame.parent)
            fr.locals = dict(loc)
            fr.locals["#it"] = it
            g0 = e.generators[0]
            gens = [ast.comprehension(target=g0.target, iter=ast.Name(id="#it", ctx=ast.Load()), ifs=g0.ifs, is_async=0)] + e.generators[1:]
            self.fstack.append(fr)
            try:
                ps, _ = self.comp(gens, lambda: self.eval(e.elt), "list")
            finally:
                self.fstack.pop()
            return Fam(ps, "list", self.graph_records(), comp_order(gens, _, ps))
        return self.alloc(GenRec(thunk))

    def e_DictComp(self, e):
        ps, f = self.comp(e.generators, lambda: (self.eval(e.key), self.eval(e.value)), "list")
        return self.alloc(DictRec(ps))

    # ------------------------------------------------------------ statements
    def block(self, stmts):
        for s in stmts:
            self.stmt(s)

    def stmt(self, s):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement " + type(s).__name__)
        self.line = getattr(s, "lineno", None)
        return m(s)

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value)

    def s_Pass(self, s): pass
    def s_Import(self, s): raise Unsupported("import in a function")
    def s_Break(self, s): raise BreakSig()
    def s_Continue(self, s): raise ContinueSig()
    def s_Assert(self, s):
        if not self.decide(self.truth(self.eval(s.test))):
            raise PyRaise(VExc("AssertionError"))
    def s_Return(self, s): raise ReturnSig(None if s.value is None else self.eval(s.value))
    def s_Global(self, s): raise Unsupported("global")

    def s_FunctionDef(self, s):
        f = self.fstack[-1]
        f.locals[s.name] = VFunc(Func(s, f.cls, f.module), None, f)

    def s_Raise(self, s):
        if s.exc is None:
            raise Unsupported("re-raise")
        v = self.eval(s.exc)
        if isinstance(v, Builtin):
            v = VExc(v.name)
        if not isinstance(v, VExc):
            raise Unsupported("raise of %r" % (v,))
        raise PyRaise(v)

    def s_If(self, s):
        t = self.truth(self.eval(s.test))
        if self.decide(t):
            self.block(s.body)
        else:
            self.block(s.orelse)

    def s_Assign(self, s):
        v = self.eval(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value))

    def s_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id)
            v = self.eval(s.value)
            r = self.aug(type(s.op).__name__, cur, v)
            self.assign(t, r)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            n = self.mangle(t.attr)
            cur = self.getattr(o, n)
            self.setattr(o, n, self.aug(type(s.op).__name__, cur, self.eval(s.value)))
        elif isinstance(t, ast.Subscript):
            o, k = self.eval(t.value), self.eval_slice(t.slice)
            self.setitem(o, k, self.aug(type(s.op).__name__, self.getitem(o, k), self.eval(s.value)))
        else:
            raise Unsupported("augmented assignment")

    def aug(self, op, cur, v):
        if isinstance(cur, HRef):
            r = self.heap[cur.id]
            k = getattr(r, "tname", None)
            if op == "Add" and k == "list":
                self.call_method(cur, "extend", [v], {})
                return cur
            if op == "BitOr" and k == "set":
                self.call_method(cur, "update", [v], {})
                return cur
            if op == "Sub" and k == "set":
                self.call_method(cur, "difference_update", [v], {})
                return cur
        return self.binop(op, cur, v)

    def setattr(self, o, name, v):
        if isinstance(o, Value):
            r, ref = self.rec(o)
            return r.setattr(self, ref, name, v)
        if isinstance(o, z3.ExprRef) and o.sort() == TN:
            return self.tn_setattr(o, name, v)
        raise Unsupported("attribute assignment")

    def setitem(self, o, k, v):
        if isinstance(o, Value):
            r, ref = self.rec(o)
            return r.setitem(self, ref, k, v)
        if isinstance(o, z3.ExprRef) and o.sort() == Rf:
            return self.rf_method(o, "__setitem__", [k, v], {})
        raise Unsupported("item assignment")

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            f = self.fstack[-1]
            f.locals[t.id] = v
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value), self.mangle(t.attr), v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value), self.eval_slice(t.slice), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(x, ast.Starred) for x in t.elts):
                raise Unsupported("starred target")
            vs = self.concrete_items(v)
            if len(vs) != len(t.elts):
                raise PyRaise(VExc("ValueError"))
            for x, y in zip(t.elts, vs):
                self.assign(x, y)
        else:
            raise Unsupported("assignment target")

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o, k = self.eval(t.value), self.eval_slice(t.slice)
                r, ref = self.rec(o)
                r.delitem(self, ref, k)
            elif isinstance(t, ast.Name):
                self.fstack[-1].locals.pop(t.id, None)
            else:
                raise Unsupported("del")

    def s_Try(self, s):
        if s.finalbody:
            raise Unsupported("finally")
        try:
            self.block(s.body)
        except PyRaise as r:
            for h in s.handlers:
                if h.type is None or self.exc_match(r.exc, h.type):
                    if h.name:
                        self.fstack[-1].locals[h.name] = r.exc
                    self.block(h.body)
                    return
            raise
        else:
            self.block(s.orelse)

    def exc_match(self, exc, t):
        ns = [x.id if isinstance(x, ast.Name) else x.attr for x in (t.elts if isinstance(t, ast.Tuple) else [t])]
        up = {"KeyError": ["LookupError"], "IndexError": ["LookupError"], "ZeroDivisionError": ["ArithmeticError"]}
        fam = [exc.name] + up.get(exc.name, []) + ["Exception", "BaseException"]
        return any(n in fam for n in ns)

    def s_With(self, s): raise Unsupported("with")

    def s_While(self, s):
        # only loops whose condition is decided concretely each time round
        n = 0
        while True:
            t = self.truth(self.eval(s.test))
            if not isinstance(t, bool):
                raise Unsupported("while loop")
            if not t:
                self.block(s.orelse)
                return
            n += 1
            if n > 50:
                raise Unsupported("while loop")
            try:
                self.block(s.body)
            except BreakSig:
                return
            except ContinueSig:
                pass

    def s_For(self, s): self.for_over(s, self.eval(s.iter))

    def for_over(self, s, it):
        f = self.iter(it)
        if f.kind == "set" and not (len(f.parts) == 1 and not f.parts[0].vars):
            f = self.canonical_set(f)
        broke = False
        parts = list(f.parts)
        if parts and all(not p.vars for p in parts):
            live0 = {i: self.heap.get(i) for i in f.live}
        for p in parts:
            if not p.vars:
                if not self.decide(p.guard):
                    continue
                self.assign(s.target, p.elem)
                try:
                    self.block(s.body)
                except BreakSig:
                    broke = True
                    break
                except ContinueSig:
                    pass
                for i in f.live:
                    if live0[i] is not self.heap.get(i):
                        raise Unsupported("collection changed while iterated")
            else:
                if self.sym_loop(rename(p), s, f):
                    broke = True
                    break
        if not broke:
            self.block(s.orelse)

    # ------------------------------------------------------------ loop summaries
    def sym_loop(self, part, s, fam):
        """summarise `for target in part: body`. Returns True if left by break."""
        fr = self.fstack[-1]
        tnames = target_names(s.target)

        def body():
            self.assume(part.guard)
            self.assign(s.target, part.elem)
            self.block(s.body)

        def explore_body():
            self.loopvars.extend(part.vars)
            try:
                return self.explore(body)
            finally:
                del self.loopvars[len(self.loopvars) - len(part.vars):]

        h0, l0 = dict(self.heap), dict(fr.locals)
        ng = len(conjuncts(part.guard)) and (0 if z3.is_true(part.guard) else 1)
        r1 = explore_body()
        mod_heap = sorted({i for r in r1 for i, x in r.heap.items() if i in h0 and h0[i] is not x and r.kind == "normal"})
        exit_mod = {i for r in r1 for i, x in r.heap.items() if i in h0 and h0[i] is not x and r.kind != "normal"}
        for i in fam.live:
            if i in mod_heap and self.iter_conflict(h0[i], [r.heap[i] for r in r1 if r.kind == "normal"], fam):
                raise Unsupported("collection changed while iterated")
        mod_loc = sorted({n for r in r1 for n in r.locals if n in l0 and n not in tnames and not isinstance(l0[n], Poison)
                          and not self.same(r.locals[n], l0[n]) and r.kind == "normal"})
        new_loc = sorted({n for r in r1 for n in r.locals if n not in l0 or isinstance(l0[n], Poison)} | set(tnames))
        comps = [i for i in mod_heap if getattr(h0[i], "component", False)]
        simple = [i for i in mod_heap if i not in comps]
        for i in simple:
            if not hasattr(h0[i], "loop_base"):
                if isinstance(h0[i], GenRec):
                    raise Unsupported("generator consumed in a loop")
                if isinstance(h0[i], ObjRec) and self.only_component_fields(h0[i], [r.heap[i] for r in r1 if r.kind == "normal"]):
                    continue
                raise Unsupported("loop modifies %s" % type(h0[i]).__name__)
        simple = [i for i in simple if hasattr(h0[i], "loop_base")]
        # second pass: generic state for what the loop carries
        generic = {}
        carried = []
        if simple or mod_loc:
            for i in simple:
                self.heap[i] = h0[i].loop_base(self)
            last = self.only_last(part, fam, r1, l0, mod_loc)
            for n in mod_loc:
                if n in last:
                    continue
                g = self.generic_scalar(n, l0[n])
                fr.locals[n] = g
                generic[n] = g
            b0 = {i: self.heap[i] for i in simple}
            r2 = explore_body()
            for i in simple:
                self.heap[i] = h0[i]
            fr.locals = dict(l0)
            if last and self.only_last(part, fam, r2, l0, last) != last:
                raise Unsupported("loop updates variable %s" % last[0])
            mod_loc = [n for n in mod_loc if n not in last]
            new_loc = sorted(set(new_loc) | set(last))
        else:
            r2 = r1
        if comps:
            r2 = self.comp_loop(part, s, comps, h0, r2, simple, explore_body)
            if r2 is None:
                for n in new_loc:
                    fr.locals[n] = Poison()
                return False
        exits = [r for r in r2 if r.kind in ("break", "return", "raise")]
        normals = [r for r in r2 if r.kind == "normal"]
        if exits and (mod_loc or simple or comps):
            if all(r.kind == "raise" for r in exits):
                pass
            elif mod_loc and not simple and not comps and self.flag_exits(exits, normals, mod_loc):
                pass
            else:
                raise Unsupported("loop with early exit and updates")
        strip = lambda r: [c for c in r.conds if not c.eq(part.guard)]
        # early exits
        for r in exits:
            c = And([part.guard] + strip(r))
            if r.facts:
                raise Unsupported("facts in an exit path")
            if self.decide(Exists(part.vars, c)):
                self.fact(c)           # the loop variables now name the element that left the loop
                for i, x in r.heap.items():
                    if i not in h0:
                        self.heap[i] = x
                    elif h0[i] is not x:
                        self.heap[i] = x
                if r.kind == "return":
                    raise ReturnSig(r.value)
                if r.kind == "raise":
                    raise PyRaise(r.value)
                fr.locals = dict(r.locals)
                return True
        # normal completion
        for r in normals:
            self.lift_facts(r, part.vars, [part.guard] + strip(r))
        res = [(And(strip(r)), r) for r in normals]
        for i in simple:
            rs = []
            for pc, r in res:
                rec = r.heap[i]
                cs = [t[1] if isinstance(t[0], str) else t[0] for t in getattr(rec, "tests", ())]
                cs = [c for c in cs if c.sort() == Bool and not z3.is_true(c)]
                if cs:
                    # the first time
                    keep = []
                    for d in conjuncts(pc):
                        e = subst(d, [(c, FALSE) for c in cs])
                        f = z3.simplify(e)
                        keep.append(f if z3.is_true(f) or z3.is_false(f) else e)
                    pc = And(keep)
                rs.append((pc, rec))
            self.check_carried(i, res, part)
            for pc, r in res:
                for j, x in r.heap.items():
                    if j not in self.heap:
                        self.heap[j] = x
            self.merge_pos = is_pos(fam)
            rs = [(pc, self.settled_tail(rec, h0, part.vars)) for pc, rec in rs]
            self.heap[i] = h0[i].loop_merge(self, HRef(i), [(a, b) for a, b in rs if not z3.is_false(a)], part)
        for n in mod_loc:
            fr.locals[n] = self.merge_scalar(n, l0[n], generic[n], res, part)
        for n in new_loc:
            fr.locals[n] = Poison()
        return False

    def settled(self, v, base, vs):
        """a value made for every value of vs: a list or dict in it becomes a function of them"""
        if not vs:
            return v
        if isinstance(v, tuple):
            return tuple(self.settled(x, base, vs) for x in v)
        if isinstance(v, HRef) and v.id not in base:
            r = self.heap[v.id]
            if type(r) is CollRec:
                return Fam([Part(p.vars, p.guard, self.settled(p.elem, base, vs)) for p in r.parts], r.kind, (), r.order)
            if isinstance(r, DictRec) and not r.groups:
                return self.content_of(v)
            raise Unsupported("%s made for every element" % type(r).__name__)
        return v

    def settled_tail(self, rec, base, vs):
        if not isinstance(rec, LoopColl):
            return rec
        rec = copy.copy(rec)
        rec.tail = tuple(Part(p.vars, p.guard, self.settled(p.elem, base, vs)) for p in rec.tail)
        return rec

    def only_last(self, part, fam, results, l0, names):
        """variables assigned in no iteration but the last one of a loop over ascending integers:
        every iteration starts with their initial value"""
        if not (fam.order == "asc" and len(fam.parts) == 1 and len(part.vars) == 1 and part.vars[0].sort() == Int
                and isinstance(part.elem, z3.ExprRef) and part.elem.eq(part.vars[0])):
            return []
        out = []
        i, j = part.vars[0], fresh("j", Int)
        for n in names:
            ok = True
            for r in results:
                if r.kind != "normal" or n in r.locals and self.same(r.locals[n], l0[n]):
                    continue
                pc = And([part.guard] + r.conds)
                if not Solver.quick_unsat(self.ctx() + r.facts + [part.guard, subst(pc, [(i, j)]), subst(And(r.facts), [(i, j)]), j < i]):
                    ok = False
            if ok:
                out.append(n)
        return out

    def iter_conflict(self, old, news, fam): return True
    def only_component_fields(self, old, news): return False
    def comp_loop(self, part, s, comps, h0, r2, simple, explore_body): raise Unsupported("loop updates a graph")

    def flag_exits(self, exits, normals, mod_loc):
        return all(all(self.same(r.locals.get(n), normals[0].locals.get(n)) for n in mod_loc) for r in normals)

    def check_carried(self, i, res, part):
        """the de-duplication idiom is the only loop-carried read allowed: `x not in S` before
        S.add(x); the branch where x is already there must do nothing else"""
        if any(isinstance(r.heap[i], LoopDict) for _, r in res):
            return LoopDict.check(self, i, res)
        tests = [(c, x) for _, r in res for c, x in getattr(r.heap[i], "tests", ())]
        if not tests:
            return
        for pc, r in res:
            rec = r.heap[i]
            ts = getattr(rec, "tests", ())
            for c, x in ts:
                neg = any(d.eq(Not(c)) for d in r.conds)
                added = [p for p in rec.tail if not p.vars and self.same(p.elem, x)]
                others = [p for p in rec.tail if not any(self.same(p.elem, y) for _, y in ts)]
                if others:
                    raise Unsupported("loop-carried membership test")
        # whatever was there before, the iteration leaves the set it would leave had nothing been there
        cs = {}
        for c, x in tests:
            cs.setdefault(str(c), (c, x))
        cs = list(cs.values())
        if len(cs) > 1:
            zero = [(c, FALSE) for c, _ in cs]
            ps = [(And([d for d in r.conds]), p) for _, r in res for p in r.heap[i].tail]
            agree = [Implies(bool_(self.eq(x, y)), Iff(c, d)) for c, x in cs for d, y in cs if c is not d]
            base = self.ctx() + [f for _, r in res for f in r.facts]
            for c, x in cs:
                inn = lambda q: Or([And(q(g), bool_(self.eq(p.elem, x))) for g, p in ps])
                was = Or(c, inn(lambda g: g))
                now = Or(c, inn(lambda g: subst(g, zero)))
                if not Solver.quick_unsat(base + agree + [Not(Iff(was, now))], 400000):
                    raise Unsupported("loop-carried membership test guarding another update")
        if self.heap_kind(i) != "set":
            raise Unsupported("loop-carried membership test on a list")
        for pc, r in res:
            for j, x in r.heap.items():
                if j != i and j in self.heap and self.heap[j] is not x and not isinstance(x, (LoopColl,)):
                    raise Unsupported("loop-carried membership test guarding another update")

    def heap_kind(self, i): return getattr(self.heap[i], "kind", None)

    def generic_scalar(self, n, v):
        if isinstance(v, bool) or isinstance(v, z3.BoolRef):
            return fresh(n, Bool)
        if isinstance(v, int) or isinstance(v, z3.ArithRef) and v.is_int():
            return fresh(n, Int)
        if isinstance(v, float) or isinstance(v, z3.ArithRef):
            return fresh(n, Real)
        raise Unsupported("loop updates variable %s" % n)

    def merge_scalar(self, n, v0, g, res, part):
        if any(occurs([g], c) for pc, _ in res for c in [pc]):
            raise Unsupported("loop-carried condition on %s" % n)
        if z3.is_bool(g):
            sets = []
            for pc, r in res:
                v = r.locals[n]
                if isinstance(v, z3.ExprRef) and v.eq(g):
                    continue
                if not isinstance(v, bool):
                    raise Unsupported("loop updates flag %s" % n)
                sets.append((pc, v))
            vals = {v for _, v in sets}
            if len(vals) != 1:
                raise Unsupported("loop updates flag %s both ways" % n)
            ex = Exists(part.vars, And(part.guard, Or([pc for pc, _ in sets])))
            return Or(bool_(v0), ex) if vals == {True} else And(bool_(v0), Not(ex))
        total = self.num(v0)
        for pc, r in res:
            v = r.locals[n]
            if isinstance(v, z3.ExprRef) and v.eq(g):
                continue
            d = self.num(v)
            x, y = self.arith2(d, g)
            delta = z3.simplify(x - y)
            if occurs([g], delta):
                raise Unsupported("loop updates %s" % n)
            if z3.is_int_value(delta):
                delta = delta.as_long()
            a, b = self.arith2(total, self.sum_(part.vars, And(part.guard, pc), delta))
            total = a + b
        return total

    # ------------------------------------------------------------ builtins
    def builtin(self, name, args, kw):
        m = getattr(self, "b_" + name.replace(".", "_"), None)
        if m is not None:
            return m(args, kw)
        if name in EXCEPTIONS:
            return VExc(name)
        r = self.hook_builtin(name, args, kw)
        if r is not None:
            return r
        raise Unsupported("call of %s" % name)

    def hook_builtin(self, name, args, kw): return None

    def b_len(self, args, kw):
        v = args[0]
        if isinstance(v, tuple):
            return len(v)
        if is_edge(v):
            return len(EDGE_FIELDS[v.sort()])
        if isinstance(v, Value):
            r, ref = self.rec(v)
            if isinstance(r, GenRec):
                raise PyRaise(VExc("TypeError"))
            return r.length(self, ref)
        if isinstance(v, z3.ExprRef) and v.sort() == Rf:
            raise Unsupported("len of attributes")
        raise Unsupported("len of %r" % (v,))

    def b_list(self, args, kw):
        if not args:
            return self.alloc(CollRec("list", ()))
        f = self.iter(args[0])
        if f.kind == "set":
            f = self.canonical_set(f)
        return self.alloc(CollRec("list", tuple(map(rename, f.parts)), f.order))

    def b_tuple(self, args, kw):
        return tuple(self.concrete_items(args[0])) if args else ()

    def b_set(self, args, kw):
        if not args:
            return self.alloc(CollRec("set", ()))
        return self.alloc(CollRec("set", tuple(map(rename, self.iter(args[0]).parts))))

    b_frozenset = b_set

    def b_dict(self, args, kw):
        parts = []
        for a in args:
            if isinstance(a, HRef) or isinstance(a, (Content,)) or isinstance(a, z3.ExprRef):
                parts += map(rename, self.mapping_parts(a))
            else:
                raise Unsupported("dict()")
        if "**" in kw:
            parts += map(rename, self.mapping_parts(kw["**"]))
        parts += [Part((), TRUE, (k, v)) for k, v in kw.items() if k != "**"]
        return self.alloc(DictRec(parts))

    def b_SortedDict(self, args, kw):
        if args or kw:
            raise Unsupported("SortedDict with arguments")
        return self.alloc(DictRec())

    def b_sorted(self, args, kw):
        if kw:
            raise Unsupported("sorted with a key")
        f = self.iter(args[0])
        if f.kind == "set":
            f = self.canonical_set(f)
        return self.alloc(CollRec("list", tuple(map(rename, f.parts)), "asc"))

    def b_iter(self, args, kw):
        if not isinstance(args[0], Value):
            self.iter(args[0])          # TypeError for non-iterables
        return self.alloc(GenRec(lambda: self.iter(args[0])))

    def b_any(self, args, kw):
        f = self.iter(args[0])
        return Or([Exists(p.vars, And(p.guard, bool_(self.truth(p.elem)))) for p in map(rename, f.parts)])

    def b_all(self, args, kw):
        f = self.iter(args[0])
        return Not(Or([Exists(p.vars, And(p.guard, Not(bool_(self.truth(p.elem))))) for p in map(rename, f.parts)]))

    def b_sum(self, args, kw):
        f = self.iter(args[0])
        if f.kind == "set":
            f = self.canonical_set(f)
        t = self.num(args[1]) if len(args) > 1 else z3.IntVal(0)
        for p in map(rename, f.parts):
            e = p.elem
            if isinstance(e, bool):
                e = int(e)
            g = p.guard
            if isinstance(e, z3.BoolRef):
                g, e = And(g, e), 1
            x, y = self.arith2(t, self.sum_(p.vars, g, e) if p.vars or not z3.is_true(g) else e)
            t = x + y
        return t

    def minmax(self, args, lo):
        xs = args if len(args) > 1 else self.concrete_items(args[0])
        r = None
        for x in xs:
            if r is None:
                r = self.num(x)
                continue
            a, b = self.arith2(r, x)
            c = (a <= b) if lo else (a >= b)
            if a.eq(INF) and lo or a.eq(NINF) and not lo:
                r = z3.If(c, a, b)
            else:
                r = z3.If(c, a, b)
        return r

    def b_min(self, args, kw):
        if kw:
            raise Unsupported("min with options")
        return self.minmax(args, True)

    def b_max(self, args, kw):
        if kw:
            raise Unsupported("max with options")
        return self.minmax(args, False)

    def b_abs(self, args, kw):
        x = self.num(args[0])
        return z3.If(x >= 0, x, -x)

    def b_float(self, args, kw):
        x = args[0]
        if isinstance(x, str) and x.lower().lstrip("+-") in ("inf", "infinity"):
            return NINF if x.startswith("-") else INF
        if self.is_num(x):
            n = self.num(x)
            return z3.ToReal(n) if n.is_int() else n
        raise Unsupported("float(%r)" % (x,))

    def b_int(self, args, kw):
        x = args[0]
        if isinstance(x, bool):
            return int(x)
        if isinstance(x, int):
            return x
        if isinstance(x, z3.ArithRef):
            if x.is_int():
                return x
            if z3.is_app_of(x, z3.Z3_OP_TO_REAL):
                return x.arg(0)
            return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
        raise Unsupported("int(%r)" % (x,))

    def b_bool(self, args, kw): return self.truth(args[0])

    def b_print(self, args, kw):
        if set(kw) - {"sep", "end", "flush"}:
            raise Unsupported("print(..., file=)")
        return None

    def b_range(self, args, kw):
        lo, hi = (0, args[0]) if len(args) == 1 else args[:2]
        if len(args) > 2:
            raise Unsupported("range step")
        if isinstance(lo, int) and isinstance(hi, int):
            return Fam([Part((), TRUE, i) for i in range(lo, hi)])
        if isinstance(lo, z3.ArithRef) and not lo.is_int() or isinstance(hi, z3.ArithRef) and not hi.is_int():
            raise PyRaise(VExc("TypeError"))
        i = fresh("i", Int)
        return Fam([Part((i,), And(i >= self.num(lo), i < self.num(hi)), i)], order="asc")

    def b_enumerate(self, args, kw):
        start = args[1] if len(args) == 2 else kw.get("start", 0)
        if not isinstance(start, int) or not args or set(kw) - {"start"}:
            raise Unsupported("enumerate")
        f = self.iter(args[0])
        if isinstance(f, Fam) and f.kind != "set" and all(not p.vars and z3.is_true(p.guard) for p in f.parts):
            return Fam([Part((), TRUE, (start + i, p.elem)) for i, p in enumerate(f.parts)])
        raise Unsupported("enumerate")

    def b_product(self, args, kw):
        if kw:
            raise Unsupported("product with options")
        parts = [Part((), TRUE, ())]
        for a in args:
            f = self.iter(a)
            if f.kind == "set":
                f = self.canonical_set(f)
            parts = [Part(p.vars + q.vars, And(p.guard, q.guard), p.elem + (q.elem,)) for p in parts for q in map(rename, f.parts)]
        return Fam(parts)

    def b_chain(self, args, kw):
        return Fam([p for a in args for p in map(rename, self.as_list(self.iter(a)).parts)])

    def as_list(self, f): return self.canonical_set(f) if f.kind == "set" else f

    def b_map(self, args, kw):
        f = self.iter(args[1])
        return self.map_filter(f, lambda x: self.call(args[0], [x], {}), None)

    def b_filter(self, args, kw):
        f = self.iter(args[1])
        return self.map_filter(f, None, lambda x: self.truth(x if args[0] is None else self.call(args[0], [x], {})))

    def map_filter(self, f, mp, flt):
        out = []
        for p in map(rename, self.as_list(f).parts):
            def one():
                self.assume(p.guard)
                if flt:
                    self.assume(flt(p.elem))
                return mp(p.elem) if mp else p.elem
            self.loopvars.extend(p.vars)
            try:
                rs = self.explore(one)
            finally:
                del self.loopvars[len(self.loopvars) - len(p.vars):]
            for r in rs:
                self.check_pure(r, "map")
                if r.kind == "raise":
                    raise Unsupported("exception in map/filter")
                self.lift_facts(r, p.vars, [])
                self.adopt(r)
                out.append(Part(p.vars, And(r.conds), r.value))
        return Fam(out, "list", (), "pos" if is_pos(f) else None)

    def b_isinstance(self, args, kw):
        v, t = args
        ts = t if isinstance(t, tuple) else (t,)
        return self.or_([self.isinst(v, x) for x in ts])

    def isinst(self, v, t):
        n = t.name if isinstance(t, Builtin) else t.cls.name if isinstance(t, VClass) else None
        if n is None:
            raise Unsupported("isinstance")
        if isinstance(v, z3.ExprRef):
            if v.sort() == Nd:
                if n == "str":
                    return is_str(v)
                if n in ("list", "set", "dict", "tuple"):
                    return False
                raise Unsupported("isinstance of a node")
            if is_edge(v):
                return n == "tuple"
            if v.sort() == Real or v.sort() == Int:
                if n in ("list", "set", "dict", "tuple", "str", "bool", "NoneType"):
                    return False
                if n in ("int", "float"):
                    return self.eq(NumType(v), Builtin(n))
            if v.sort() == Rf:
                return n == "dict"
            raise Unsupported("isinstance of %s" % v.sort())
        if v is None:
            return False
        if isinstance(v, (bool, int, float, str, tuple)):
            return n in [c.__name__ for c in type(v).__mro__]
        r, ref = self.rec(v)
        k = getattr(r, "tname", None)
        if isinstance(r, ObjRec):
            return n in r.cls.mro_names()
        if k == "fam":
            return False
        if k is None:
            raise Unsupported("isinstance")
        return k == n

    def b_type(self, args, kw):
        v = args[0]
        if isinstance(v, bool) or isinstance(v, z3.BoolRef):
            return Builtin("bool")
        if isinstance(v, int):
            return Builtin("int")
        if isinstance(v, float):
            return Builtin("float")
        if isinstance(v, z3.ArithRef):
            return NumType(v)
        if isinstance(v, str):
            return Builtin("str")
        if isinstance(v, HRef):
            r = self.heap[v.id]
            if isinstance(r, ObjRec):
                return VClass(r.cls)
            if isinstance(r, CollRec):
                return Builtin(r.kind)
        raise Unsupported("type()")

    def b_operator_lt(self, a, kw): return self.compare("<", a[0], a[1])
    def b_operator_le(self, a, kw): return self.compare("<=", a[0], a[1])
    def b_operator_gt(self, a, kw): return self.compare(">", a[0], a[1])
    def b_operator_ge(self, a, kw): return self.compare(">=", a[0], a[1])
    def b_operator_eq(self, a, kw): return self.eq(a[0], a[1])
    def b_operator_itemgetter(self, a, kw): raise Unsupported("itemgetter")

    def b_str(self, args, kw): return Opaque()
    def b_repr(self, args, kw): return Opaque()


class NumType(Value):
    """type of a symbolic number: int or float depending on its sort"""
    def __init__(self, t): self.t = t

    def eq(self, eng, ref, o):
        if isinstance(o, Builtin):
            return o.name == ("int" if self.t.is_int() else "float")
        return False


_old_is = Engine.is_


def _is(self, a, b):
    if isinstance(a, NumType) or isinstance(b, NumType):
        x, y = (a, b) if isinstance(a, NumType) else (b, a)
        return x.eq(self, x, y)
    return _old_is(self, a, b)


Engine.is_ = _is


class CardInfo:
    def __init__(self, decl, params, parts, key, app):
        self.decl, self.params, self.parts, self.key, self.app = decl, params, parts, key, app


class SumInfo:
    def __init__(self, decl, params, vars, guard, term, app):
        self.decl, self.params, self.vars, self.guard, self.term, self.app = decl, params, vars, guard, term, app


def canon_key(vs, f):
    """structure of f with its index variables numbered"""
    pairs = [(v, z3.Const("#v%d" % i, v.sort())) for i, v in enumerate(vs)]
    return subst(f, pairs).sexpr()


def open_exists(vs, f):
    """pull existential quantifiers among the conjuncts of f to the front"""
    vs, out = list(vs), []
    for c in conjuncts(f):
        if z3.is_quantifier(c) and c.is_exists():
            ws = [fresh(c.var_name(i), c.var_sort(i)) for i in range(c.num_vars())]
            vs += ws
            out.append(z3.substitute_vars(c.body(), *reversed(ws)))
        else:
            out.append(c)
    return vs, And(out)


def target_names(t):
    if isinstance(t, ast.Name):
        return [t.id]
    if isinstance(t, (ast.Tuple, ast.List)):
        return [n for x in t.elts for n in target_names(x)]
    raise Unsupported("loop target")


EXCEPTIONS = {"NetworkXError", "ValueError", "TypeError", "IndexError", "KeyError", "AttributeError", "RuntimeError",
              "Exception", "ZeroDivisionError", "NotImplementedError", "AssertionError", "StopIteration"}
BUILTINS = EXCEPTIONS | {"len", "list", "set", "dict", "tuple", "sorted", "any", "all", "sum", "min", "max", "abs", "float", "int",
                         "bool", "str", "range", "enumerate", "isinstance", "type", "iter", "map", "filter", "print", "frozenset",
                         "zip", "hasattr", "repr", "object", "super", "next", "reversed", "round", "callable", "getattr", "id"}
