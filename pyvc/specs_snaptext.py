"""C22 for snapshot graphs: save_to_txt followed by load_from_txt. A line is a matrix of numbers, rows separated
by the delimiter and entries by blanks, and the interval. Assumed of numpy and networkx: adjacency_matrix is a
square matrix of the graph's size; turning numbers into text and back gives the same numbers; the graph made
from a matrix has this matrix as its adjacency matrix."""
from .specs_text import *
from .theory_snap import *
from .specs_snap import arb_snaps, unchanged
from .specs_tree import body

ORD = z3.Function("size_of", GR, Int)
ADJ = z3.Function("adjacency", GR, Int, Int, Real)


def same_atoms(a, b):
    a, b = norm(a), norm(b)
    return len(a) == len(b) and all(x == y if isinstance(x, str) or isinstance(y, str) else isinstance(x, Mark) and isinstance(y, Mark) and x.name == y.name for x, y in zip(a, b))


class Pos(Value):
    """a place in a text: before character k of its i-th piece"""
    def __init__(self, i, k): self.at = (i, k)


class End(Pos):
    """the length of a text that is not empty"""
    def __init__(self): self.at = (10 ** 6, 0)
    def truth(self, eng, ref): return True


def word(x):
    """a literal that no number contains"""
    return isinstance(x, str) and any(c not in "0123456789.+-einfa " for c in x)


class SText(Text):
    def subst(self, pairs): return SText([asub(a, pairs) for a in self.atoms])
    def full(self): return Text.full(self) or any(isinstance(a, Join) for a in self.atoms)

    def length(self, eng, ref): return End() if self.full() else Text.length(self, eng, ref)

    def eq_const(self, eng, ref, y):
        if self.one(Mark) and y in (" ", "\n", "", "=", "start", "end"):
            return False                 # the precondition on the delimiter
        if isinstance(y, str) and word(y) and self.one((Str, Join)):
            return False
        return Text.eq_const(self, eng, ref, y)

    def where(self, x, last=False):
        if isinstance(x, Text) and x.one(Mark) and x.atoms[0].name == "comment" or x == "#":
            return None
        if not word(x):
            raise Unsupported("looking for %r in a text" % (x,))
        ps = [(i, a.find(x) if not last else a.rfind(x)) for i, a in enumerate(self.atoms) if isinstance(a, str) and x in a]
        return ps[-1 if last else 0] if ps else None

    def part(self, lo, hi):
        (i, k), (j, m) = lo or (0, 0), hi or (len(self.atoms), 0)
        out = []
        for n, a in enumerate(self.atoms):
            if isinstance(a, str):
                a = a[k if n == i else 0 if n > i else len(a):m if n == j else len(a) if n < j else 0]
                out.append(a)
            elif i <= n < j:
                out.append(a)
        a = norm(out)
        return "".join(a) if all(isinstance(x, str) for x in a) else SText(a)

    def getitem(self, eng, ref, k):
        if isinstance(k, slice) and k.step is None and all(x is None or x == 0 or isinstance(x, Pos) for x in (k.start, k.stop)) and k.stop != 0:
            return self.part(k.start.at if isinstance(k.start, Pos) else None, k.stop.at if k.stop is not None else None)
        if isinstance(k, slice) and isinstance(self.atoms[-1], str) and k.stop == -1 and k.start is None:
            return SText(self.atoms[:-1] + (self.atoms[-1][:-1],))
        raise Unsupported("slice of a text")

    def contains(self, eng, ref, x): return self.where(x) is not None

    def stripped(self, left, right, chars):
        a = list(self.atoms)
        for on, i in ((left, 0), (right, -1)):
            while on and a and isinstance(a[i], str):
                t = a[i].lstrip(chars) if i == 0 else a[i].rstrip(chars)
                if t:
                    a[i] = t
                    break
                del a[i]
            if on and a and not isinstance(a[i], (str, Str, Join)):
                raise Unsupported("white space around a text")
        return SText(a)

    def method(self, eng, ref, name, args, kw):
        if kw:
            self.bad("method ." + name)
        if name in ("find", "rfind", "index", "rindex") and len(args) == 1:
            p = self.where(args[0], name[0] == "r")
            if p is None and "index" in name:
                raise PyRaise(VExc("ValueError"))
            return -1 if p is None else Pos(*p)
        if name == "split" and (not args or args == [None]):
            if self.one(Join) and tuple(self.atoms[0].sep) == (" ",) and len(self.atoms[0].atoms) == 1 and isinstance(self.atoms[0].atoms[0], Str):
                args = [" "]             # numbers, separated by single blanks
        if name == "split" and (not args or args == [None]):
            out = [[]]
            for a in self.atoms:
                if isinstance(a, str):
                    ws = a.split()
                    if not ws or a[0].isspace():
                        out.append([])
                    for i, w in enumerate(ws):
                        if i:
                            out.append([])
                        out[-1].append(w)
                    if ws and a[-1].isspace():
                        out.append([])
                elif isinstance(a, Str):
                    out[-1].append(a)
                else:
                    raise Unsupported("splitting a text")
            ts = [o for o in out if norm(o)]
            return eng.alloc(CollRec("list", [Part((), TRUE, eng.made(o)) for o in ts]))
        if name in ("partition", "split") and len(args) in (1, 2) and word(args[0]) and not (len(args) == 2 and args[1] != 1):
            if self.where(args[0]) is not None:
                p = self.where(args[0])
                q = (p[0], p[1] + len(args[0]))
                a, b = self.part(None, p), self.part(q, None)
                if name == "partition":
                    return (a, args[0], b)
                if len(args) == 2 or self.where(args[0], True) == p:
                    return eng.alloc(CollRec("list", [Part((), TRUE, a), Part((), TRUE, b)]))
            elif not any(isinstance(x, Join) and any(isinstance(y, str) and y.strip() for y in x.sep) for x in self.atoms):
                return (self, "", "") if name == "partition" else eng.alloc(CollRec("list", [Part((), TRUE, self)]))
        if name == "split" and len(args) == 1:
            j = [a for a in self.atoms if isinstance(a, Join)]
            if len(j) == 1 and len(self.atoms) == 1 and same_atoms(j[0].sep, text(eng, args[0])):
                vs = [(v, fresh(str(v).split("!")[0], v.sort())) for v in j[0].vars]
                return Fam([Part(tuple(b for _, b in vs), subst(j[0].guard, vs), SText([asub(a, vs) for a in j[0].atoms]))], "list", (), "pos")
            if isinstance(args[0], Text) and args[0].one(Mark) and args[0].atoms[0].name == "comment" or args[0] == "#":
                return eng.alloc(CollRec("list", [Part((), TRUE, self)]))
            if args[0] == "=" and not j:
                return eng.alloc(CollRec("list", [Part((), TRUE, eng.made(t.atoms) if isinstance(t, Text) else t) for t in self.pieces("=")]))
            raise Unsupported("splitting a text")
        if name in ("startswith", "endswith") and len(args) == 1 and (args[0] == "#" or isinstance(args[0], Text)):
            return False
        if name in ("strip", "rstrip", "lstrip") and (not args or args == ["\n"] or args == [None]):
            return self.stripped(name != "rstrip", name != "lstrip", args[0] if args and args[0] else " \t\r\n")
        if name == "join" and self.one(Mark) and len(args) == 1:
            return eng.joined(self, args[0])
        self.bad("method ." + name)


class Adj(Value):
    """the adjacency matrix of a snapshot; form: sparse, dense numbers, or their texts"""
    tname = "array"
    def __init__(self, g, form): self.g, self.form = g, form
    def subst(self, pairs): return Adj(subst(self.g, pairs), self.form)
    def free(self): return [self.g]

    def method(self, eng, ref, name, args, kw):
        if name in ("todense", "toarray") and self.form == "sparse" and not args and not kw:
            return Adj(self.g, "dense")
        if name == "tolist" and self.form != "sparse" and not args and not kw:
            return self
        if name == "astype" and len(args) == 1 and not kw:
            return self.typed(args[0])
        self.bad("method ." + name)

    def typed(self, t):
        if self.form == "sparse":
            raise Unsupported("sparse matrix")
        if isinstance(t, Builtin) and t.name == "str":
            return Adj(self.g, "text")
        if t is None or isinstance(t, Builtin) and t.name == "float":
            return self
        raise Unsupported("matrix of another type")

    def iter(self, eng, ref):
        if self.form == "sparse":
            raise Unsupported("rows of a sparse matrix")
        r = fresh("r", Int)
        return Fam([Part((r,), And(0 <= r, r < ORD(self.g)), Row(self.g, r, self.form))], "list", (), "pos")

    def length(self, eng, ref): return ORD(self.g)


class Row(Value):
    tname = "array"
    def __init__(self, g, r, form): self.g, self.r, self.form = g, r, form
    def subst(self, pairs): return Row(subst(self.g, pairs), subst(self.r, pairs), self.form)
    def free(self): return [self.g, self.r]
    def iter(self, eng, ref):
        c = fresh("c", Int)
        x = ADJ(self.g, self.r, c)
        return Fam([Part((c,), And(0 <= c, c < ORD(self.g)), SText([Str(x)]) if self.form == "text" else x)], "list", (), "pos")
    def method(self, eng, ref, name, args, kw):
        if name == "tolist" and not args and not kw:
            return self
        self.bad("method ." + name)


class Matrix(Value):
    """a matrix of numbers that was read: entry(r, c) for rows r with rg and columns c with cg"""
    tname = "array"
    def __init__(self, r, rg, c, cg, entry, graph=False): self.r, self.rg, self.c, self.cg, self.entry, self.graph = r, rg, c, cg, entry, graph
    def subst(self, pairs): return Matrix(self.r, subst(self.rg, pairs), self.c, subst(self.cg, pairs), subst(self.entry, pairs), self.graph)
    def free(self): return [self.rg, self.cg, self.entry]
    def made(self): return Matrix(self.r, self.rg, self.c, self.cg, self.entry, True)
    def method(self, eng, ref, name, args, kw):
        if name == "astype" and len(args) == 1 and not kw and not self.graph:
            return eng.array(self, args[0])
        self.bad("method ." + name)
    def at(self, r, c): return [subst(t, [(self.r, r), (self.c, c)]) for t in (self.rg, self.cg, self.entry)]


class TextMatrix(Matrix):
    """the same, of the texts of numbers"""
    def subst(self, pairs): return TextMatrix(self.r, subst(self.rg, pairs), self.c, subst(self.cg, pairs), subst(self.entry, pairs))
    def made(self): raise Unsupported("matrix of texts")
    def typed(self, t):
        if t is None or isinstance(t, Builtin) and t.name == "str":
            return self
        if isinstance(t, Builtin) and t.name == "float":
            return Matrix(self.r, self.rg, self.c, self.cg, self.entry)
        raise Unsupported("matrix of another type")


class SLog(CollRec):
    """the snapshot graph being loaded, by the contract of insert"""
    def __init__(self, parts): CollRec.__init__(self, "set", parts)
    def method(self, eng, ref, name, args, kw):
        eng.put(ref, SLog(self.parts + (Part((), TRUE, inserted(eng, name, args, kw)),)))
    def loop_base(self, eng): return LoopL()
    def loop_merge(self, eng, ref, results, part): return SLog(CollRec.loop_merge(self, eng, ref, results, part).parts)


class LoopL(LoopColl):
    def __init__(self, tail=()): LoopColl.__init__(self, "set", tail)
    def method(self, eng, ref, name, args, kw): eng.put(ref, LoopL(self.tail + (Part((), TRUE, inserted(eng, name, args, kw)),)))
    def loop_base(self, eng): raise Unsupported("nested loops that insert snapshots")


def inserted(eng, name, args, kw):
    if name not in ("insert", "add_snapshot"):
        raise Unsupported("SnapshotGraph." + name)
    f = eng.byname["SnapshotGraph"].lookup("insert")
    if name != "insert":
        raise Unsupported("SnapshotGraph." + name)
    eng.used("SnapshotGraph.insert")
    loc = eng.bind(f, Named("self"), args, kw)
    if loc.get("time") is not None or not isinstance(loc["graph"], Matrix) or not loc["graph"].graph:
        raise Unsupported("snapshot inserted")
    a, b = loc["start"], loc["end"]
    if not all(isinstance(x, z3.ExprRef) and x.sort() == Real for x in (a, b)):
        raise Unsupported("interval of a snapshot")
    if eng.decide(a > b):
        raise PyRaise(VExc("ValueError"))
    return (a, b, loc["graph"])


class STEngine(TEngine, SEngine):
    def reset(self, trace):
        SEngine.reset(self, trace)
        self.file, self.loading, self.nm = None, False, ""

    def call_method(self, recv, name, args, kw):
        if isinstance(recv, str) and name == "join" and len(args) == 1 and not kw:
            return self.joined(recv, args[0])
        if isinstance(recv, str):
            return TEngine.call_method(self, recv, name, args, kw)
        return SEngine.call_method(self, recv, name, args, kw)

    def contains(self, coll, x): return SEngine.contains(self, coll, x)

    def instantiate(self, cls, args, kw):
        if self.loading and cls.name == "SnapshotGraph" and not args and not kw:
            self.used("SnapshotGraph.__init__")
            return self.alloc(SLog(()))
        return GEngine.instantiate(self, cls, args, kw)

    def joined(self, sep, coll):
        f = self.iter(coll)
        if len(f.parts) == 1 and f.parts[0].vars:
            p = rename(f.parts[0])
            if f.order != "pos" or len(p.vars) != 1 or not is_pos(f):
                raise Unsupported("join in another order")
            if not isinstance(p.elem, (Text, str)):
                if isinstance(p.elem, z3.ExprRef) and p.elem.sort() == Real:
                    raise PyRaise(VExc("TypeError"))
                raise Unsupported("joining %r" % (p.elem,))
            return SText([Join(norm(text(self, sep)), p.vars, p.guard, norm(text(self, p.elem)))])
        return self.made(text(self, join(self, sep, coll)))

    def made(self, atoms):
        a = norm(atoms)
        return "".join(a) if all(isinstance(x, str) for x in a) else SText(a)

    def b_str(self, args, kw):
        r = TEngine.b_str(self, args, kw)
        return SText(r.atoms) if isinstance(r, Text) else r

    def b_min(self, args, kw):
        if len(args) == 2 and all(isinstance(x, Pos) for x in args) and not kw:
            return min(args, key=lambda x: x.at)
        return GEngine.b_min(self, args, kw)

    def b_max(self, args, kw):
        if len(args) == 2 and all(isinstance(x, Pos) for x in args) and not kw:
            return max(args, key=lambda x: x.at)
        return GEngine.b_max(self, args, kw)

    def compare(self, op, a, b):
        for x, y, s in ((a, b, 1), (b, a, -1)):
            if isinstance(x, End) and isinstance(y, int) and y <= (1 if op in ("<", ">=") and s == 1 or op in (">", "<=") and s == -1 else 0) or isinstance(x, Pos) and isinstance(y, int) and y <= (0 if op in ("<", ">=") and s == 1 or op in (">", "<=") and s == -1 else -1):
                return {"<": s < 0, "<=": s < 0, ">": s > 0, ">=": s > 0}[op]
        if isinstance(a, Pos) and isinstance(b, Pos):
            return {"<": a.at < b.at, "<=": a.at <= b.at, ">": a.at > b.at, ">=": a.at >= b.at}[op]
        return GEngine.compare(self, op, a, b)

    def eq(self, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Pos):
                if isinstance(y, int) and y < (1 if isinstance(x, End) else 0):
                    return False
                raise Unsupported("comparison of a place in a text")
        return GEngine.eq(self, a, b)

    def hook_builtin(self, name, args, kw):
        n = name.split(".")[-1]
        if n in ("adjacency_matrix", "to_numpy_array", "to_numpy_matrix") and len(args) == 1 and is_gr(args[0]) and not kw:
            self.used("networkx." + n)
            return Adj(args[0], "sparse" if n == "adjacency_matrix" else "dense")
        if n in ("asarray", "array", "asmatrix", "matrix") and name != n:
            loc = dict(zip(("a", "dtype"), args), **kw)
            if set(loc) <= {"a", "dtype"} and "a" in loc:
                self.used("numpy." + n)
                return self.array(loc["a"], loc.get("dtype"))
        if n in ("from_numpy_array", "from_numpy_matrix") and len(args) == 1 and not kw and isinstance(args[0], Matrix):
            self.used("networkx." + n)
            return args[0].made()
        if n == "open":
            r = TEngine.hook_builtin(self, name, args, kw)
            x = self.heap[r.id]
            if isinstance(x, FileR):
                self.heap[r.id] = FileR([Part(p.vars, p.guard, SText(p.elem.atoms)) for p in x.lines])
            return r
        return SEngine.hook_builtin(self, name, args, kw)

    def array(self, a, t):
        if isinstance(a, Adj):
            return a.typed(t)
        if isinstance(a, TextMatrix):
            return a.typed(t)
        if isinstance(a, Matrix) and (t is None or isinstance(t, Builtin) and t.name == "float"):
            return a
        f = self.iter(a)
        if len(f.parts) == 1 and len(f.parts[0].vars) == 1 and f.kind == "list" and is_pos(f):
            p = rename(f.parts[0])
            q = self.iter(p.elem)
            if len(q.parts) == 1 and len(q.parts[0].vars) == 1 and q.kind == "list" and is_pos(q):
                q = rename(q.parts[0])
                x = q.elem
                if isinstance(x, Text):
                    x = x.sym()
                    if isinstance(x, z3.ExprRef) and x.sort() == Real:
                        return TextMatrix(p.vars[0], p.guard, q.vars[0], q.guard, x).typed(t)
                elif t is not None and not (isinstance(t, Builtin) and t.name == "float"):
                    raise Unsupported("matrix of another type")
                if isinstance(x, z3.ExprRef) and x.sort() == Real:
                    return Matrix(p.vars[0], p.guard, q.vars[0], q.guard, x)
        raise Unsupported("array")


def t_snap_round(dflt):
    def run(eng):
        cls = eng.classes[("dynetworkx.classes.snapshotgraph", "SnapshotGraph")]
        load = cls.lookup("load_from_txt")
        if load is None or cls.lookup("save_to_txt") is None:
            raise Unsupported("method not found")

        def path():
            nm = eng.nm = "SnapshotGraph.save_to_txt then load_from_txt"
            eng.path = Named("path")
            s = arb_snaps(eng, "SnapshotGraph", "dynetworkx.classes.snapshotgraph")
            g = z3.Const("g", GR)
            eng.facts.append(z3.ForAll([g], ORD(g) >= 1, patterns=[ORD(g)]))
            kw = {} if dflt else {"delimiter": SText((Mark("delimiter"),))}
            try:
                eng.call_func(cls.lookup("save_to_txt"), s.ref, [eng.path], dict(kw))
            except PyRaise as r:
                eng.path_end()
                eng.oblige(nm + ": saving raises %s only for a graph without snapshots" % r.exc.name, s.n == 0)
                return
            unchanged(eng, s)
            if eng.file is None:
                raise Unsupported("no file written")
            eng.loading = True
            if not dflt:
                kw["comments"] = SText((Mark("comment"),))
            try:
                rv = eng.call_func(load, None, [eng.path], kw)
            except PyRaise as r:
                eng.path_end()
                eng.oblige(nm + ": raises no %s" % r.exc.name, FALSE)
                return
            eng.path_end()
            r = eng.heap[rv.id] if isinstance(rv, HRef) else None
            if not isinstance(r, SLog):
                raise Unsupported("result of load_from_txt")
            z, i, j = fresh("any", Int), fresh("row", Int), fresh("column", Int)
            at = lambda p, z: And(p.guard, p.elem[0] == s.lo(z), p.elem[1] == s.hi(z))
            for p in map(rename, r.parts):
                y = fresh("of", Int)
                eng.oblige(nm + ": every snapshot loaded has the interval of one saved", Implies(p.guard, Exists((y,), And(s.valid(y), at(p, y)))))
                rg, cg, x = p.elem[2].at(i, j)
                h = And(s.valid(z), at(p, z))
                n = ORD(s.gr(z))
                eng.oblige(nm + ": its matrix has as many rows as the snapshot has nodes", Implies(h, Iff(rg, And(0 <= i, i < n))))
                eng.oblige(nm + ": ... and columns", Implies(And(h, rg), Iff(cg, And(0 <= j, j < n))))
                eng.oblige(nm + ": with the entries of the snapshot's adjacency matrix", Implies(And(h, rg, cg), x == ADJ(s.gr(z), i, j)))
            eng.oblige(nm + ": every snapshot is loaded", Implies(s.valid(z), Or([Exists(p.vars, at(p, z)) for p in map(rename, r.parts)])))
        eng.run_paths(path)
    t = Task("SnapshotGraph.save_to_txt+load_from_txt(%s)" % ("default options" if dflt else "any delimiter"), "SnapshotGraph", "save_to_txt", run, {"C22"})
    t.engine, t.functions = STEngine, ["SnapshotGraph.save_to_txt", "SnapshotGraph.load_from_txt"]
    return t


def snaptext_tasks(): return [t_snap_round(False), t_snap_round(True)]
