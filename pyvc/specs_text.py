"""C22: saving to text and loading back.

One contract per class, on the pair of methods: save_to_txt followed by load_from_txt of the same file.
Text is modelled by its structure: literals, the delimiter, the text str() gives for a value, and
repetitions (the text written by a loop, one piece per element). Assumed of Python: float(str(x)) == x for
a number, int(str(x)) == x for an int, str(x) is x for a string; splitting at the delimiter and stripping
white space act on the structure, since no label or value contains the delimiter, the comment mark, '=' or
white space at its ends (the precondition of the property)."""
from .specs_graph import *
from .specs_conv import Named, EdgeLog
from .theory_graph import *
from .graph_engine import *


class Str:
    """str(x) of a symbolic value"""
    def __init__(self, x): self.x = x


class Mark:
    """an unknown string given as an argument: the delimiter, the comment mark"""
    def __init__(self, name): self.name = name


class Esc:
    """re.escape of a mark"""
    def __init__(self, m): self.m = m


class Hole:
    """what a text was when an iteration began"""


class Rep:
    """the text for each of a family of elements, one after the other"""
    def __init__(self, vars, guard, atoms): self.vars, self.guard, self.atoms = vars, guard, atoms


class Join:
    """the texts for a non-empty ordered family of elements, separated by sep"""
    def __init__(self, sep, vars, guard, atoms): self.sep, self.vars, self.guard, self.atoms = sep, vars, guard, atoms


def asub(a, pairs):
    if isinstance(a, Str):
        return Str(subst(a.x, pairs))
    if isinstance(a, Rep):
        return Rep(a.vars, subst(a.guard, pairs), tuple(asub(b, pairs) for b in a.atoms))
    if isinstance(a, Join):
        return Join(a.sep, a.vars, subst(a.guard, pairs), tuple(asub(b, pairs) for b in a.atoms))
    return a


def afree(atoms):
    out = []
    for a in atoms:
        if isinstance(a, Str):
            out.append(a.x)
        elif isinstance(a, (Rep, Join)):
            out += [a.guard] + afree(a.atoms)
    return out


def norm(atoms):
    out = []
    for a in atoms:
        if isinstance(a, str):
            if not a:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += a
                continue
        out.append(a)
    return tuple(out)


intlike = z3.Function("reads_as_int", Nd, Bool)
numeric = z3.Function("reads_as_number", Val, Bool)
inttime = z3.Function("time_reads_as_int", Real, Bool)
text_nd = z3.Function("text_of_node", Nd, Nd)
text_val = z3.Function("text_of_value", Val, Val)


class Text(Value):
    tname = "str"

    def __init__(self, atoms): self.atoms = norm(atoms)
    def subst(self, pairs): return Text([asub(a, pairs) for a in self.atoms])
    def free(self): return afree(self.atoms)

    def one(self, cls):
        return self.atoms[0] if len(self.atoms) == 1 and isinstance(self.atoms[0], cls) else None

    def sym(self, strip=True):
        """the value this is the text of, if it is just that (white space around it apart)"""
        a = [x for x in self.atoms if not (strip and isinstance(x, str) and not x.strip(" \t\r\n"))]
        return a[0].x if len(a) == 1 and isinstance(a[0], Str) else None

    def shaped(self, sort):
        """the string itself, as a value of this sort"""
        xs = [a.x for a in self.atoms if isinstance(a, Str)]
        if any(isinstance(a, (Rep, Hole, Esc, Join)) for a in self.atoms) or not xs:
            raise Unsupported("text used as a value")
        sh = "".join(a if isinstance(a, str) else "{%s}" % a.x.sort() if isinstance(a, Str) else "<%s>" % a.name for a in self.atoms)
        return z3.Function("text:%s:%s" % (sh, sort), *([x.sort() for x in xs] + [sort]))(*xs)

    def full(self):
        return any(isinstance(a, str) and a for a in self.atoms) or any(isinstance(a, (Str, Mark)) for a in self.atoms)

    def truth(self, eng, ref):
        if self.full():
            return True
        if not self.atoms:
            return False
        raise Unsupported("truth value of a text")

    def length(self, eng, ref):
        n = fresh("len", Int)
        eng.fact(n > 0 if self.full() else n == 0 if not self.atoms else n >= 0)
        return n

    def eq_const(self, eng, ref, y):
        if self.one(Mark) and isinstance(y, str):
            if y == "=":
                return False            # refused by both methods; the precondition excludes it
            if y == "":
                return False
            return z3.Bool("%s is %r" % (self.atoms[0].name, y))
        if isinstance(y, str):
            raise Unsupported("comparison of a text")
        return False

    def eq(self, eng, ref, o):
        if isinstance(o, Text) and len(o.atoms) == len(self.atoms) == 1 and self.one(Mark) and o.one(Mark):
            return self.atoms[0].name == o.atoms[0].name
        raise Unsupported("comparison of a text")

    def contains(self, eng, ref, x):
        m = mark(x)
        if m == "comment":
            return False
        if m == "delimiter":
            return any(isinstance(a, Mark) or isinstance(x, str) and isinstance(a, str) and x in a for a in self.atoms)
        if x == "=":
            return any(isinstance(a, str) and "=" in a for a in self.atoms)
        self.bad("in")

    def iter(self, eng, ref): raise Unsupported("iterating the characters of a text")

    def getitem(self, eng, ref, k):
        if isinstance(k, slice) and k.start in (None, 0) and k.stop == -1 and self.atoms and isinstance(self.atoms[-1], str):
            return Text(self.atoms[:-1] + (self.atoms[-1][:-1],))
        if isinstance(k, slice) and k.start in (None, 0) and k.stop is None:
            return self
        raise Unsupported("slice of a text")

    def stripped(self, left, right, chars):
        a = list(self.atoms)
        for on, i in ((left, 0), (right, -1)):
            while on and a and isinstance(a[i], str):
                t = a[i].lstrip(chars) if i == 0 else a[i].rstrip(chars)
                if t:
                    a[i] = t
                    break
                del a[i]
            if on and a and not isinstance(a[i], (str, Str)) and not (isinstance(a[i], Rep) and isinstance(a[i].atoms[-1], (Str, str)) and i == -1):
                raise Unsupported("white space around a text")
        return Text(a)

    def method(self, eng, ref, name, args, kw):
        m = mark(args[0]) if args else None
        if name in ("find", "rfind") and m == "comment" and len(args) == 1:
            return -1
        if name == "count" and m == "comment":
            return 0
        if name in ("index", "rindex") and m == "comment":
            raise PyRaise(VExc("ValueError"))
        if name in ("startswith", "endswith") and m == "comment":
            return False
        if name == "partition" and m == "comment":
            return (self, "", "")
        if name in ("strip", "rstrip", "lstrip") and not kw and (not args or args == ["\n"] or args == [None]):
            return self.stripped(name != "rstrip", name != "lstrip", args[0] if args and args[0] else " \t\r\n")
        if name == "split" and len(args) == 1 and not kw:
            if m == "comment":
                return eng.alloc(CollRec("list", [Part((), TRUE, self)]))
            if m == "delimiter":
                return self.cut(eng, args[0])
            if args[0] == "=":
                return eng.alloc(CollRec("list", [Part((), TRUE, t) for t in self.pieces("=")]))
        if name == "split" and len(args) == 2 and not kw and args == ["=", 1] or name == "partition" and args == ["="]:
            ts = self.pieces("=")
            if name == "partition":
                return (ts[0], "=", ts[1]) if len(ts) == 2 else (self, "", "") if len(ts) == 1 else self.bad("partition")
            if len(ts) <= 2:
                return eng.alloc(CollRec("list", [Part((), TRUE, t) for t in ts]))
        if name == "join" and self.one(Mark) and len(args) == 1:
            return join(eng, self, args[0])
        self.bad("method ." + name)

    def pieces(self, sep):
        """cut at a literal separator, which no value contains"""
        out = [[]]
        for a in self.atoms:
            if isinstance(a, str) and sep in a:
                ps = a.split(sep)
                out[-1].append(ps[0])
                out += [[p] for p in ps[1:]]
            elif isinstance(a, Rep):
                raise Unsupported("splitting a text written by a loop")
            else:
                out[-1].append(a)
        return [Text(x) if norm(x) else "" for x in out]

    def cut(self, eng, d):
        return Text(at_delim(self.atoms, d)).split(eng) if isinstance(d, str) else self.split(eng)

    def split(self, eng):
        """cut at the delimiter"""
        out, tail = [[]], []
        for a in self.atoms:
            if isinstance(a, Rep):
                if not (isinstance(a.atoms[0], Mark) and a.atoms[0].name == "delimiter") or any(isinstance(b, Rep) for b in a.atoms):
                    raise Unsupported("text written by a loop")
                ps = [[]]
                for b in a.atoms[1:]:
                    if isinstance(b, Mark):
                        ps.append([])
                    else:
                        ps[-1].append(b)
                tail += [Part(a.vars, a.guard, Text(p)) for p in ps]
            elif tail:
                raise Unsupported("text after what a loop wrote")
            elif isinstance(a, Mark) and a.name == "delimiter":
                out.append([])
            else:
                out[-1].append(a)
        ts = [Text(x) for x in out]
        if any(not t.atoms for t in ts) or any(not p.elem.atoms for p in tail):
            raise Unsupported("empty field")
        return eng.alloc(Fields([Part((), TRUE, t) for t in ts] + tail))


class Fields(CollRec):
    """the fields of a line: some given, then those a loop wrote"""
    def __init__(self, parts): CollRec.__init__(self, "list", parts)

    def head(self):
        n = 0
        while n < len(self.parts) and not self.parts[n].vars:
            n += 1
        return n

    def getitem(self, eng, ref, k):
        n = self.head()
        if isinstance(k, int) and not isinstance(k, bool):
            if 0 <= k < n:
                return self.parts[k].elem
            raise Unsupported("field %d of a line" % k)
        if isinstance(k, slice):
            a, b = k.start or 0, k.stop
            if isinstance(a, int) and 0 <= a <= n and (b is None or isinstance(b, int) and 0 <= b <= n):
                ps = self.parts[a:] if b is None else self.parts[a:b]
                return eng.alloc(Fields(ps))
        raise Unsupported("fields of a line")

    def length(self, eng, ref):
        n = fresh("fields", Int)
        eng.fact(n >= self.head())
        return n

    def loop_base(self, eng): raise Unsupported("loop changes the fields of a line")


def mark(x):
    if isinstance(x, str):
        return {"#": "comment", " ": "delimiter"}.get(x)      # with default options
    return x.atoms[0].name if isinstance(x, Text) and x.one(Mark) else None


def at_delim(atoms, sep):
    """literal delimiters made marks"""
    out = []
    for a in atoms:
        if isinstance(a, Rep):
            out.append(Rep(a.vars, a.guard, tuple(at_delim(a.atoms, sep))))
        elif isinstance(a, str):
            for i, x in enumerate(a.split(sep)):
                out += ([Mark("delimiter")] if i else []) + ([x] if x else [])
        else:
            out.append(a)
    return out


def text(eng, v):
    """str(v), as atoms"""
    if isinstance(v, str):
        return (v,)
    if isinstance(v, (bool, int)):
        return (str(v),)
    if isinstance(v, Text):
        return v.atoms
    if isinstance(v, z3.ExprRef) and v.sort() in (Nd, Real, Key, Val):
        return (Str(v),)
    raise Unsupported("text of %r" % (v,))


def join(eng, sep, coll):
    f = eng.iter(coll)
    out, first = [], True
    sa = text(eng, sep)
    for p in f.parts:
        t = text(eng, p.elem)
        if not p.vars:
            if not z3.is_true(p.guard):
                raise Unsupported("join")
            out += list(t) if first else list(sa) + list(t)
            first = False
        else:
            if first and norm(sa):
                raise Unsupported("join of a collection of unknown size")
            out.append(Rep(p.vars, p.guard, norm(list(sa) + list(t))))
    return Text(out) if norm(out) else ""


class FileW(Value):
    """a file being written"""
    tname = "obj"
    def __init__(self, atoms): self.atoms = norm(atoms)

    def method(self, eng, ref, name, args, kw):
        if name == "write" and len(args) == 1:
            eng.put(ref, FileW(self.atoms + tuple(text(eng, args[0]))))
            return Opaque()
        if name == "writelines" and len(args) == 1:
            t = join(eng, "", args[0])
            eng.put(ref, FileW(self.atoms + tuple(text(eng, t))))
            return None
        if name in ("close", "flush") and not args:
            return None
        self.bad("method ." + name)

    def loop_base(self, eng): return FileW((Hole(),))

    def loop_merge(self, eng, ref, results, part):
        return FileW(self.atoms + merged([(pc, r.atoms) for pc, r in results], part))


def merged(results, part):
    """what a loop appended, from what its paths append"""
    out = []
    for pc, atoms in results:
        if not atoms or not isinstance(atoms[0], Hole) or any(isinstance(a, Hole) for a in atoms[1:]):
            raise Unsupported("loop rebuilds a text")
        if len(atoms) > 1:
            out.append(Rep(part.vars, And(part.guard, pc), tuple(atoms[1:])))
    if len(out) > 1:
        # the paths write the same but for conditions
        raise Unsupported("loop writes different texts")
    return tuple(out)


class FileR(Value):
    """a file being read, line by line"""
    tname = "obj"
    def __init__(self, lines): self.lines = lines
    def iter(self, eng, ref): return Fam(self.lines)
    def method(self, eng, ref, name, args, kw):
        if name == "readlines" and not args:
            return Fam(self.lines)
        if name == "close" and not args:
            return None
        self.bad("method ." + name)


def lines_of(eng, atoms):
    out = []
    for a in atoms:
        if not isinstance(a, Rep) or not isinstance(a.atoms[-1], str) or not a.atoms[-1].endswith("\n") or \
                sum(b.count("\n") for b in a.atoms if isinstance(b, str)) != 1 or has_nl(a.atoms):
            raise Unsupported("the file is not one line per element")
        out.append(Part(a.vars, a.guard, Text(a.atoms)))
    return out


def has_nl(atoms): return any(isinstance(a, (Rep, Join)) and (has_nl(a.atoms) or any(isinstance(b, str) and "\n" in b for b in a.atoms)) for a in atoms)


class TLog(EdgeLog):
    """the graph being loaded, by the contract of add_edge: the edges given, with their attributes"""
    def __init__(self, cls, parts): self.cls = cls; CollRec.__init__(self, "set", parts)
    def method(self, eng, ref, name, args, kw):
        eng.put(ref, TLog(self.cls, self.parts + (Part((), TRUE, given(eng, self.cls, name, args, kw)),)))
    def loop_base(self, eng): return LoopT(self.cls)
    def loop_merge(self, eng, ref, results, part): return TLog(self.cls, CollRec.loop_merge(self, eng, ref, results, part).parts)


class LoopT(LoopColl):
    def __init__(self, cls, tail=()): self.cls = cls; LoopColl.__init__(self, "set", tail)
    def method(self, eng, ref, name, args, kw):
        eng.put(ref, LoopT(self.cls, self.tail + (Part((), TRUE, given(eng, self.cls, name, args, kw)),)))
    def loop_base(self, eng): raise Unsupported("nested loops that add edges")


def given(eng, cls, name, args, kw):
    if name != "add_edge":
        raise Unsupported(cls.name + "." + name)
    f = cls.lookup("add_edge")
    eng.used(cls.name + ".add_edge")
    loc = eng.bind(f, Named("self"), args, kw)
    cfg = eng.cfg
    ts = [toreal(eng, loc[n]) for n in (("begin", "end") if cfg.interval else ("t",))]
    if cfg.interval:
        eng.oblige(eng.nm + ": an edge is added with begin <= end", ts[0] <= ts[1])
    (k,) = [x.arg for x in [f.node.args.kwarg] if x]
    return (node(loc["u"]), node(loc["v"])) + tuple(ts) + (eng.content_of(loc[k]),)


def node(x):
    if isinstance(x, Text):
        s = x.sym(False)
        return text_nd(s) if s is not None and s.sort() == Nd else x.shaped(Nd)
    r = as_nd(x)
    if r is None:
        raise Unsupported("node %r" % (x,))
    return r


class TEngine(GEngine):
    def reset(self, trace):
        GEngine.reset(self, trace)
        self.file, self.loading, self.nm = None, False, ""

    # ---- files
    def lookup(self, name):
        if name in ("open", "Exception") and name not in self.fstack[-1].locals:
            return Builtin(name)
        return GEngine.lookup(self, name)

    def hook_builtin(self, name, args, kw):
        if name == "open":
            loc = dict(zip(("file", "mode"), args), **kw)
            if loc.get("file") is not self.path or set(loc) - {"file", "mode", "encoding", "newline"}:
                raise Unsupported("open")
            m = loc.get("mode", "r")
            if m in ("w", "wt"):
                self.file = self.alloc(FileW(()))
                return self.file
            if m in ("r", "rt") and isinstance(self.file, HRef):
                return self.alloc(FileR(lines_of(self, self.heap[self.file.id].atoms)))
            raise Unsupported("open(%r)" % (m,))
        if name == "re.escape" and len(args) == 1 and isinstance(args[0], Text) and args[0].one(Mark):
            return Text((Esc(args[0].atoms[0].name),))
        if name == "re.escape" and args == [" "]:
            return "\\ "
        if name == "re.split" and len(args) == 2 and not kw:
            p, t = args
            if isinstance(p, str) and isinstance(t, Text):
                q = p[3:] if p.startswith("(?:") else p
                q = q[:-2] if q != p and q.endswith(")+") else q[:-1] if q.endswith("+") or q != p and q.endswith(")") else q
                if q in (" ", "\\ "):
                    return t.cut(self, " ")
            if isinstance(p, Text) and isinstance(t, Text):
                a = p.atoms
                ok = len(a) == 1 and isinstance(a[0], Esc) or len(a) == 3 and a[0] == "(?:" and isinstance(a[1], Esc) and a[2] in (")+", ")")
                if ok:
                    return t.split(self)
            raise Unsupported("re.split")
        return GEngine.hook_builtin(self, name, args, kw)

    def s_With(self, s):
        for i in s.items:
            v = self.eval(i.context_expr)
            if not (isinstance(v, HRef) and isinstance(self.heap[v.id], (FileW, FileR))):
                raise Unsupported("with")
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v)
        self.block(s.body)

    def instantiate(self, cls, args, kw):
        if self.loading and cls.name in CFGS and not args and not kw:
            self.used(cls.name + ".__init__")
            return self.alloc(TLog(cls, ()))
        return GEngine.instantiate(self, cls, args, kw)

    # ---- text
    def b_str(self, args, kw):
        if len(args) == 1 and not kw:
            v = args[0]
            if isinstance(v, Text):
                return v
            a = text(self, v)
            return Text(a) if not all(isinstance(x, str) for x in a) else "".join(a)
        raise Unsupported("str()")

    def e_JoinedStr(self, e):
        out = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                out.append(x.value)
            else:
                if x.format_spec is not None or x.conversion not in (-1, 115):
                    raise Unsupported("formatted text")
                out += text(self, self.eval(x.value))
        return self.made(out)

    def made(self, atoms):
        a = norm(atoms)
        return "".join(a) if all(isinstance(x, str) for x in a) else Text(a)

    def binop(self, op, a, b):
        if isinstance(a, str) and op == "Mod":
            return self.percent(a, b if isinstance(b, tuple) else (b,))
        if isinstance(a, Text) or isinstance(b, Text):
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                raise Unsupported("text made in an unknown way")
            if op == "Add" and isinstance(a, (str, Text)) and isinstance(b, (str, Text)):
                return self.made(text(self, a) + text(self, b))
            if op == "Mod":
                raise Unsupported("% formatting")
            raise PyRaise(VExc("TypeError"))
        return GEngine.binop(self, op, a, b)

    def percent(self, s, args):
        ps = s.split("%s")
        if "%" in "".join(ps):
            raise Unsupported("% formatting")
        if len(ps) != len(args) + 1:
            raise PyRaise(VExc("TypeError"))
        out = [ps[0]]
        for a, p in zip(args, ps[1:]):
            out += list(text(self, a)) + [p]
        return self.made(out)

    def call_method(self, recv, name, args, kw):
        if isinstance(recv, str):
            if name == "join" and len(args) == 1:
                return join(self, recv, args[0])
            if name == "format":
                try:
                    return self.fmt(recv, args, kw)
                except Unsupported:
                    return Opaque()
        if isinstance(recv, tuple) and name == "index" and len(args) == 1 and all(isinstance(x, (str, int)) for x in recv + (args[0],)):
            if args[0] not in recv:
                raise PyRaise(VExc("ValueError"))
            return recv.index(args[0])
        return GEngine.call_method(self, recv, name, args, kw)

    def fmt(self, s, args, kw):
        import string
        out, n = [], 0
        for lit, field, spec, conv in string.Formatter().parse(s):
            out.append(lit)
            if field is None:
                continue
            if spec or conv not in (None, "s"):
                raise Unsupported("formatted text")
            if field == "":
                v = args[n]
                n += 1
            elif field.isdigit():
                v = args[int(field)]
            else:
                v = kw[field]
            out += text(self, v)
        return self.made(out)

    def b_print(self, args, kw):
        f = kw.get("file")
        if f is None:
            return GEngine.b_print(self, args, kw)
        if not (isinstance(f, HRef) and isinstance(self.heap[f.id], FileW)) or set(kw) - {"file", "sep", "end", "flush"}:
            raise Unsupported("print(..., file=)")
        sep, end = (d if kw.get(n) is None else kw[n] for n, d in (("sep", " "), ("end", "\n")))
        out = []
        for i, a in enumerate(args):
            out += list(text(self, sep)) * (i > 0) + list(text(self, a))
        self.heap[f.id].method(self, f, "write", [self.made(out + list(text(self, end)))], {})
        return None

    def b_float(self, args, kw):
        if len(args) == 1 and isinstance(args[0], Text):
            x = args[0].sym()
            if x is not None:
                if x.sort() == Real:
                    return x
                if x.sort() == Val:
                    if self.decide(numeric(x)):
                        return x
                    raise PyRaise(VExc("ValueError"))
            raise Unsupported("float of a text")
        if len(args) == 1 and isinstance(args[0], z3.ExprRef) and args[0].sort() == Val:
            return args[0]
        return GEngine.b_float(self, args, kw)

    def b_int(self, args, kw):
        if len(args) == 1 and isinstance(args[0], Text):
            x = args[0].sym()
            if x is not None and x.sort() in (Nd, Real):
                if self.decide((intlike if x.sort() == Nd else inttime)(x)):
                    return x
                raise PyRaise(VExc("ValueError"))
            raise Unsupported("int of a text")
        return GEngine.b_int(self, args, kw)

    def as_key(self, k):
        if isinstance(k, Text):
            s = k.sym(False)
            return s if s is not None and s.sort() == Key else k.shaped(Key)
        return GEngine.as_key(self, k)

    def as_val(self, v):
        if isinstance(v, Text):
            s = v.sym(False)
            return text_val(s) if s is not None and s.sort() == Val else v.shaped(Val)
        return GEngine.as_val(self, v)

    # ---- loops that append to a text
    def generic_scalar(self, n, v):
        if isinstance(v, (str, Text)):
            return Text((Hole(),))
        return GEngine.generic_scalar(self, n, v)

    def merge_scalar(self, n, v0, g, res, part):
        if isinstance(g, Text):
            return self.made(text(self, v0) + merged([(pc, text(self, r.locals[n])) for pc, r in res], part))
        return GEngine.merge_scalar(self, n, v0, g, res, part)


def t_round(cfg, strs, dflt):
    name = cfg.name

    def run(eng):
        cls = eng.classes[(cfg.module, name)]
        save, load = cls.lookup("save_to_txt"), cls.lookup("load_from_txt")
        if save is None or load is None:
            raise Unsupported("method not found")

        def path():
            eng.cfg, eng.nm, eng.path = cfg, "%s.save_to_txt then load_from_txt" % name, Named("path")
            nm = eng.nm
            g = arb_graph(eng, cfg, None)
            S0 = Snap(eng, g)
            x, v = z3.Const("x", Nd), z3.Const("v", Val)
            eng.facts.append(z3.ForAll([x], And(Iff(is_str(x), Not(intlike(x))), Implies(is_str(x), text_nd(x) == x), Implies(intlike(x), text_nd(x) != x)), patterns=[text_nd(x)]))
            eng.facts.append(z3.ForAll([v], (text_val(v) == v) == Not(numeric(v)), patterns=[text_val(v)]))
            if strs:
                eng.facts.append(z3.ForAll([x], And(is_str(x), text_nd(x) == x), patterns=[text_nd(x)]))
            kw = {} if dflt else {"delimiter": Text((Mark("delimiter"),))}
            e, k = fresh("any", cfg.sort), fresh("k", Key)
            try:
                eng.call_func(save, g, [eng.path], dict(kw))
            except PyRaise as r:
                eng.path_end()
                eng.oblige(nm + ": saving raises %s only for a graph without edges" % r.exc.name, Not(S0.L(e)))
                return
            check_state(eng, g, S0, nm)
            if eng.file is None:
                raise Unsupported("no file written")
            eng.loading = True
            if not dflt:
                kw["comments"] = Text((Mark("comment"),))
            if strs:
                kw["nodetype"] = Builtin("str")
            try:
                rv = eng.call_func(load, None, [eng.path], kw)
            except PyRaise as r:
                eng.path_end()
                eng.oblige(nm + ": raises no %s" % r.exc.name, FALSE)
                return
            eng.path_end()
            r = eng.rec(rv)[0] if isinstance(rv, Value) else None
            if not isinstance(r, TLog):
                raise Unsupported("result of load_from_txt")
            eng.oblige(nm + ": the graph loaded is of the same kind", TRUE if r.cls.name == name else FALSE)
            mk = EDGE_MK[cfg.sort]
            for p in map(rename, r.parts):
                *el, c = p.elem
                f = mk(*el)
                eng.oblige(nm + ": every edge loaded was saved", Implies(p.guard, Or(S0.L(f), S0.L(cfg.rev(f)) if cfg.interval and not cfg.directed else FALSE)))
                w = S0.eattr(f)
                if cfg.interval and not cfg.directed:
                    rv_ = S0.eattr(cfg.rev(f))
                    w = content_if(S0.L(f), w, rv_)
                eng.oblige(nm + ": the attributes loaded are those saved", Implies(p.guard, And(Iff(c.has(k), w.has(k)), Implies(w.has(k), Eq(c.val(k), w.val(k))))))
            eng.oblige(nm + ": every edge saved is loaded", Implies(S0.L(e), Or([Exists(p.vars, And(p.guard, same_edge(cfg, mk(*p.elem[:-1]), e))) for p in map(rename, r.parts)])))
        eng.run_paths(path)
    id = "%s.save_to_txt+load_from_txt(%s)" % (name, "string labels" if strs else "default options" if dflt else "any delimiter")
    t = Task(id, name, "save_to_txt", run, {"C22"})
    t.engine, t.functions = TEngine, [name + ".save_to_txt", name + ".load_from_txt"]
    return t


def text_tasks():
    out = []
    for c in ("IntervalGraph", "ImpulseGraph", "ImpulseDiGraph"):
        out += [t_round(CFGS[c], False, False), t_round(CFGS[c], True, False), t_round(CFGS[c], False, True)]
    return out
