"""Sorts, terms and formula builders shared by the VC generator."""
import itertools
import time
import z3

Nd = z3.DeclareSort("Nd")      # node labels
Key = z3.DeclareSort("Key")    # attribute names
Val = z3.DeclareSort("Val")    # attribute values
Rf = z3.DeclareSort("Rf")      # attribute dictionaries (identities)
TN = z3.DeclareSort("TN")      # interval-tree nodes (identities)
GR = z3.DeclareSort("GR")      # static graphs held by a snapshot graph (identities)
XE = z3.DeclareSort("XE")      # edges of a foreign static graph
Real, Int, Bool = z3.RealSort(), z3.IntSort(), z3.BoolSort()

_d = z3.Datatype("IEdge")
_d.declare("ie", ("iu", Nd), ("iv", Nd), ("ib", Real), ("in_", Real))
IEdge = _d.create()
_d = z3.Datatype("PEdge")
_d.declare("pe", ("pu", Nd), ("pv", Nd), ("pt", Real))
PEdge = _d.create()

INF, NINF = z3.Real("INF"), z3.Real("NINF")
null = z3.Const("null", TN)
is_str = z3.Function("is_str", Nd, Bool)
timeval = z3.Function("timeval", Real, Val)
valtime = z3.Function("valtime", Val, Real)

TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)

EDGE_FIELDS = {IEdge: (IEdge.iu, IEdge.iv, IEdge.ib, IEdge.in_), PEdge: (PEdge.pu, PEdge.pv, PEdge.pt)}
EDGE_MK = {IEdge: IEdge.ie, PEdge: PEdge.pe}


def edge_comp(e, i):
    """i-th component of an edge term, seeing through constructors"""
    if z3.is_app(e) and e.decl().eq(EDGE_MK[e.sort()]):
        return e.arg(i)
    return EDGE_FIELDS[e.sort()][i](e)


def is_edge(x):
    return isinstance(x, z3.ExprRef) and x.sort() in EDGE_FIELDS


class Fresh:
    n = 0


def fresh(name, sort):
    Fresh.n += 1
    return z3.Const("%s!%d" % (name, Fresh.n), sort)


def fresh_fun(name, *sorts):
    Fresh.n += 1
    if len(sorts) == 1:
        c = z3.Const("%s!%d" % (name, Fresh.n), sorts[0])
        return lambda: c
    return z3.Function("%s!%d" % (name, Fresh.n), *sorts)


def bool_(x):
    if isinstance(x, bool):
        return TRUE if x else FALSE
    return x


def And(*xs):
    xs = [bool_(x) for y in xs for x in (y if isinstance(y, (list, tuple)) else [y])]
    out = []
    for x in xs:
        if z3.is_true(x):
            continue
        if z3.is_false(x):
            return FALSE
        if z3.is_and(x):
            out.extend(x.children())
        else:
            out.append(x)
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else z3.And(*out)


def Or(*xs):
    xs = [bool_(x) for y in xs for x in (y if isinstance(y, (list, tuple)) else [y])]
    out = []
    for x in xs:
        if z3.is_false(x):
            continue
        if z3.is_true(x):
            return TRUE
        if z3.is_or(x):
            out.extend(x.children())
        else:
            out.append(x)
    if not out:
        return FALSE
    return out[0] if len(out) == 1 else z3.Or(*out)


def Not(x):
    x = bool_(x)
    if z3.is_true(x):
        return FALSE
    if z3.is_false(x):
        return TRUE
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    a, b = bool_(a), bool_(b)
    if a.eq(b):
        return TRUE
    if z3.is_true(a):
        return b
    if z3.is_true(b):
        return a
    if z3.is_false(a):
        return Not(b)
    if z3.is_false(b):
        return Not(a)
    return a == b


def is_mk(x):
    return z3.is_app(x) and x.sort() in EDGE_MK and x.decl().eq(EDGE_MK[x.sort()])


def split_edge_eq(c, vs):
    """e == mk(..bound variables..) as equalities of components"""
    if z3.is_eq(c) and c.arg(0).sort() in EDGE_FIELDS:
        a, b = c.arg(0), c.arg(1)
        if is_mk(a):
            a, b = b, a
        if is_mk(b) and occurs(vs, b) and not (occurs(vs, a) and a.num_args() == 0):
            return And([Eq(edge_comp(a, i), b.arg(i)) for i in range(b.num_args())])
    return c


def Eq(a, b):
    """equality of two terms of one sort, edges componentwise where a constructor is visible"""
    if a.eq(b):
        return TRUE
    if a.sort() in EDGE_FIELDS:
        if all(is_mk(x) for x in (a, b)):
            return And([Eq(edge_comp(a, i), edge_comp(b, i)) for i in range(len(EDGE_FIELDS[a.sort()]))])
        return a == b
    r = z3.simplify(a == b) if (z3.is_rational_value(a) or z3.is_int_value(a)) and \
        (z3.is_rational_value(b) or z3.is_int_value(b)) else (a == b)
    return r


def occurs(vs, t):
    ids = {v.get_id() for v in vs}
    seen, st = set(), [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if i in ids:
            return True
        if z3.is_quantifier(x):
            st.append(x.body())
        else:
            st.extend(x.children())
    return False


def subst(f, pairs):
    if not pairs:
        return f
    return z3.substitute(f, *pairs)


def conjuncts(f):
    f = bool_(f)
    if z3.is_and(f):
        return [y for x in f.children() for y in conjuncts(x)]
    return [f]


def _defeq(c, vs):
    """c is v == t (v in vs, not in t)?"""
    if z3.is_eq(c):
        a, b = c.arg(0), c.arg(1)
        for v in vs:
            if a.eq(v) and not occurs([v], b):
                return v, b
            if b.eq(v) and not occurs([v], a):
                return v, a
    return None


def push_not(f):
    """one level of negation normal form"""
    if z3.is_not(f):
        g = f.arg(0)
        if z3.is_and(g):
            return Or([push_not(Not(x)) for x in g.children()])
        if z3.is_or(g):
            return And([push_not(Not(x)) for x in g.children()])
        if z3.is_not(g):
            return push_not(g.arg(0))
        if z3.is_true(g):
            return FALSE
        if z3.is_false(g):
            return TRUE
        return f
    if z3.is_and(f):
        return And([push_not(x) for x in f.children()])
    if z3.is_or(f):
        return Or([push_not(x) for x in f.children()])
    return f


def Exists(vs, body, depth=0):
    """existential with the one-point rule applied, distributing over disjunctions that
    fix a bound variable"""
    vs = list(vs)
    body = push_not(bool_(body))
    while True:
        cs = [d for c in conjuncts(body) for d in conjuncts(split_edge_eq(simp_eq(c), vs))]
        hit = None
        for c in cs:
            hit = _defeq(c, vs)
            if hit:
                break
        if not hit:
            break
        v, t = hit
        vs = [x for x in vs if not x.eq(v)]
        body = And([subst(c, [(v, t)]) for c in cs])
        body = push_not(And([simp_eq(c) for c in conjuncts(body)]))
    body = And(cs)
    if z3.is_false(body):
        return FALSE
    vs = [v for v in vs if occurs([v], body)]
    if not vs:
        return body
    cs = conjuncts(body)
    if depth < 6:
        for i, c in enumerate(cs):
            if z3.is_or(c) and any(any(_defeq(d, vs) for d in conjuncts(x)) for x in c.children()):
                rest = cs[:i] + cs[i + 1:]
                return Or([Exists(vs, And([x] + rest), depth + 1) for x in c.children()])
    inn = [c for c in cs if occurs(vs, c)]
    out = [c for c in cs if not occurs(vs, c)]
    return And(out + [z3.Exists(vs, And(inn))])


def simp_eq(c):
    if z3.is_eq(c) and c.arg(0).sort() in EDGE_FIELDS:
        return Eq(c.arg(0), c.arg(1))
    if z3.is_eq(c) and c.arg(0).eq(c.arg(1)):
        return TRUE
    return c


def Forall(vs, body, patterns=None):
    vs = list(vs)
    if not vs:
        return bool_(body)
    body = bool_(body)
    vs = [v for v in vs if occurs([v], body)]
    if not vs:
        return body
    if patterns:
        return z3.ForAll(vs, body, patterns=patterns)
    return z3.ForAll(vs, body)


def ForallDER(vs, body):
    """universal closure, eliminating variables fixed by the hypotheses"""
    return Not(Exists(vs, Not(body)))


BACKGROUND = [NINF < 0, INF > 0]
_r = z3.Real("r")
STRKEYS = ("begin", "end", "timestamp")
BACKGROUND.append(z3.Distinct(*[z3.Const("key:" + k, Key) for k in STRKEYS]))
BACKGROUND.append(z3.ForAll([_r], valtime(timeval(_r)) == _r, patterns=[timeval(_r)]))


class Solver:
    """one place for all queries; deterministic resource limits, counts"""
    queries = 0
    seconds = 0.0
    by = {}
    cache, keep = {}, []

    @staticmethod
    def memo(kind, fs, fn):
        k = (kind, frozenset(f.get_id() for f in fs))
        r = Solver.cache.get(k)
        if r is None:
            r = Solver.cache[k] = fn()
            Solver.keep.append(fs)      # ids stay valid while the terms live
        return r

    @staticmethod
    def quick_unsat(fs, rlimit=50000):
        fs = list(fs)
        return Solver.memo(("q", rlimit), fs, lambda: Solver._quick_unsat(fs, rlimit))

    @staticmethod
    def check(fs, rlimit=6000000, light=False):
        fs = list(fs)
        if light:
            return ("unsat", "z3") if Solver.quick_unsat(fs, 3000000) else ("unknown", "light")
        return Solver.memo(("c", rlimit), fs, lambda: Solver._check(fs, rlimit))

    @staticmethod
    def _quick_unsat(fs, rlimit):
        """cheap: is the conjunction refutable without model-based instantiation?"""
        s = z3.SolverFor("AUFLIRA") if False else z3.Solver()
        s.set("smt.auto_config", False)
        s.set("smt.mbqi", False)
        s.set("rlimit", rlimit)
        s.set("random_seed", 1)
        for f in fs:
            s.add(f)
        Solver.queries += 1
        t = time.time()
        r = s.check() == z3.unsat
        Solver.seconds += time.time() - t
        return r

    @staticmethod
    def _check(fs, rlimit):
        """(status, model or reason): status in unsat / sat / unknown"""
        t = time.time()
        Solver.queries += 1
        s = z3.Solver()
        s.set("smt.auto_config", False)
        s.set("smt.mbqi", False)
        s.set("rlimit", rlimit)
        s.set("random_seed", 1)
        for f in fs:
            s.add(f)
        r = s.check()
        who, reason = "z3", None
        if r != z3.unsat:
            s2 = z3.Solver()
            s2.set("rlimit", rlimit * 2)
            s2.set("timeout", 40000)
            for f in fs:
                s2.add(f)
            r2 = s2.check()
            who = "z3-mbqi"
            if r2 == z3.unknown:
                reason = s2.reason_unknown()
            r = r2
            if r2 == z3.sat:
                reason = str(s2.model())[:4000]
            if r2 == z3.unknown:
                c = cvc5_check(s2)
                if c == "unsat":
                    r, who = z3.unsat, "cvc5"
        Solver.seconds += time.time() - t
        if r == z3.unsat:
            Solver.by[who] = Solver.by.get(who, 0) + 1
            return "unsat", who
        return ("sat" if r == z3.sat else "unknown"), reason


def cvc5_check(s, tlimit=20000):
    """second back end on the same query, through SMT-LIB text"""
    import subprocess, shutil, tempfile, os
    if not shutil.which("cvc5"):
        return "none"
    txt = "(set-logic ALL)\n" + s.to_smt2()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt)
    try:
        p = subprocess.run(["cvc5", "--tlimit=%d" % tlimit, "--lang=smt2.6", f.name], capture_output=True, text=True,
                           timeout=tlimit / 1000 + 10)
        return p.stdout.strip().splitlines()[0] if p.stdout.strip() else "error"
    except Exception:
        return "error"
    finally:
        os.unlink(f.name)
