"""Concrete side of the checks: random small histories against executable reference
models of the properties, run on the real code in /repo.

  oracle.py search  PROP SEED SECONDS [MAXCASES]   look for a failing case
  oracle.py replay  FILE                           re-run one failing case

A case is a JSON object; check_<PROP>(case) returns a list of disagreements.
This is never counted as proof: it (a) finds a concrete input when the verifier
refutes an obligation, (b) stands in, labelled bounded, for functions the verifier
cannot translate, (c) cross-checks the verifier on every run.
"""
import sys, os, json, random, time, traceback, math, itertools, signal
sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
import warnings
warnings.simplefilter("ignore")
import networkx as nx
from networkx import NetworkXError
import dynetworkx as dnx

CLS = {c: getattr(dnx, c) for c in
       ("IntervalGraph", "IntervalDiGraph", "ImpulseGraph", "ImpulseDiGraph")}
INTERVAL = ("IntervalGraph", "IntervalDiGraph")
IMPULSE = ("ImpulseGraph", "ImpulseDiGraph")
NODES = [0, 1, 2, "a", "bc", 3]
KEYS = ["w", "x", 7]


def is_imp(c): return c.startswith("Impulse")
def is_dir(c): return c.endswith("DiGraph")


# ---------------------------------------------------------------- reference model
def iv_match(e, b, n):
    return ((n is None or e[2] < n) and (b is None or e[3] > b)) or (b is not None and e[2] == b)


def im_match(t, b, n, inc):
    if b is not None and b == n:
        return t == b
    if b is not None and not (b < t or (inc[0] and b == t)):
        return False
    if n is not None and not (t < n or (inc[1] and t == n)):
        return False
    return True


class Model:
    """edge set + attribute tables; the abstract state the properties talk about"""

    def __init__(self, cls):
        self.cls, self.imp, self.dir = cls, is_imp(cls), is_dir(cls)
        self.E = {}
        self.N = {}

    def joins(self, e, u, v):
        return (e[0], e[1]) == (u, v) or (not self.dir and (e[1], e[0]) == (u, v))

    def inc(self, e, n):
        return e[0] == n or e[1] == n

    def win(self, e, b, n, inc=None):
        return im_match(e[2], b, n, inc) if self.imp else iv_match(e, b, n)

    def apply(self, op):
        k, a = op[0], op[1:]
        if k == "add_node":
            self.N.setdefault(a[0], {}).update(a[1])
        elif k == "add_nodes_from":
            for x in a[0]:
                if isinstance(x, list):
                    self.N.setdefault(x[0], {}).update(a[1])
                    self.N[x[0]].update(x[1])
                else:
                    self.N.setdefault(x, {}).update(a[1])
        elif k == "add_edge":
            self.add(tuple(a[0]), a[1])
        elif k == "add_edges_from":
            for e in a[0]:
                self.add(tuple(e), a[1])
        elif k == "remove_edge":
            u, v, b, n, x = a
            for e in list(self.E):
                if not self.joins(e, u, v):
                    continue
                if not self.imp and x is False:
                    ok = e[2] == b and e[3] == n
                elif b is None and n is None:
                    ok = True
                else:
                    ok = self.win(e, b, n, x)
                if ok:
                    del self.E[e]
        elif k == "remove_node":
            n, b, m, x = a
            if n not in self.N:
                return
            for e in list(self.E):
                if self.inc(e, n) and ((b is None and m is None) or self.win(e, b, m, x)):
                    del self.E[e]
            if not any(self.inc(e, n) for e in self.E):
                del self.N[n]

    def add(self, e, attr):
        if not self.dir and not self.imp and (e[1], e[0]) + e[2:] in self.E:
            e = (e[1], e[0]) + e[2:]
        self.N.setdefault(e[0], {})
        self.N.setdefault(e[1], {})
        self.E.setdefault(e, {}).update(attr)

    def edges(self, u=None, v=None, b=None, n=None, inc=None):
        us = [None] if u is None else (u if isinstance(u, list) else [u])
        vs = [None] if v is None else (v if isinstance(v, list) else [v])
        r = []
        for e in self.E:
            if not (b is None and n is None) and not self.win(e, b, n, inc):
                continue
            for p in us:
                hit = False
                for q in vs:
                    if p is None and q is None:
                        hit = True
                    elif p is not None and q is not None:
                        hit = self.joins(e, p, q)
                    elif p is not None:
                        hit = e[0] == p or (not self.dir and e[1] == p)
                    else:
                        hit = e[1] == q or (not self.dir and e[0] == q)
                    if hit:
                        break
                if hit:
                    r.append(e)
                    break
        return r

    def span(self):
        if not self.E:
            return (math.inf, -math.inf)
        if self.imp:
            return (min(e[2] for e in self.E), max(e[2] for e in self.E))
        return (min(e[2] for e in self.E), max(e[3] for e in self.E))

    def wnodes(self, b, n, inc=None):
        if b is None and n is None:
            return set(self.N)
        return {x for e in self.E if self.win(e, b, n, inc) for x in e[:2]}


def real_apply(G, cls, op):
    k, a = op[0], op[1:]
    imp = is_imp(cls)
    if k == "add_node":
        G.add_node(a[0], **kw(a[1]))
    elif k == "add_nodes_from":
        G.add_nodes_from([tuple(x) if isinstance(x, list) else x for x in a[0]], **kw(a[1]))
    elif k == "add_edge":
        G.add_edge(*a[0], **kw(a[1]))
    elif k == "add_edges_from":
        G.add_edges_from([tuple(e) for e in a[0]], **kw(a[1]))
    elif k == "remove_edge":
        u, v, b, n, x = a
        G.remove_edge(u, v, b, n, **({"inclusive": tuple(x)} if imp else {"overlapping": x}))
    elif k == "remove_node":
        n, b, m, x = a
        G.remove_node(n, b, m, **({"inclusive": tuple(x)} if imp else {}))


def kw(d):
    return {str(k): v for k, v in d.items()}


def attrs(rng):
    d = {}
    for k in ("w", "x"):
        if rng.random() < .5:
            d[k] = rng.choice([0, 1, 2, None, "s"])
    return d


def rtime(rng, R):
    t = rng.randint(-R // 2, R)
    return t + .5 if rng.random() < .1 else t


def rwin(rng, R, both=None):
    b, n = rtime(rng, R), rtime(rng, R)
    if b > n:
        b, n = n, b
    if rng.random() < .1:
        n = b
    x = rng.random()
    if both or x < .6:
        return b, n
    if x < .75:
        return b, None
    if x < .9:
        return None, n
    return None, None


def rinc(rng):
    return [rng.random() < .5, rng.random() < .5]


def redge(rng, cls, nodes, R):
    u, v = rng.choice(nodes), rng.choice(nodes)
    t = rtime(rng, R)
    if is_imp(cls):
        return [u, v, t]
    return [u, v, t, t + rng.choice([0, 1, 1, 2, 3, R])]


def gen_hist(rng, cls, n=None, updates=True):
    nodes = rng.sample(NODES, rng.randint(2, 4))
    R = rng.choice([2, 3, 4, 8])
    n = rng.randint(1, 9) if n is None else n
    ops, edges = [], []
    for _ in range(n):
        x = rng.random()
        if x < .55 or not edges or not updates:
            e = redge(rng, cls, nodes, R)
            if edges and rng.random() < .25:
                e = list(rng.choice(edges))
                if rng.random() < .5:
                    e = [e[1], e[0]] + e[2:]
            edges.append(e)
            ops.append(["add_edge", e, attrs(rng)])
        elif x < .62:
            ops.append(["add_node", rng.choice(nodes), attrs(rng)])
        elif x < .66:
            ops.append(["add_nodes_from", [rng.choice(nodes) if rng.random() < .6 else
                                           [rng.choice(nodes), attrs(rng)]
                                           for _ in range(rng.randint(0, 3))], attrs(rng)])
        elif x < .71:
            es = [redge(rng, cls, nodes, R) for _ in range(rng.randint(0, 3))]
            edges += es
            ops.append(["add_edges_from", es, attrs(rng)])
        elif x < .88:
            e = rng.choice(edges)
            u, v = (e[0], e[1]) if rng.random() < .8 else (e[1], e[0])
            if rng.random() < .5 and not is_imp(cls):
                ops.append(["remove_edge", u, v, e[2], e[3], False])
            else:
                b, m = rwin(rng, R)
                if rng.random() < .3:
                    b = m = e[2]
                ops.append(["remove_edge", u, v, b, m, rinc(rng) if is_imp(cls) else True])
        else:
            b, m = rwin(rng, R) if rng.random() < .6 else (None, None)
            ops.append(["remove_node", rng.choice(nodes), b, m, rinc(rng)])
    return {"cls": cls, "ops": ops, "nodes": nodes, "R": R}


def build(case, each=None):
    G, M = CLS[case["cls"]](), Model(case["cls"])
    for i, op in enumerate(case["ops"]):
        real_apply(G, case["cls"], op)
        M.apply(op)
        if each:
            each(G, M, i, op)
    return G, M


def windows(case, none=True):
    R = case["R"]
    ts = list(range(-R // 2 - 1, R + 2)) if R <= 4 else [-3, -1, 0, 1, 3, 5, 8]
    ts = ts + [.5]
    for b, n in itertools.product([None] + ts, [None] + ts):
        if b is None and n is None and not none:
            continue
        if b is not None and n is not None and b > n:
            continue
        yield b, n


INCS = [(a, b) for a in (True, False) for b in (True, False)]


def sw(case, rng):
    """sampled windows with inclusivity"""
    ws = list(windows(case))
    ws = rng.sample(ws, min(len(ws), 14))
    for b, n in ws:
        if is_imp(case["cls"]):
            yield b, n, rng.choice(INCS)
        else:
            yield b, n, None


def ikw(inc):
    return {} if inc is None else {"inclusive": inc}


def key(e):
    return tuple(map(repr, e))


def same(got, exp):
    return sorted(map(key, got)) == sorted(map(key, exp))


def canon(M, got):
    return got


def usel(case, rng):
    """node selections: none, one, pair, lists, unknown"""
    nd = case["nodes"] + [99]
    one = lambda: rng.choice(nd)
    many = lambda: [rng.choice(nd) for _ in range(rng.randint(0, 3))]
    return rng.choice([(None, None), (one(), None), (None, one()), (one(), one()), (one(), one()),
                       (many(), None), (None, many()), (many(), one()), (one(), many()), (many(), many())])


# ---------------------------------------------------------------- edge lookups C03 C04 C07 C20
def gen_lookup(*classes):
    def gen(rng):
        c = gen_hist(rng, rng.choice(classes))
        c["qseed"] = rng.randint(0, 10 ** 9)
        return c
    return gen


def check_lookup(case):
    out = []
    G, M = build(case)
    rng = random.Random(case["qseed"])
    for b, n, inc in sw(case, rng):
        for _ in range(4):
            u, v = usel(case, rng)
            got = G.edges(u, v, b, n, **ikw(inc))
            exp = M.edges(u, v, b, n, inc)
            if not isinstance(got, list):
                out.append("edges(%r, %r, %r, %r, %r) is %r, not a list" % (u, v, b, n, inc, type(got)))
            elif not same(got, exp):
                out.append("edges(%r, %r, %r, %r, %r) = %r, expected %r" % (u, v, b, n, inc, got, exp))
        if b is not None and n is not None and b < n:
            for u, v in ((None, None), (case["nodes"][0], None)):
                try:
                    if u is None or u in M.N:
                        G.edges(u, v, n, b, **ikw(inc))
                        out.append("edges(%r, %r, %r, %r) accepted" % (u, v, n, b))
                except NetworkXError:
                    pass
    if is_imp(case["cls"]):
        for b, n in list(windows(case))[:40]:
            if not same(G.edges(begin=b, end=n), M.edges(None, None, b, n, (True, False))):
                out.append("default edges(begin=%r, end=%r)" % (b, n))
    return out


class FakeModel:
    def __init__(self, first): self.first = first
    def predict(self, X): return [[0., 1.] if self.first else [1., 0.]]


def check_C20(case):
    out = []
    G, M = build(case)
    rng = random.Random(case["qseed"])
    for b, n, inc in sw(case, rng):
        for _ in range(5):
            u, v = usel(case, rng)
            G._model = None
            ref = G.edges(u, v, b, n, **ikw(inc))
            for first in (True, False):
                G._model = FakeModel(first)
                got = G.edges(u, v, b, n, **ikw(inc))
                if not same(got, ref):
                    out.append("with a model preferring %s: edges(%r, %r, %r, %r, %r) = %r, without %r"
                               % ("nodes" if first else "time", u, v, b, n, inc, got, ref))
    G._model = None
    return out


# ---------------------------------------------------------------- C01 C02 C19: tree
def gen_tree(rng):
    cls = rng.choice(INTERVAL)
    if rng.random() < .4:
        c = gen_hist(rng, cls)
    else:
        R = rng.choice([3, 6, 20])
        ops, live = [], []
        for _ in range(rng.randint(3, rng.choice([10, 25, 60]))):
            if rng.random() < .6 or not live:
                t = rng.randint(-R, R)
                e = [rng.randint(0, 2), rng.randint(0, 2), t, t + rng.randint(0, R)]
                live.append(e)
                ops.append(["add_edge", e, {}])
            else:
                e = live.pop(rng.randrange(len(live)))
                ops.append(["remove_edge", e[0], e[1], e[2], e[3], False])
        c = {"cls": cls, "ops": ops, "nodes": [0, 1, 2], "R": R}
    c["qseed"] = rng.randint(0, 10 ** 9)
    return c


def check_C01(case):
    out = []
    rng = random.Random(case["qseed"])
    last = len(case["ops"]) - 1

    def each(G, M, i, op):
        if i != last and rng.random() < .6:
            return
        ws = list(windows(case, none=False))
        for b, n in rng.sample(ws, min(10, len(ws))):
            got, exp = G.edges(begin=b, end=n), M.edges(None, None, b, n)
            if not same(got, exp):
                out.append("after %d ops: edges(begin=%r, end=%r) = %r, expected %r" % (i + 1, b, n, got, exp))
            tr = list(G.tree[b:n])
            if not same(tr, exp):
                out.append("after %d ops: tree[%r:%r] = %r, expected %r" % (i + 1, b, n, tr, exp))
    build(case, each)
    return out


def gen_C02(rng):
    if rng.random() < .6:
        return gen_tree(rng)
    return gen_hist(rng, rng.choice(IMPULSE))


def check_C02(case):
    out = []

    def each(G, M, i, op):
        if M.E or not M.imp:
            got = G.interval()
            if tuple(got) != M.span():
                out.append("after %d ops: interval() = %r, expected %r" % (i + 1, got, M.span()))
        else:
            try:
                G.interval()
                out.append("interval() of an empty impulse graph did not raise")
            except IndexError:
                pass
    build(case, each)
    return out


def check_C19(case):
    out = []
    G, M = build(case)
    rng = random.Random(case["qseed"])
    sp = M.span()
    for b, n in rng.sample(list(windows(case)), 12):
        for inc in INCS:
            lo, hi = sp[0] if b is None else b, sp[1] if n is None else n
            ok = lambda t: (lo < t or (inc[0] and lo == t)) and (t < hi or (inc[1] and t == hi))
            B, E = {e[2] for e in M.E if ok(e[2])}, {e[3] for e in M.E if ok(e[3])}
            for name, exp in (("unique_timestamps", B | E), ("unique_begin_timestamps", B), ("unique_end_timestamps", E)):
                got = getattr(G, name)(b, n, inc)
                if list(got) != sorted(exp):
                    out.append("%s(%r, %r, %r) = %r, expected %r" % (name, b, n, inc, got, sorted(exp)))
    return out


# ---------------------------------------------------------------- updates C05 C08, attributes C10
def state_diff(G, M, attr=False):
    out = []
    got = G.edges()
    if not same(got, M.E):
        out.append("edges() = %r, expected %r" % (got, list(M.E)))
    if set(G.nodes()) != set(M.N) or len(G) != len(M.N):
        out.append("nodes() = %r, expected %r" % (list(G.nodes()), list(M.N)))
    if M.imp:
        ti = G.edges(begin=-1000, end=1000)
        raw = [(u, v, t) for t in G.tree for u, v in G.tree[t]]
        if not same(raw, M.E):
            out.append("time index holds %r, expected %r" % (raw, list(M.E)))
        if any(len(G.tree[t]) == 0 for t in G.tree):
            out.append("time index keeps an empty timestamp")
    else:
        ti = G.edges(begin=-1000, end=1000)
        if not same(list(G.tree[None:None]), M.E):
            out.append("time index holds %r, expected %r" % (list(G.tree[None:None]), list(M.E)))
    if not same(ti, M.E):
        out.append("edges(-1000, 1000) = %r, expected %r" % (ti, list(M.E)))
    for n in list(M.N):
        g, e = G.edges(u=n), M.edges(n)
        if not same(g, e):
            out.append("edges(u=%r) = %r, expected %r" % (n, g, e))
        g, e = G.edges(v=n), M.edges(None, n)
        if not same(g, e):
            out.append("edges(v=%r) = %r, expected %r" % (n, g, e))
        for m in list(M.N):
            g, e = G.has_edge(n, m), bool(M.edges(n, m))
            if g != e:
                out.append("has_edge(%r, %r) = %r, expected %r" % (n, m, g, e))
    if M.E or not M.imp:
        if tuple(G.interval()) != M.span():
            out.append("interval() = %r, expected %r" % (G.interval(), M.span()))
    if attr:
        d = {key(e): a for e, a in G.edges(data=True)}
        x = {key(e): a for e, a in M.E.items()}
        if d != x:
            out.append("edges(data=True) = %r, expected %r" % (G.edges(data=True), M.E))
        if dict(G.nodes(data=True)) != M.N:
            out.append("nodes(data=True) = %r, expected %r" % (dict(G.nodes(data=True)), M.N))
    return out


def check_updates(case):
    out = []
    attr = True

    def each(G, M, i, op):
        for o in state_diff(G, M, attr):
            out.append("after %d ops (last %r): %s" % (i + 1, op, o))
    G, M = build(case, each)
    for b, n in ((2, 1),):
        if M.E and not M.imp:
            e = next(iter(M.E))
            try:
                G.remove_edge(e[0], e[1], 2, 1)
                out.append("remove_edge with end < begin accepted")
            except NetworkXError:
                out += ["after refused removal: " + o for o in state_diff(G, M, attr)]
    return out


def check_C10(case):
    out = []
    rng = random.Random(case["qseed"])

    def each(G, M, i, op):
        for o in state_diff(G, M, True):
            out.append("after %d ops (last %r): %s" % (i + 1, op, o))
    G, M = build(case, each)
    for k in ("w", "x", "zz"):
        for b, n, inc in sw(case, rng):
            u, v = usel(case, rng)
            got = G.edges(u, v, b, n, data=k, default="D", **ikw(inc))
            exp = [(e, M.E[e].get(k, "D")) for e in M.edges(u, v, b, n, inc)]
            if sorted(map(repr, got)) != sorted(map(repr, exp)):
                out.append("edges(%r,%r,%r,%r,%r,data=%r) = %r, expected %r" % (u, v, b, n, inc, k, got, exp))
            got = G.edges(u, v, b, n, data=True, **ikw(inc))
            exp = [(e, M.E[e]) for e in M.edges(u, v, b, n, inc)]
            if len(got) != len(exp) or any((e, a) not in exp for e, a in got):
                out.append("edges(%r,%r,%r,%r,%r,data=True) = %r, expected %r" % (u, v, b, n, inc, got, exp))
            got = dict(G.nodes(b, n, data=k, default="D", **ikw(inc)))
            exp = {x: M.N[x].get(k, "D") for x in M.wnodes(b, n, inc)}
            if got != exp:
                out.append("nodes(%r,%r,%r,data=%r) = %r, expected %r" % (b, n, inc, k, got, exp))
    return out


# ---------------------------------------------------------------- membership C06 C09, degrees C11 C12
def check_membership(case):
    out = []
    G, M = build(case)
    rng = random.Random(case["qseed"])
    ws = list(windows(case))
    dflt = {"has_edge": None}
    for b, n in rng.sample(ws, min(len(ws), 20)):
        incs = [rng.choice(INCS)] if M.imp else [None]
        for inc in incs:
            ns = M.wnodes(b, n, inc)
            if set(G.nodes(b, n, **ikw(inc))) != ns or len(list(G.nodes(b, n, **ikw(inc)))) != len(ns):
                out.append("nodes(%r,%r,%r) = %r, expected %r" % (b, n, inc, list(G.nodes(b, n, **ikw(inc))), ns))
            if G.number_of_nodes(b, n, **ikw(inc)) != len(ns):
                out.append("number_of_nodes(%r,%r,%r) = %r, expected %r" % (b, n, inc, G.number_of_nodes(b, n, **ikw(inc)), len(ns)))
            for x in case["nodes"] + [99]:
                if bool(G.has_node(x, b, n, **ikw(inc))) != (x in ns):
                    out.append("has_node(%r,%r,%r,%r) = %r" % (x, b, n, inc, G.has_node(x, b, n, **ikw(inc))))
                if (x in G) != (x in M.N):
                    out.append("%r in G = %r" % (x, x in G))
                for y in case["nodes"]:
                    exp = bool(M.edges(x, y, b, n, inc))
                    if bool(G.has_edge(x, y, b, n, **ikw(inc))) != exp:
                        out.append("has_edge(%r,%r,%r,%r,%r) = %r, expected %r" % (x, y, b, n, inc, G.has_edge(x, y, b, n, **ikw(inc)), exp))
    if len(G) != len(M.N):
        out.append("len = %d, expected %d" % (len(G), len(M.N)))
    if not M.imp:
        for x in case["nodes"]:
            for y in case["nodes"]:
                ivs = {e[2:] for e in M.edges(x, y)}
                for b, n in itertools.product(range(-2, 4), range(-2, 5)):
                    if bool(G.has_edge(x, y, b, n, overlapping=False)) != ((b, n) in ivs):
                        out.append("has_edge(%r,%r,%r,%r,overlapping=False) = %r" % (x, y, b, n, G.has_edge(x, y, b, n, overlapping=False)))
    return out


def deg(M, kind, x, b, n, inc):
    i = len(M.edges(None, x, b, n, inc))
    o = len(M.edges(x, None, b, n, inc))
    if not M.dir:
        return o
    return {"degree": i + o, "in_degree": i, "out_degree": o}[kind]


def check_C11(case):
    out = []
    G, M = build(case)
    rng = random.Random(case["qseed"])
    for kind in (("degree", "in_degree", "out_degree") if M.dir else ("degree",)):
        for b, n, inc in sw(case, rng):
            f = getattr(G, kind)
            for x in case["nodes"]:
                got = f(x, b, n, **ikw(inc))
                if got != deg(M, kind, x, b, n, inc):
                    out.append("%s(%r,%r,%r,%r) = %r, expected %r" % (kind, x, b, n, inc, got, deg(M, kind, x, b, n, inc)))
            ns = M.wnodes(b, n, inc)
            if ns:
                exp = sum(deg(M, kind, x, b, n, inc) for x in ns) / len(ns)
                got = f(None, b, n, **ikw(inc))
                if abs(got - exp) > 1e-9:
                    out.append("%s(None,%r,%r,%r) = %r, expected %r" % (kind, b, n, inc, got, exp))
    return out


def check_C12(case):
    out = []
    G, M = build(case)
    rng = random.Random(case["qseed"])
    for kind in (("degree", "in_degree", "out_degree") if M.dir else ("degree",)):
        for b, n, inc in sw(case, rng):
            if inc is None:
                continue
            for x in case["nodes"]:
                got = getattr(G, kind)(x, b, n, delta=True, inclusive=inc)
                d = {}
                for side in ((["in_degree", "out_degree"] if kind == "degree" else [kind]) if M.dir else ["degree"]):
                    es = M.edges(None, x, b, n, inc) if side == "in_degree" else M.edges(x, None, b, n, inc)
                    for e in es:
                        d[e[2]] = d.get(e[2], 0) + 1
                if sorted(got) != sorted(d.items()):
                    out.append("%s(%r,%r,%r,delta=True,%r) = %r, expected %r" % (kind, x, b, n, inc, got, sorted(d.items())))
    return out


# ---------------------------------------------------------------- projections C13 C14
def proj_diff(S, M, es, multi, ed, td, nd):
    out = []
    D = M.dir
    pk = (lambda u, v: (repr(u), repr(v))) if D else (lambda u, v: tuple(sorted((repr(u), repr(v)))))
    if S.is_directed() != D or S.is_multigraph() != multi:
        return ["wrong kind of graph: %r" % S]

    def exp_attr(e):
        a = dict(M.E[e]) if ed else {}
        if td:
            if M.imp:
                a["timestamp"] = e[2]
            else:
                a["begin"], a["end"] = e[2], e[3]
        return a
    got = [(pk(u, v), d) for u, v, d in S.edges(data=True)]
    by = {}
    for e in es:
        by.setdefault(pk(e[0], e[1]), []).append(exp_attr(e))
    if multi:
        exp = sorted((p, repr(sorted(a.items(), key=repr))) for p, l in by.items() for a in l)
        g = sorted((p, repr(sorted(a.items(), key=repr))) for p, a in got)
        if g != exp:
            out.append("multigraph edges %r, expected %r" % (g, exp))
    else:
        if sorted(p for p, _ in got) != sorted(by):
            out.append("edges %r, expected %r" % (sorted(p for p, _ in got), sorted(by)))
        for p, a in got:
            if p in by:
                if len(by[p]) == 1 and a != by[p][0]:
                    out.append("edge %r carries %r, expected %r" % (p, a, by[p][0]))
                if set(a) != {k for x in by[p] for k in x}:
                    out.append("edge %r carries keys %r" % (p, a))
    ns = {x for e in es for x in e[:2]}
    if set(S.nodes) != ns:
        out.append("nodes %r, expected %r" % (set(S.nodes), ns))
    else:
        for n in ns:
            if dict(S.nodes[n]) != (M.N[n] if nd else {}):
                out.append("node %r carries %r, expected %r" % (n, S.nodes[n], M.N[n] if nd else {}))
    return out


def optkw(cls, o):
    return dict(multigraph=o[0], edge_data=o[1], node_data=o[3],
                **{"edge_timestamp_data" if is_imp(cls) else "edge_interval_data": o[2]})


def check_C13(case):
    out = []
    G, M = build(case)
    rng = random.Random(case["qseed"])
    for b, n, inc in sw(case, rng):
        o = [rng.random() < .5 for _ in range(4)]
        es = M.edges(None, None, b, n, inc)
        for name in ("to_subgraph", "to_networkx_graph"):
            S = getattr(G, name)(b, n, **ikw(inc), **optkw(case["cls"], o))
            for d in proj_diff(S, M, es, *o):
                out.append("%s(%r,%r,%r,%r): %s" % (name, b, n, inc, o, d))
            for u, v, d in S.edges(data=True):
                d["zz"] = 1
            for x in S.nodes:
                S.nodes[x]["zz"] = 1
        out += ["after projecting: " + d for d in state_diff(G, M, True)]
    return out


def check_C14(case):
    from fractions import Fraction as F
    out = []
    case = json.loads(json.dumps(case))
    for op in case["ops"]:
        if op[0] == "add_edge":
            op[1] = op[1][:2] + [F(x) for x in op[1][2:]]
        elif op[0] == "add_edges_from":
            op[1] = [e[:2] + [F(x) for x in e[2:]] for e in op[1]]
    G, M = build(case)
    rng = random.Random(case["qseed"])
    if not M.E:
        return out
    lo, hi = M.span()
    if lo == hi:
        return out
    for _ in range(6):
        o = [rng.random() < .5 for _ in range(4)]
        if rng.random() < .5:
            k = rng.randint(2, 5)
            L = (hi - lo) / k
            arg = {"number_of_snapshots": k}
        else:
            L = rng.choice([1, 2, 1.0, 0.5, 3])
            k = math.ceil((hi - lo) / F(L))
            if k < 2:
                continue
            arg = {"length_of_snapshots": L}
            L = F(L)
        S, rl = G.to_snapshots(return_length=True, **arg, **optkw(case["cls"], o))
        if len(S) != k or rl != L:
            out.append("to_snapshots(%r): %d snapshots of length %r, expected %d of %r" % (arg, len(S), rl, k, L))
            continue
        for i, s in enumerate(S):
            a, z = lo + L * i, lo + L * (i + 1)
            lasti = i == k - 1
            if M.imp:
                es = [e for e in M.E if a <= e[2] and (e[2] < z or (lasti and e[2] <= z))]
            else:
                es = [e for e in M.E if (e[2] < z or (lasti and e[2] <= z)) and e[3] > a or e[2] == a]
            for d in proj_diff(s, M, es, *o):
                out.append("to_snapshots(%r)[%d] (window %s..%s): %s" % (arg, i, a, z, d))
    return out


# ---------------------------------------------------------------- snapshots C15 C16 C17
def gen_snap(rng):
    t = rng.randint(-2, 1)
    keys = []
    for _ in range(rng.randint(0, 5)):
        t += rng.choice([0, 0, 1, 2])
        L = rng.choice([0, 1, 2, 3])
        keys.append([t, t + L])
        t += L if L else 1
    gs = []
    for k in keys:
        gs.append({"key": k, "di": rng.random() < .3, "multi": rng.random() < .2,
                   "nodes": rng.sample(NODES, rng.randint(0, 2)),
                   "edges": [[rng.choice(NODES[:3]), rng.choice(NODES[:3]), rng.randint(1, 3)] for _ in range(rng.randint(0, 3))],
                   "how": rng.randint(0, 2)})
    order = list(range(len(gs)))
    rng.shuffle(order)
    return {"gs": gs, "order": order, "di": rng.random() < .3, "qseed": rng.randint(0, 10 ** 9)}


def build_snap(case):
    S = (dnx.SnapshotDiGraph if case["di"] else dnx.SnapshotGraph)()
    M = {}
    for i in case["order"]:
        d = case["gs"][i]
        g = {(0, 0): nx.Graph, (1, 0): nx.DiGraph, (0, 1): nx.MultiGraph, (1, 1): nx.MultiDiGraph}[(int(d["di"]), int(d["multi"]))]()
        g.add_nodes_from(d["nodes"], c=1)
        for u, v, w in d["edges"]:
            g.add_edge(u, v, weight=w)
        k = d["key"]
        if k[0] == k[1] and d["how"]:
            (S.insert if d["how"] == 1 else S.add_snapshot)(graph=g, time=k[0])
        else:
            (S.insert if d["how"] == 1 else S.add_snapshot)(graph=g, start=k[0], end=k[1])
        M[tuple(k)] = g
    return S, dict(sorted(M.items()))


def meets(k, b, n):
    return (n is None or k[0] < n) and (b is None or k[1] > b or k[0] == b)


def ranges(rng, num):
    for _ in range(num):
        b, n = sorted(rng.sample([x / 2 for x in range(-8, 30)] if rng.random() < .3 else list(range(-3, 14)), 2))
        x = rng.random()
        yield (None, n) if x < .15 else (b, None) if x < .3 else (None, None) if x < .35 else (b, n)


def check_C15(case):
    out = []
    S, M = build_snap(case)
    rng = random.Random(case["qseed"])

    def whole(tag):
        if list(S.snapshots.keys()) != sorted(M) or any(S.snapshots[k] is not M[k] for k in M):
            out.append("%s: stores %r, expected %r" % (tag, dict(S.snapshots), M))
        if len(S) != len(M) or [id(g) for g in S] != [id(M[k]) for k in sorted(M)]:
            out.append("%s: len/iteration" % tag)
    whole("after insertion")
    for b, n in ranges(rng, 12):
        got = S.get(start=b, end=n)
        exp = [M[k] for k in sorted(M) if meets(k, b, n)]
        if [id(g) for g in got] != [id(g) for g in exp]:
            out.append("get(start=%r, end=%r) returned snapshots %r of %r" % (b, n, [[k for k in M if M[k] is g] for g in got], list(M)))
    if M:
        for _ in range(4):
            sb = [rng.randrange(len(M)) for _ in range(rng.randint(0, 3))]
            got = S.get(sbunch=sb)
            if [id(g) for g in got] != [id(list(M.values())[i]) for i in sb]:
                out.append("get(sbunch=%r)" % sb)
        k = rng.choice(list(M))
        g = nx.path_graph(2)
        S.insert(g, start=k[0], end=k[1])
        M[k] = g
        if g not in S or nx.path_graph(2) in S and False:
            out.append("inserted graph not contained")
    whole("after queries and a replacement")
    for args in (dict(start=0, end=1, time=1), dict(start=1), dict(end=1), dict(start=2, end=1)):
        try:
            S.insert(nx.Graph(), **args)
            out.append("insert(%r) accepted" % args)
        except ValueError:
            pass
    whole("after refused insertions")
    for args in (dict(sbunch=[0], start=1), dict(sbunch=[], end=1)):
        try:
            S.get(**args)
            out.append("get(%r) accepted" % args)
        except ValueError:
            pass
    return out


def gview(g):
    return (type(g).__name__, {n: dict(d) for n, d in g.nodes(data=True)},
            sorted(repr((sorted([repr(u), repr(v)]) if not g.is_directed() else [repr(u), repr(v)], d)) for u, v, d in g.edges(data=True)))


def check_C16(case):
    import copy
    out = []
    S, M = build_snap(case)
    rng = random.Random(case["qseed"])
    M = {k: copy.deepcopy(g) for k, g in M.items()}
    for _ in range(5):
        nodes = rng.random() < .5
        nb = rng.sample(NODES + [50, 51], rng.randint(0, 3)) if nodes else [(rng.choice(NODES), rng.choice(NODES)) for _ in range(rng.randint(0, 2))]
        at = {"q": rng.randint(0, 3)} if rng.random() < .5 else {}
        f = lambda g: (g.add_nodes_from if nodes else g.add_edges_from)(nb, **at)
        name = "add_nodes_from" if nodes else "add_edges_from"
        before = {k: gview(g) for k, g in M.items()}
        if rng.random() < .25 and M:
            sb = sorted({rng.randrange(len(M)) for _ in range(rng.randint(0, 3))})
            getattr(S, name)(nb, sbunch=sb, **at)
            ks = sorted(M)
            for i in sb:
                f(M[ks[i]])
            tag = "%s(%r, sbunch=%r)" % (name, nb, sb)
        else:
            b, n = next(iter(ranges(rng, 1)))
            getattr(S, name)(nb, start=b, end=n, **at)
            tag = "%s(%r, start=%r, end=%r) on %r" % (name, nb, b, n, sorted(M))
            M2 = {}
            for k in sorted(M):
                if not meets(k, b, n):
                    M2[k] = M[k]
                    continue
                cuts = [k[0]] + sorted({x for x in (b, n) if x is not None and k[0] < x < k[1]}) + [k[1]]
                for s, e in zip(cuts, cuts[1:]):
                    g = copy.deepcopy(M[k])
                    if meets((s, e), b, n):
                        f(g)
                    M2[(s, e)] = g
            M = M2
        # compare instant by instant
        got, exp = {k: gview(g) for k, g in S.snapshots.items()}, {k: gview(g) for k, g in M.items()}
        if len({id(g) for g in S.snapshots.values()}) != len(S.snapshots):
            out.append(tag + ": two snapshots share one graph")
        pts = sorted({x for k in list(got) + list(exp) for x in k} | {x for x in (-9, 99)})
        pts = sorted(set(pts) | {(a + b) / 2 for a, b in zip(pts, pts[1:])})
        for t in pts:
            cov = lambda d: [v for (s, e), v in d.items() if s <= t < e or s == t == e]
            if cov(got) != cov(exp):
                out.append("%s: at %r: %r, expected %r" % (tag, t, cov(got), cov(exp)))
                break
        if out:
            return out
        M = {k: copy.deepcopy(S.snapshots[k]) for k in S.snapshots}
    return out


def norm(x):
    if isinstance(x, (int, float, bool, str)):
        return x
    if hasattr(x, "nodes") and hasattr(x, "edges"):
        return gview(x)
    return sorted((repr(a), b) for a, b in x)


def check_C17(case):
    out = []
    S, M = build_snap(case)
    rng = random.Random(case["qseed"])
    for _ in range(6):
        if rng.random() < .35 and M:
            sb = [rng.randrange(len(M)) for _ in range(rng.randint(0, 3))]
            sel, ks = {"sbunch": sb}, [sorted(M)[i] for i in sb]
        else:
            b, n = next(iter(ranges(rng, 1)))
            sel, ks = {"start": b, "end": n}, [k for k in sorted(M) if meets(k, b, n)]
        gs = [M[k] for k in ks]
        nd = rng.choice(NODES)
        w = rng.choice([None, "weight"])
        calls = [("number_of_nodes", [], {}, lambda g: g.number_of_nodes()), ("order", [], {}, lambda g: g.order()),
                 ("size", [], {"weight": w}, lambda g: g.size(weight=w)), ("has_node", [nd], {}, lambda g: g.has_node(nd)),
                 ("is_directed", [], {}, lambda g: g.is_directed()), ("is_multigraph", [], {}, lambda g: g.is_multigraph()),
                 ("to_directed", [], {}, lambda g: g.to_directed()), ("to_undirected", [], {}, lambda g: g.to_undirected()),
                 ("degree", [], {"weight": w}, lambda g: g.degree(g, weight=w)),
                 ("compute_network_statistic", [lambda g, z=0: g.number_of_edges() + z], {"z": 5}, lambda g: g.number_of_edges() + 5)]
        inall = [x for x in NODES if all(x in g for g in gs)]
        if inall:
            x = rng.choice(inall)
            calls.append(("degree", [], {"nbunch": x, "weight": w}, lambda g: g.degree(x, weight=w)))
            calls.append(("degree", [], {"nbunch": inall, "weight": w}, lambda g: g.degree(inall, weight=w)))
        for name, a, k, f in calls:
            got = getattr(S, name)(*a, **k, **sel)
            exp = [f(g) for g in gs]
            if [norm(x) for x in got] != [norm(x) for x in exp]:
                out.append("%s(%r,%r,%r) = %r, expected %r" % (name, a, k, sel, got, exp))
        nbun = rng.sample(NODES, 3)
        sub = S.subgraph(nbun, **sel)
        exp = {k: gview(M[k].subgraph(nbun)) for k in ks}
        if {k: gview(g) for k, g in sub.snapshots.items()} != exp:
            out.append("subgraph(%r, %r) = %r, expected %r" % (nbun, sel, dict(sub.snapshots), exp))
    if list(S.snapshots.keys()) != sorted(M) or any(S.snapshots[k] is not M[k] for k in M):
        out.append("queries changed what is stored")
    return out


# ---------------------------------------------------------------- C18
def gen_C18(rng):
    return {"imp": rng.random() < .5, "multi": rng.random() < .5, "custom": rng.random() < .4,
            "edges": [[rng.choice(NODES), rng.choice(NODES), rng.randint(-2, 3), rng.randint(0, 3), attrs(rng)] for _ in range(rng.randint(0, 6))],
            "nodes": rng.sample(NODES, 2)}


def check_C18(case):
    out = []
    g = nx.MultiGraph() if case["multi"] else nx.Graph()
    g.add_nodes_from(case["nodes"])
    tb, te, tt = ("s", "f", "tm") if case["custom"] else ("begin", "end", "timestamp")
    for u, v, b, l, a in case["edges"]:
        if not case["multi"] and g.has_edge(u, v):
            continue
        g.add_edge(u, v, **a, **({tt: b} if case["imp"] else {tb: b, te: b + l}))
    M = Model("ImpulseGraph" if case["imp"] else "IntervalGraph")
    dup = set()
    for u, v, d in g.edges(data=True):
        d = dict(d)
        e = (u, v, d.pop(tt)) if case["imp"] else (u, v, d.pop(tb), d.pop(te))
        r = (v, u) + e[2:]
        if e in M.E or r in M.E:
            dup |= {e, r}
        M.add(e, d)
    before = gview(g)
    if case["imp"]:
        G = dnx.ImpulseGraph.from_networkx_graph(g, **({"timestamp": tt} if case["custom"] else {}))
    else:
        G = dnx.IntervalGraph.from_networkx_graph(g, **({"begin": tb, "end": te} if case["custom"] else {}))
    if gview(g) != before:
        out.append("the source graph changed")
    c = (lambda e: tuple(sorted((repr(e[0]), repr(e[1])))) + tuple(e[2:]))
    got = sorted(map(repr, map(c, G.edges())))
    exp = sorted(map(repr, set(map(c, M.E)))) if not case["imp"] else sorted(map(repr, map(c, M.E)))
    if got != exp:
        out.append("edges %r, expected %r" % (got, exp))
    else:
        for e, a in G.edges(data=True):
            if e in M.E and e not in dup and a != M.E[e]:
                out.append("edge %r carries %r, expected %r" % (e, a, M.E[e]))
    for x in G.nodes():
        if dict(G._node[x]) != {}:
            out.append("node %r got attributes" % (x,))
    # the result is independent of the source
    for u, v, d in g.edges(data=True):
        d["zz"] = 9
    if any("zz" in a for _, a in G.edges(data=True)):
        out.append("attributes are shared with the source graph")
    return out


# ---------------------------------------------------------------- C21
def gen_C21(rng):
    k = rng.choice(["iv", "im", "from"])
    if k == "from":
        c = gen_snap(rng)
        c["kind"] = k
        c["begin"], c["period"] = rng.choice([0, -1, 2.5]), rng.choice([1, 2, .5])
        for g in c["gs"]:
            if rng.random() < .15:
                g["edges"] = []
            g["nodes"] = rng.choice([0, 1, 2])
        return c
    cls = rng.choice(INTERVAL if k == "iv" else IMPULSE)
    c = gen_hist(rng, cls)
    for op in c["ops"]:
        for e in ([op[1]] if op[0] == "add_edge" else op[1] if op[0] == "add_edges_from" else []):
            if k == "iv" and e[2] == e[3]:
                e[3] += 1
    c["kind"], c["qseed"] = k, rng.randint(0, 10 ** 9)
    return c


def check_C21(case):
    out = []
    if case["kind"] == "from":
        S = dnx.SnapshotGraph()
        seq = []
        for d in case["gs"]:
            g = nx.Graph()
            if d["nodes"]:
                g.add_nodes_from(NODES if d["nodes"] == 1 else NODES[::-1])
            for u, v, w in d["edges"]:
                g.add_edge(u, v)
            S.insert(g, start=d["key"][0], end=d["key"][1])
            seq.append({frozenset(e) for e in g.edges()})
        G = dnx.IntervalGraph.from_snapshot_graph(S, case["begin"], case["period"])
        b, p = case["begin"], case["period"]
        exp = []
        for pair in set().union(*seq) if seq else ():
            i = 0
            while i < len(seq):
                if pair in seq[i]:
                    j = i
                    while j < len(seq) and pair in seq[j]:
                        j += 1
                    exp.append((tuple(sorted(map(repr, pair))), b + p * i, b + p * j))
                    i = j
                i += 1
        got = [(tuple(sorted(map(repr, set(e[:2])))), e[2], e[3]) for e in G.edges()]
        if sorted(got) != sorted(exp):
            out.append("from_snapshot_graph: %r, expected %r" % (sorted(got), sorted(exp)))
        return out
    G, M = build(case)
    if not M.E:
        return out
    rng = random.Random(case["qseed"])
    o = [rng.random() < .5 for _ in range(4)]
    S = G.to_snapshot_graph(**optkw(case["cls"], o))
    ts = sorted({t for e in M.E for t in e[2:]})
    pts = sorted(set(ts) | {(a + b) / 2 for a, b in zip(ts, ts[1:])} | {ts[0] - 1, ts[-1] + 1})
    for t in pts:
        cov = [g for (s, e), g in S.snapshots.items() if s <= t < e or (M.imp and s == t == e)]
        es = [e for e in M.E if (e[2] == t if M.imp else e[2] <= t < e[3])]
        if len(cov) > 1:
            out.append("two snapshots cover %r" % t)
        elif not cov:
            if es:
                out.append("no snapshot covers %r" % t)
        else:
            out += ["at %r: %s" % (t, d) for d in proj_diff(cov[0], M, es, *o)]
    return out


# ---------------------------------------------------------------- C22
TEXTVALS = [0, 1, -2, 2.5, 1e-7, "red", "a-b", "x1", 10 ** 6, .1 + .2, 123456789, 1254194656.125]


def gen_C22(rng):
    if rng.random() < .3:
        t, gs = rng.choice([-2, -1, 0, 1, .1 + .2, 1254194656.125]), []
        for _ in range(rng.randint(1, 4)):
            L = rng.choice([0, 1, .5, 3])
            n = rng.randint(1, 4)
            gs.append({"key": [t, t + L], "n": n, "edges": [[rng.randrange(n), rng.randrange(n), rng.choice([1, 2, .5, -3, .1 + .2, 12345678.25])] for _ in range(rng.randint(0, 5))]})
            t += (L or 1) + rng.choice([0, 0, 1])
        return {"kind": "snap", "gs": gs, "order": [], "delimiter": rng.choice([None, ";", "|", ",", "::"]), "names": rng.choice([None, ["from", "to"], ["s0", "s1"]])}
    cls = rng.choice(["IntervalGraph", "ImpulseGraph", "ImpulseDiGraph"])
    strs = rng.random() < .3
    nodes = ["a", "bc", "N7", "d.e", "Xy"] if strs else [0, 1, 2, "a", "bc", -3, 12345678901234567, "Xy"]
    es = []
    for _ in range(rng.randint(1, 6)):
        b = rng.choice([0, 1, 2, -1, .5, 7, .1 + .2, 1254194656.125, 12345678, 1e-9])
        e = [rng.choice(nodes), rng.choice(nodes), b] + ([b + rng.choice([0, 1, .25, 4])] if cls == "IntervalGraph" else [])
        es.append([e, {k: rng.choice(TEXTVALS) for k in rng.sample(["w", "color", "x"], rng.randint(0, 3))}])
    return {"kind": "graph", "cls": cls, "edges": es, "strs": strs, "delimiter": rng.choice([None, None, "\t", ",", "|", ";", ".*", "||"]),
            "comments": rng.choice([None, "#", "@", "//"])}


def check_C22(case):
    import tempfile, shutil
    d = tempfile.mkdtemp(prefix="c22_")
    try:
        return roundtrip(case, os.path.join(d, "g.txt"))
    finally:
        shutil.rmtree(d)


def roundtrip(case, path):
    out = []
    dl = {} if case["delimiter"] is None else {"delimiter": case["delimiter"]}
    if case["kind"] == "snap":
        if not case["gs"]:
            return out
        S = dnx.SnapshotGraph()
        exp = []
        for g in case["gs"]:
            G = nx.Graph()
            G.add_nodes_from(range(g["n"]))
            G.add_weighted_edges_from(g["edges"])
            S.insert(G, start=g["key"][0], end=g["key"][1])
            exp.append((tuple(g["key"]), nx.to_numpy_array(G).tolist()))
        kw = dict(dl, **({} if case["names"] is None else {"start": case["names"][0], "end": case["names"][1]}))
        S.save_to_txt(path, **kw)
        L = dnx.SnapshotGraph.load_from_txt(path, **kw)
        got = [(k, nx.to_numpy_array(G).tolist()) for k, G in L.snapshots.items()]
        if got != exp:
            out.append("snapshots loaded %r, saved %r" % (got, exp))
        return out
    cls = case["cls"]
    G, M = CLS[cls](), Model(cls)
    for e, a in case["edges"]:
        G.add_edge(*e, **a)
        M.add(tuple(e), a)
    if not M.E:
        return out
    G.save_to_txt(path, **dl)
    kw = dict(dl)
    if case["strs"]:
        kw["nodetype"] = str
    if case["comments"] is not None and case["comments"] != case["delimiter"]:
        kw["comments"] = case["comments"]
    L = CLS[cls].load_from_txt(path, **kw)
    if type(L) is not CLS[cls]:
        return ["loaded a %s" % type(L).__name__]
    # an undirected interval edge may be written either way round
    def canon(es):
        r = []
        for e, a in es:
            if cls == "IntervalGraph":
                e = tuple(sorted(e[:2], key=repr)) + tuple(e[2:])
            r.append((repr(e[:2]), tuple(float(t) for t in e[2:]), sorted((str(k), repr(float(v)) if not isinstance(v, str) else v) for k, v in a.items())))
        return sorted(r)
    got, exp = canon(L.edges(data=True)), canon(M.E.items())
    if got != exp:
        out.append("edges loaded %r, saved %r" % (got, exp))
    return out


# ---------------------------------------------------------------- C23
def gen_C23(rng):
    motifs = [[[1, 2], [2, 1]], [[1, 2], [1, 2]], [[1, 2], [2, 3]], [[1, 2], [2, 3], [3, 1]], [[1, 2], [3, 2]],
              [[1, 1], [1, 2]], [[1, 2], [2, 3], [2, 3]], [["a", "b"], ["b", "a"], ["a", "b"]], [[0, 1], [1, 0]],
              [[1, 2], [2, 1], [1, 2], [2, 1]], [[1, 2], [3, 4], [2, 3]], [[1, 2], [1, 3], [1, 4]], [[2, 1], [1, 3], [3, 4], [4, 2]],
              [["x", "y"], ["z", "y"], ["y", "y"]], [[1, 1], [1, 1]]]
    motif = rng.choice(motifs)
    n, times = rng.choice([2, 3, 3, 4, 5]), rng.choice([list(range(-1, 6)), list(range(3)), [0, 0.5, 1, 1.25, 2, 4]])
    edges = [[rng.randrange(n), rng.randrange(n), rng.choice(times)] for _ in range(rng.randint(1, 9 if len(motif) > 3 else 14))]
    # an occurrence, most often
    ns = sorted({x for e in motif for x in e}, key=str)
    if rng.random() < 0.7 and n >= len(ns):
        to = dict(zip(ns, rng.sample(range(n), len(ns))))
        ts = sorted(rng.choice(times) for _ in motif)
        edges += [[to[a], to[b], t] for (a, b), t in zip(motif, ts)]
    name = rng.choice([None, None, lambda x: "n%d" % x, lambda x: x * 0.5 - 1])
    if name:
        edges = [[name(u), name(v), t] for u, v, t in edges]
    return {"edges": edges, "motif": motif, "delta": rng.choice([0, 1, 2, 3, 5, 6, 0.5, 1.5])}


def check_C23(case):
    from dynetworkx.algorithms.count_temporal_motif import count_temporal_motif
    G = dnx.ImpulseDiGraph()
    L = sorted({tuple(e) for e in case["edges"]})
    for e in L:
        G.add_edge(*e)
    seq = tuple(map(tuple, case["motif"]))
    c = {}
    for t in itertools.permutations(L, len(seq)):
        if any(a[2] >= b[2] for a, b in zip(t, t[1:])) or t[-1][2] - t[0][2] > case["delta"]:
            continue
        m, ok = {}, True
        for (a, b), e in zip(seq, t):
            for x, y in ((a, e[0]), (b, e[1])):
                ok = ok and m.setdefault(x, y) == y
        if ok and len(set(m.values())) == len(m):
            k = tuple(x for e in t for x in e[:2])
            c[k] = c.get(k, 0) + 1
    tot, by, _ = count_temporal_motif(G, seq, case["delta"])
    if tot != sum(c.values()) or dict(by) != c:
        return ["count_temporal_motif = %r %r, expected %r %r" % (tot, by, sum(c.values()), c)]
    return []


PROPS = {
    "C01": (gen_tree, check_C01), "C02": (gen_C02, check_C02), "C19": (gen_tree, check_C19),
    "C03": (gen_lookup("IntervalGraph"), check_lookup), "C04": (gen_lookup("IntervalDiGraph"), check_lookup),
    "C07": (gen_lookup(*IMPULSE), check_lookup), "C20": (gen_lookup(*INTERVAL, *IMPULSE), check_C20),
    "C05": (gen_lookup(*INTERVAL), check_updates), "C08": (gen_lookup(*IMPULSE), check_updates),
    "C10": (gen_lookup(*INTERVAL, *IMPULSE), check_C10),
    "C06": (gen_lookup(*INTERVAL), check_membership), "C09": (gen_lookup(*IMPULSE), check_membership),
    "C11": (gen_lookup(*INTERVAL, *IMPULSE), check_C11), "C12": (gen_lookup(*IMPULSE), check_C12),
    "C13": (gen_lookup(*INTERVAL, *IMPULSE), check_C13), "C14": (gen_lookup(*INTERVAL, *IMPULSE), check_C14),
    "C15": (gen_snap, check_C15), "C16": (gen_snap, check_C16), "C17": (gen_snap, check_C17),
    "C18": (gen_C18, check_C18), "C21": (gen_C21, check_C21), "C22": (gen_C22, check_C22), "C23": (gen_C23, check_C23),
}


class Stuck(BaseException):
    pass


def run_case(prop, case):
    def stuck(*_):
        raise Stuck()
    signal.signal(signal.SIGVTALRM, stuck)
    signal.setitimer(signal.ITIMER_VIRTUAL, 20)
    try:
        return PROPS[prop][1](json.loads(json.dumps(case)))
    except Stuck:
        return ["a call on this small input did not return within 20 s of processor time"]
    except Exception as x:
        tb = traceback.extract_tb(x.__traceback__)
        inrepo = [f for f in tb if f.filename.startswith(REPO + "/")]
        if not inrepo and not isinstance(x, (AttributeError, TypeError, RuntimeError, KeyError)):
            raise
        where = inrepo[-1] if inrepo else tb[-1]
        return ["raised %s: %s (in %s, line %s)" % (type(x).__name__, x, os.path.basename(where.filename), where.lineno)]
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def shrink(prop, case, budget=5.0):
    t0 = time.time()
    best = case
    for field in ("ops", "edges", "gs"):
        if field not in best:
            continue
        i = 0
        while i < len(best[field]) and time.time() - t0 < budget:
            c = json.loads(json.dumps(best))
            del c[field][i]
            if field == "gs":
                c["order"] = [j - (j > i) for j in c["order"] if j != i]
            try:
                bad = run_case(prop, c)
            except Exception:
                bad = None
            if bad:
                best = c
            else:
                i += 1
    return best


def search(prop, seed, seconds, maxcases=10 ** 9):
    gen = PROPS[prop][0]
    t0, n, seen = time.time(), 0, set()
    sample = None
    while time.time() - t0 < seconds and n < maxcases:
        rng = random.Random("%s/%s/%d" % (prop, seed, n))
        case = gen(rng)
        n += 1
        s = json.dumps(case, sort_keys=True)
        if len(s) > 150:
            seen.add(hash(s))
        if sample is None and len(s) > 250:
            sample = case
        bad = run_case(prop, case)
        if bad:
            case = shrink(prop, case)
            return {"property": prop, "case": case, "failures": run_case(prop, case)[:5], "evaluations": n,
                    "distinct": len(seen), "sample": sample}
    return {"property": prop, "case": None, "evaluations": n, "distinct": len(seen), "sample": sample}


if __name__ == "__main__":
    if sys.argv[1] == "search":
        r = search(sys.argv[2], sys.argv[3], float(sys.argv[4]), int(sys.argv[5]) if len(sys.argv) > 5 else 10 ** 9)
        print(json.dumps(r))
        sys.exit(1 if r["case"] else 0)
    elif sys.argv[1] == "replay":
        r = json.load(open(sys.argv[2]))
        if r.get("case") is None:
            print("no concrete case recorded in this file")
            sys.exit(2)
        bad = run_case(r["property"], r["case"])
        print(json.dumps(r["case"]))
        for b in bad:
            print("DISAGREES:", b)
        sys.exit(1 if bad else 0)
