"""Contracts of the degree methods: counts, means over the nodes present, timelines."""
from .specs_graph import *
from .specs_graph import MORE, more


def kinds(cfg): return ("degree", "in_degree", "out_degree") if cfg.directed else ("degree",)


def add_all(ts):
    r = None
    for t in ts:
        r = t if r is None else r + t
    return r if r is not None else z3.IntVal(0)


def deg_spec(eng, cfg, S0, kind, n, loc):
    return add_all([eng.card([p]) for p in deg_parts(eng, cfg, S0, kind, n, loc)])


@more
def q_degree(cfg):
    for kind in kinds(cfg):
        for lab, w in win_variants(cfg, kind):
            def args(eng, w=w):
                loc, kw = w(eng)
                n = z3.Const("n", Nd)
                return [n], kw, {"n": n, "loc": loc}

            def check(eng, S0, I, rv, kind=kind):
                equal_number(eng, "%s.%s: the count is exact" % (cfg.name, kind), rv,
                             lambda: deg_spec(eng, cfg, S0, kind, I["n"], I["loc"]))
            yield t_query(cfg, kind, "node," + lab, args, check)

            def args0(eng, w=w):
                loc, kw = w(eng)
                I = {"loc": loc}
                L, V = z3.Function("L@g", cfg.sort, Bool), z3.Function("V@g", Nd, Bool)
                x, e = fresh("x", Nd), fresh("e", cfg.sort)
                some = Exists([x], V(x)) if no_window(loc) else Exists([e], And(L(e), window(eng, cfg, e, loc)))
                I["may_raise"] = {"ZeroDivisionError": Not(some)}
                I["some"] = some
                return [], kw, I

            def check0(eng, S0, I, rv, kind=kind):
                loc = I["loc"]
                nm = "%s.%s: the mean over the nodes present is exact" % (cfg.name, kind)
                eng.oblige(nm, I["some"])
                x = fresh("x", Nd)
                here = S0.nodes if no_window(loc) else present(eng, cfg, S0, loc)

                def want():
                    eng.loopvars.append(x)
                    t = deg_spec(eng, cfg, S0, kind, x, loc)
                    eng.loopvars.pop()
                    total = eng.sum_([x], here(x), t)
                    return z3.ToReal(total) / z3.ToReal(node_count_spec(eng, cfg, S0, loc))
                equal_number(eng, nm, rv, want)
            yield t_query(cfg, kind, "mean," + lab, args0, check0)


@more
def q_timeline(cfg):
    if cfg.interval:
        return
    for kind in kinds(cfg):
        for lab, w in win_variants(cfg, kind):
            def args(eng, w=w):
                loc, kw = w(eng)
                n = z3.Const("n", Nd)
                return [n], dict(kw, delta=True), {"n": n, "loc": loc}

            def check(eng, S0, I, rv, kind=kind):
                nm = "%s.%s(delta)" % (cfg.name, kind)

                def at(t):
                    out = []
                    for p in map(rename, deg_parts(eng, cfg, S0, kind, I["n"], I["loc"])):
                        out.append(Part(p.vars, And(p.guard, Eq(edge_comp(p.vars[0], 2), t)), p.elem))
                    return out
                spec = lambda t: Or([Exists(p.vars, p.guard) for p in at(t)])
                key = lambda el: eng.num(el[0]) if isinstance(el, tuple) and len(el) == 2 else None
                if not (isinstance(rv, HRef) and isinstance(eng.heap[rv.id], CollRec) and eng.heap[rv.id].kind == "list"):
                    raise Unsupported("result of the timeline")
                parts = list(map(rename, eng.heap[rv.id].parts))
                check_parts(eng, parts, nm, key, spec, None, Real)
                for p in parts:
                    t = key(p.elem)
                    for v in p.vars:
                        eng.loopvars.append(v)
                    s = fresh("t", Real)
                    eng.fact(s == t) if not p.vars else None
                    if p.vars and not any(t.eq(v) for v in p.vars):
                        raise Unsupported("timeline element")
                    want = add_all([eng.card([q]) for q in at(t)])
                    got = eng.num(p.elem[1])
                    count_lemmas(eng, nm)
                    eng.oblige(nm + ": the number of edges at the timestamp is exact", Forall(p.vars, Implies(p.guard, got == want)))
                    for v in p.vars:
                        eng.loopvars.pop()
            yield t_query(cfg, kind, "timeline," + lab, args, check)
