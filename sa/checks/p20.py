"""P20 Time models give valid, configured durations."""
TECHNIQUE = "path-wise term propagation with algebraic normal forms (rational functions, roots, logarithms, symbolic schedules) compared with the configured formula"
NOTE = "Formulas are compared as algebraic normal forms for all values of the parameters, schedules for every length up to 5; numpy's samplers are trusted to follow the parameters they are given."
from ..lib import *
from ..peval import paths
from ..alg import *

T = "prodsys.simulation.time_model."; D = "self.time_model_data."
ORIGIN, TARGET = "origin", "target"


def ret(p): return p.close(("var", p.g.root.id, "$ret"))


def callname(t): return str(t[1][2] if t[1][0] == "attr" else t[1][-1]).split(".")[-1] if t[0] == "pcall" else ""


def peel(t):
    while t[0] == "pcall" and callname(t) in ("list", "tolist", "tuple", "iter", "float", "deque"):
        if t[2]: t = t[2][0]
        elif t[1][0] == "attr": t = t[1][1]
        else: break
    return t


def nonneg(p, t):
    g = p.g
    if t[0] == "const": return isinstance(t[1], (int, float)) and t[1] >= 0
    if t[0] == "pcall" and callname(t) == "max": return any(x[0] == "const" and isinstance(x[1], (int, float)) and x[1] >= 0 for x in t[2])
    if t[0] == "pcall" and callname(t) in ("abs", "fabs"): return True
    s = g.render(t)
    return p.lits.get(f"({s} < 0)") is False or p.lits.get(f"({s} <= 0)") is False or p.lits.get(f"(0 < {s})") is True or p.lits.get(f"(0 <= {s})") is True


def function_model(ck, ci):
    m = ci.find_method("get_next_time"); g = ck.graph(m, selfcls=ci, stop=("get_next_time",)); name = ci.name
    ps = [p for p in paths(g, exc=True) if p.end is g.exit]
    ck.need(f"paths of {name}.get_next_time", len(ps))
    bufs = set(); fills = {}; bad = {}
    def fail(r, loc, msg): bad.setdefault(r, (loc, msg))
    for p in ps:
        t = ret(p); loc = p.nodes[-2].loc if len(p.nodes) > 1 else m.loc
        fill = {k: v for k, v in p.attrs.items() if k.startswith("self.")}
        for k, v in fill.items(): fills[g.render(v)] = (k, v, loc)
        vs = list(t[2]) if t[0] == "pcall" and callname(t) == "max" else [t]
        for v in vs:
            if v[0] == "const":
                if not nonneg(p, v): fail("never-negative", loc, f"{g.render(v)} is returned as a duration")
                continue
            v0 = v
            if callname(v) in ("abs", "fabs"): v0 = v[2][0]
            cn = callname(v0)
            if v0[0] == "pcall" and v0[1] == ("attr", ("param", "self"), "get_next_time"):
                if not fill: fail("refilled", loc, "the samples are not renewed when they are used up")
                continue
            if v0[0] == "pcall" and v0[1][0] == "attr" and v0[1][1][0] == "attr" and v0[1][1][1] == ("param", "self"):
                bufs.add("self." + v0[1][1][2])
                if cn not in ("pop", "popleft"): fail("sample-used-once", loc, f"a sample is taken with {cn}, which leaves it in place")
            elif v0[0] == "pcall" and callname(v0) in ("pop", "popleft"): pass         # popped from freshly drawn samples
            else: fail("from-samples", loc, f"{g.render(v)[:120]} is returned instead of a sample"); continue
            if not nonneg(p, t if t is not v else v): fail("never-negative", loc, "a sample may be returned although it is negative")
    for r in ("never-negative", "refilled", "sample-used-once", "from-samples"):
        loc, msg = bad.get(r, (m.loc, "")); ck.ob(r, f"{name}.get_next_time", r not in bad, msg, loc)
    ck.ob("from-samples", f"{name}/buffer", len(bufs) == 1, f"samples are kept in {sorted(bufs)}", m.loc)
    ck.ob("refilled", f"{name}/refill", bool(fills), "samples are never drawn", m.loc)
    mapping = None
    for s, (k, v, loc) in fills.items():
        ck.ob("refilled", f"{name}/{k}", k in bufs, f"new samples are put into {k}", loc)
        v = peel(v)
        okd = v[0] == "pcall" and v[1][0] == "item" and v[1][1][0] == "glob" and g.render(v[1][2]) == D + "distribution_function"
        if not okd and v[0] == "pcall" and callname(v) == "get": okd = False
        ck.ob("configured-distribution", name, okd, f"samples are drawn by {s[:160]} instead of by the configured distribution function", loc)
        if okd:
            ck.ob("configured-parameters", name, len(v[2]) == 1 and g.render(v[2][0]) == "self.time_model_data", f"samples are drawn with {[g.render(x) for x in v[2]]}", loc)
            mapping = v[1][1]
    if mapping is None: return
    md = ck.p.mod(mapping[1]); dv = md.consts.get(mapping[2])
    dv = getattr(dv, "value", dv)
    if not isinstance(dv, ast.Dict): raise AnchorError(f"{mapping[2]} is not a dictionary of distribution functions")
    en = ck.p.cls("prodsys.util.statistical_functions.FunctionTimeModelEnum"); mem = ck.p.enum_values(en)
    got = {}
    for k, v in zip(dv.keys, dv.values):
        kn = k.attr if isinstance(k, ast.Attribute) else next((m2 for m2, val in mem.items() if isinstance(k, ast.Constant) and val == k.value), None)
        got[kn] = v
    for mname in mem:
        ck.ob("distribution-implemented", mname, mname in got, "an accepted distribution function is not implemented", md.rel)
        if mname in got: distribution(ck, md, mname, got[mname])


def distribution(ck, md, kind, v):
    r = md.resolve_expr(v)
    if not r or r[0] != "func":
        ck.ob("distribution", kind, False, "the distribution function is not a plain function", md.rel); return
    fn = r[1]; g = ck.graph(fn); P = fn.params()[0]
    L, S, B = (Rat.atom(x) for x in "LSB")
    known = {f"{P}.location": L, f"{P}.scale": S, f"{P}.batch_size": B}
    A = Alg(g, known)
    ps = [p for p in paths(g) if p.end is g.exit]
    ck.need(f"paths of {fn.short}", len(ps))
    mu = log(mul(mul(L, L), sqrt(L.mul(L).add(S.mul(S))), -1))
    sg = sqrt(log(mul(L.mul(L).add(S.mul(S)), L.mul(L), -1)))
    want = {"Constant": None, "Exponential": ("exponential", [L]), "Normal": ("normal", [L, S]), "Lognormal": ("lognormal", [mu, sg])}
    names = {"exponential": ["scale", "size"], "normal": ["loc", "scale", "size"], "lognormal": ["mean", "sigma", "size"]}
    if kind not in want: return
    for p in ps:
        t = peel(ret(p)); w = want[kind]
        if w is None:
            x = A.ev(t); ok = False
            if isinstance(x, Rep): ok = len(x) == 1 and same(x[0], L)
            elif t[0] == "comp": ok = same(A.ev(g.resolve(g.nodes[g.comps[t[2]]["elt"]].value, g.nodes[g.comps[t[2]]["elt"]])), L)
            elif callname(t) in ("full", "repeat"): ok = any(same(A.ev(y), L) for y in t[2])
            ck.ob("distribution", f"{kind}/{fn.name}", ok, f"a constant duration is {g.render(t)[:100]} instead of the configured location", fn.loc)
            continue
        cn = callname(t)
        ck.ob("distribution", f"{kind}/{fn.name}", cn == w[0], f"{kind} durations are drawn from {cn or g.render(t)[:80]}", fn.loc)
        if cn != w[0]: continue
        a = {}
        for i, x in enumerate(t[2]): a[names[cn][i]] = x
        a.update(dict(t[3]))
        for i, e in enumerate(w[1]):
            q = names[cn][i]; x = A.ev(a[q]) if q in a else None
            ck.ob("distribution-parameters", f"{kind}/{q}", x is not None and same(x, e), f"{q} of the {kind} distribution is {g.render(a[q])[:140] if q in a else 'missing'}", fn.loc)
        ck.ob("distribution-size", kind, "size" in a, "only a single sample is drawn where a list is needed", fn.loc)


def sample_model(ck, ci, field):
    m = ci.find_method("get_next_time"); g = ck.graph(m, selfcls=ci)
    ps = [p for p in paths(g) if p.end is g.exit]; ck.need(f"paths of {ci.name}", len(ps))
    for p in ps:
        t = ret(p)
        while t[0] == "item" or callname(t) in ("item", "float"): t = t[1] if t[0] == "item" else (t[2][0] if t[2] else t[1][1])
        cn = callname(t)
        ok = t[0] == "pcall" and cn in ("choice", "choices") and bool(t[2]) and g.render(t[2][0]) == D + field
        if cn == "choice" and len(t[2]) > 2 and t[2][2] != ("const", True): ok = ok and len(t[2]) <= 3
        w = dict(t[3]).get("p") or dict(t[3]).get("weights") if t[0] == "pcall" else None
        ck.ob("configured-samples", ci.name, ok, f"a duration is {g.render(ret(p))[:120]} instead of one of the configured samples", m.loc)
        ck.ob("samples-equal", ci.name, w is None, "samples are weighted", m.loc)


def sched(n, absolute):
    s = [Rat.atom(f"s{i}") for i in range(n)]
    return [s[0]] + [y.add(x, -1) for x, y in zip(s, s[1:])] if absolute else s


def schedule_model(ck, ci):
    m = ci.find_method("get_next_time"); g = ck.graph(m, selfcls=ci); name = ci.name
    its = set(); n = 0
    for p in paths(g, exc=True):
        if p.end is not g.exit: continue
        t = ret(p); n += 1; loc = m.loc
        cn = callname(t)
        if cn == "next" or cn == "__next__":
            src = t[2][0] if t[2] else t[1][1]; its.add(g.render(src))
            if len(t[2]) > 1: ck.ob("end-signalled", name, t[2][1][0] == "const" and isinstance(t[2][1][1], (int, float)) and t[2][1][1] < 0, "the end of the schedule is not signalled by a negative value", loc)
        elif t[0] == "const":
            h = [x for x in p.nodes if x.kind == "handler" and "StopIteration" in (x.types or [])]
            ck.ob("end-signalled", name, isinstance(t[1], (int, float)) and t[1] < 0, f"the end of the schedule is signalled by {t[1]}", loc)
            ck.ob("end-only-when-exhausted", name, bool(h), "the schedule is reported as exhausted although it is not", loc)
        else: ck.ob("schedule-entries", name, False, f"{g.render(t)[:120]} is returned instead of the next schedule entry", loc)
    ck.need(f"paths of {name}.get_next_time", n)
    ck.ob("schedule-entries", f"{name}/iterator", len(its) == 1, f"entries are taken from {sorted(its)}", m.loc)
    if len(its) != 1: return
    attr = next(iter(its))
    init = next((ci.find_method(x) for x in ("__init__", "model_post_init", "__post_init__") if ci.find_method(x) is not None), None)
    ck.ob("iterator-created", name, init is not None, "the schedule's iterator is never created", ci.loc)
    if init is None: return
    gi = ck.graph(init, selfcls=ci); seen = set()
    for k in range(1, 6):
        rs = Interp(gi, {D + "schedule": [Rat.atom(f"s{i}") for i in range(k)]}).run()
        ck.ob("schedule-entries", f"{name}/{k} entries", bool(rs), "the durations of a schedule are not a list built from its entries", init.loc)
        for lits, _, attrs, _t in rs or []:
            v = attrs.get(attr)
            ab = lits.get(D + "absolute"); cy = lits.get(D + "cyclic"); seen.add((ab, cy))
            cyc = isinstance(v, Cycle)
            ck.ob("cyclic", f"{name}/{'cyclic' if cyc else 'once'}", cy is not None and cyc == cy, f"a schedule is {'repeated' if cyc else 'run once'} although it is {'not ' if cyc else ''}cyclic" if cy is not None else "a schedule is repeated or not regardless of the configuration", init.loc)
            ck.ob("schedule-entries", f"{name}/{'absolute' if ab else 'relative'}", ab is not None and isinstance(v, list) and same(list(v), sched(k, ab)), f"the durations of {'an absolute' if ab else 'a relative'} schedule are not {'its differences' if ab else 'its entries'}", init.loc)
    ck.ob("schedule-cases", name, {a for a, _ in seen} == {True, False}, "absolute and relative schedules are not distinguished", init.loc)


def expected_times(ck, ci, kind):
    m = ci.find_method("get_expected_time"); g = ck.graph(m, selfcls=ci, stop=("get_next_time",))
    for p in paths(g):
        if p.end is not g.exit: continue
        t = ret(p)
        if kind == "function": ok = g.render(t) == D + "location"
        elif kind == "distance":
            ok = t[0] == "pcall" and callname(t) == "get_next_time" and [g.render(x) for x in t[2]] + [f"{k}:{g.render(v)}" for k, v in t[3]] in ([ORIGIN, TARGET], ["origin:origin", "target:target"], ["origin", "target:target"])
        else: ok = None
        if ok is None: break
        ck.ob("expected-duration", ci.name, ok, f"the expected duration is {g.render(t)[:140]}", m.loc)
    else: return
    f = {"sample": "samples", "sequence": "sequence", "schedule": "schedule"}[kind]; ok = True
    for k in range(1, 5):
        rs = Interp(g, {D + f: [Rat.atom(f"s{i}") for i in range(k)]}).run()
        if not rs: ok = False; break
        for lits, v, _a, _t in rs:
            w = sched(k, bool(lits.get(D + "absolute"))) if kind == "schedule" else [Rat.atom(f"s{i}") for i in range(k)]
            if kind == "schedule" and D + "absolute" not in lits and k > 1: ok = False
            tot = Rat({})
            for x in w: tot = tot.add(x)
            ok &= isinstance(v, Rat) and same(v, tot.div(Rat.const(k)))
    ck.ob("expected-duration", ci.name, ok, f"the expected duration is not the mean of the configured {f}", m.loc)


def distance_model(ck, ci, metrics):
    m = ci.find_method("get_next_time"); g = ck.graph(m, selfcls=ci); name = ci.name
    o, t = [Rat.atom(x) for x in ("o0", "o1")], [Rat.atom(x) for x in ("t0", "t1")]
    known = {ORIGIN: o, TARGET: t, D + "speed": Rat.atom("v"), D + "reaction_time": Rat.atom("r")}
    d = [x.add(y, -1) for x, y in zip(o, t)]
    man = absv(d[0]).add(absv(d[1])); euc = sqrt(d[0].mul(d[0]).add(d[1].mul(d[1])))
    want = {"manhattan": man, "euclidean": euc}
    v, r = Rat.atom("v"), Rat.atom("r")
    done = set(); miss = set()
    def none(p, q):
        for s in (f"(None is {q})", f"({q} is None)"):
            if s in p.lits: return p.lits[s]
        if q in p.lits: return not p.lits[q]
        return None
    for p in paths(g):
        loc = m.loc
        if p.end is not g.exit:
            for n in p.nodes:
                if n.kind == "raise":
                    val = p.close(n.value)
                    cls = n.exc
                    good = val[0] in ("pcall", "class") and cls is not None and (cls in BUILTIN_EXC or exc_class(ck, ci, cls))
                    ck.ob("proper-error", f"{name}", good, f"{g.render(val)[:80]} is raised, which is not an exception", n.loc)
            if none(p, ORIGIN): miss.add(ORIGIN)
            elif none(p, TARGET): miss.add(TARGET)
            continue
        for q in (ORIGIN, TARGET):
            ck.ob("missing-location", f"{name}/{q}", none(p, q) is False, f"a duration is computed although {q} may be missing", loc)
        mets = [k for k in want if any(p.lits.get(f"({a} == {b})") is True for a, b in ((repr(k), D + "metric"), (D + "metric", repr(k))))]
        excl = [k for k in want if any(p.lits.get(f"({a} == {b})") is False for a, b in ((repr(k), D + "metric"), (D + "metric", repr(k))))]
        if "metric" in metrics:
            left = mets or [k for k in metrics["metric"] if k not in excl]
            ok = len(left) == 1
            ck.ob("metric-distinguished", name, ok, f"the same distance is used for {left}", loc)
            if not ok: continue
            k = left[0]
        else: k = "manhattan"
        done.add(k)
        tm = ret(p); x = Alg(g, known).ev(tm)
        # distance / speed + reaction time; roots are not polynomial, so the distance is looked for as a quotient plus the reaction time
        A = Alg(g, known)
        good = False
        if k == "manhattan": good = isinstance(x, Rat) and same(x, man.div(v).add(r))
        else:
            s = tm
            if s[0] == "bin" and s[1] == "+":
                for a, b in ((s[2], s[3]), (s[3], s[2])):
                    if same(A.ev(b), r) and same(A.ev(a), mul(euc, v, -1)): good = True
        ck.ob("configured-duration", f"{name}/{k}", good, f"the duration for the {k} distance is {g.render(tm)[:200]} instead of distance / speed + reaction time", loc)
    for k in (metrics.get("metric") or ["manhattan"]): ck.ob("metric-implemented", f"{name}/{k}", k in done, "an accepted distance metric is not implemented", ci.loc)
    ck.ob("missing-location", name, miss == {ORIGIN, TARGET}, f"a missing {sorted({ORIGIN, TARGET} - miss)} is not reported", m.loc)


import builtins
BUILTIN_EXC = {k for k, v in vars(builtins).items() if isinstance(v, type) and issubclass(v, BaseException)}


def exc_class(ck, ci, nm):
    r = ci.mod.lookup(nm)
    return bool(r and r[0] == "class" and any(b in BUILTIN_EXC for c in r[1].mro() for b in c.base_names()))


def raises_exceptions(ck):
    """no string or other value is raised anywhere in the time models and their distribution functions"""
    for md in ("prodsys.simulation.time_model", "prodsys.util.statistical_functions"):
        mod = ck.p.mod(md)
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.Raise) and n.exc is not None:
                ck.ob("proper-error", f"{md.split('.')[-1]}:raise", not isinstance(n.exc, (ast.Constant, ast.JoinedStr, ast.Tuple)), "a string is raised, which is not an exception", f"{mod.rel}:{n.lineno}")


def literal_values(ann):
    if isinstance(ann, ast.Subscript) and (getattr(ann.value, "id", None) or getattr(ann.value, "attr", None)) == "Literal":
        s = ann.slice
        return [e.value for e in (s.elts if isinstance(s, ast.Tuple) else [s]) if isinstance(e, ast.Constant)]
    return None


def source(ck):
    S = ck.p.cls("prodsys.simulation.source.Source")
    m = S.find_method("create_product_loop")
    g = ck.graph(m, selfcls=S, stop=("create_product", "put", "reserve", "process_product", "get_next_time"))
    smp = [n for n in g.calls("get_next_time") if n.id in g.live()]
    cr = [n for n in g.calls("create_product") if n.id in g.live()]
    ck.need("samples of the source", len(smp)); ck.need("creations of the source", len(cr))
    for n in cr:
        ck.ob("one-sample-per-product", "Source", any(g.dominates(s, n) for s in smp) and all(g.path_avoiding(n, n2, smp) is None for n2 in cr), "products are created without a new arrival time being drawn", n.loc)
    for y in g.nodes:
        if y.kind != "yield" or y.id not in g.live(): continue
        t = g.resolve(y.value, y)
        if t[0] == "call" and g.nodes[t[1]].name == "timeout":
            c = g.nodes[t[1]]; a = c.args[0]
            r = g.resolve(a, c)
            ck.ob("waits-the-sample", "Source", r[0] == "call" and g.nodes[r[1]].name == "get_next_time" and g.render(g.resolve(g.nodes[r[1]].recv, g.nodes[r[1]])) == "self.time_model", f"a source waits {g.render(r)}", c.loc)
            ok = False
            for b, s, pol in g.guard_atoms(c):
                l = edge_ineq(g, b, pol)
                tt = g.resolve(b.term, b)
                while tt[0] == "not": tt = tt[1]
                if tt[0] == "cmp" and r in tt[2:4] and ("const", 0) in tt[2:4]:
                    # excludes negative values
                    x, y0 = tt[2], tt[3]; op = tt[1]
                    if x == ("const", 0): op = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op)
                    p2 = pol
                    t2 = g.resolve(b.term, b)
                    while t2[0] == "not": t2 = t2[1]; p2 = not p2
                    ok |= (op in ("<", "<=") and not p2) or (op in (">", ">=") and p2)
                    for e in g.nodes:
                        if e.kind == "edge" and e.of == b.id and bool(e.label) != pol:
                            ck.ob("source-stops", "Source", not any(g.reaches(e, n) for n in cr), "a source goes on producing after its schedule is exhausted", e.loc)
            ck.ob("end-noticed", "Source", ok, "a source waits for a negative time when its schedule is exhausted", c.loc)
    for n in cr:
        ck.ob("waits-before-creating", "Source", any(y.kind == "yield" and g.dominates(y, n) for y in g.nodes) , "a product is created without waiting for its arrival", n.loc)


def kinds(ck):
    md = ck.p.mod("prodsys.simulation.time_model"); base = ck.p.cls(T + "TimeModel")
    dm = ck.p.mod("prodsys.models.time_model_data")
    def union(mod, nm):
        v = mod.consts.get(nm)
        return [x.id for x in ast.walk(v) if isinstance(x, ast.Name) and x.id != "Union"] if v is not None else []
    sims, datas = union(md, "TIME_MODEL"), union(dm, "TIME_MODEL_DATA")
    ck.need("kinds of time models", len(datas), 3)
    by = {}
    for s in sims:
        r = md.lookup(s)
        if r and r[0] == "class":
            f = r[1].find_field("time_model_data")
            if f and isinstance(f[1][0], ast.Name): by.setdefault(f[1][0].id, []).append(s)
    for d in datas: ck.ob("kind-implemented", d, len(by.get(d, [])) == 1, f"time model data of this kind are simulated by {by.get(d, [])}", dm.rel)
    F_ = ck.p.cls("prodsys.factories.time_model_factory.TimeModelFactory"); m = F_.find_method("create_time_models"); g = ck.graph(m, selfcls=F_)
    A = m.params()[1]; data = [Rat.atom(f"d{i}") for i in range(3)]
    rs = Interp(g, {f"{A}.time_model_data": data}, attrs={"self.time_models": []}).run()
    ck.ob("all-created", "TimeModelFactory", bool(rs), "the created time models are not built one per configured time model", m.loc)
    for lits, _, attrs, _t in rs or []:
        got = attrs.get("self.time_models")
        own = [[v for v in x.values() if isinstance(v, Rat)] if isinstance(x, Made) else [] for x in got] if isinstance(got, list) else []
        ok = len(own) == 3 and all(any(same(v, d) for v in vs) for vs, d in zip(own, data))
        ck.ob("all-created", f"TimeModelFactory/{sorted(lits.items())}" if lits else "TimeModelFactory", ok, "not every configured time model is created", m.loc)
        ck.ob("created-with-own-data", "TimeModelFactory", all(len(vs) == 1 for vs in own), "a time model is created from other data than its own", m.loc)


def check(ck):
    base = ck.p.cls(T + "TimeModel")
    dm = ck.p.mod("prodsys.models.time_model_data")
    n = 0
    for ci in ck.p.subclasses(base):
        if ci is base or ci.mod.name != "prodsys.simulation.time_model": continue
        f = ci.find_field("time_model_data")
        if not f: continue
        dn = f[1][0].id if isinstance(f[1][0], ast.Name) else ""
        r = dm.lookup(dn)
        if not r: raise AnchorError(f"data of {ci.name}")
        fields = r[1].all_fields(); n += 1
        if "distribution_function" in fields: function_model(ck, ci); expected_times(ck, ci, "function")
        elif "samples" in fields: sample_model(ck, ci, "samples"); expected_times(ck, ci, "sample")
        elif "sequence" in fields: sample_model(ck, ci, "sequence"); expected_times(ck, ci, "sequence")
        elif "schedule" in fields: schedule_model(ck, ci); expected_times(ck, ci, "schedule")
        elif "speed" in fields:
            lv = literal_values(fields["metric"][1][0]) if "metric" in fields else None
            distance_model(ck, ci, {"metric": lv} if lv else {}); expected_times(ck, ci, "distance")
    ck.need("time models", n, 5)
    raises_exceptions(ck); source(ck); kinds(ck)
