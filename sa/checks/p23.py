"""P23 Recorded fitness belongs to the candidate it is recorded for."""
TECHNIQUE = "def-use and dominance analysis of evaluation, records and drivers: every recorded value, key, file name and log entry is traced back to the candidate, simulation run, objective and weight it comes from"
NOTE = "Library behaviour (deap map/varAnd, simanneal minimising energy, numpy argmax) is taken as documented. Whether two candidates with the same fingerprint are equal is P11; whether a simulation of the same configuration and seed gives the same result is P16/P13."
import ast
from ..lib import *
from ..index import FuncInfo, ClassInfo
from .. import peval
from .steps import elements

OPT = "prodsys.optimization"
EV = OPT + ".optimization.evaluate"
DOC = OPT + ".util.document_individual"
KEEP = {"evaluate", "document_individual", "check_valid_configuration", "get_weights", "get_reconfiguration_cost", "get_throughput_time", "get_wip", "get_throughput", "mutation", "crossover", "random_configuration",
        "random_configuration_with_initial_solution", "prepare_save_folder", "set_seed", "hash"}
FIELDS = {"agg_fitness", "fitness", "time_stamp", "hash"}
TARGETS = {"Output": "max", "Throughput": "max", "ProductiveTime": "max"}
READS = {"THROUGHPUT": "get_aggregated_throughput_data", "WIP": "get_aggregated_wip_data", "TRHOUGHPUT_TIME": "get_aggregated_throughput_time_data"}


def graph(ck, f, cls=None):
    return ck.graph(f, inline=lambda x: x.mod.name == f.mod.name and x.name not in KEEP and not x.name.startswith(("run_", "optimize_")) and not x.name.endswith("_optimization") and (x.cls is None or x.cls is cls), **({"selfcls": cls} if cls else {}))


def calls_to(g, *quals):
    return [n for n in g.nodes if n.kind == "call" and n.id in g.live() and any(isinstance(c, FuncInfo) and c.qual in quals for c in n.get("cands") or ())]


def first(g, t, n):
    """Texts of the only/first elements of a list the term denotes."""
    out = set()
    for d, v in leaves(g, t, n):
        if v[0] in ("list", "tuple") and v[1]: out.add(g.r(v[1][0], d))
        else: out.add(g.r(("item", v, ("const", 0)), d))
    return out


def per_pass(g, h, ids, cap=3):
    """possible numbers of the given nodes on one pass through the body of a loop"""
    e = iter_edge(g, h); state = {e.id: frozenset([0])}; work = [e.id]; out = set()
    while work:
        i = work.pop(); cur = state[i]
        if i in ids: cur = frozenset(min(cap, x + 1) for x in cur)
        for s, l in g.nodes[i].succ:
            if l == "exc": continue
            if s == h.id: out |= cur; continue
            old = state.get(s, frozenset())
            if s not in state or not cur <= old: state[s] = old | cur; work.append(s)
    return out


def complete(g, h):
    """the loop is left early only by an error"""
    e = iter_edge(g, h)
    body = {n.id for n in g.nodes if n.id != h.id and g.dominates(e, n) and g.reaches(n, h)} | {e.id}
    return not any(l != "exc" and s not in body and s != h.id and (s == g.exit.id or g.reaches(g.nodes[s], g.exit, exc=False)) for i in body for s, l in g.nodes[i].succ)


def amap(n, fn): return argmap(n, fn, bound=fn.cls is not None)


def only(g, t, n):
    l = leaves(g, t, n)
    return l[0] if len(l) == 1 else (n, t)


def strip(g, t, n):
    """Through float/list/tuple/iter conversions and element-wise copies: (node, term) of the sequence the values come from."""
    for _ in range(12):
        d, v = only(g, t, n)
        if v[0] == "call" and g.nodes[v[1]].name in ("list", "tuple") and len(g.nodes[v[1]].args) == 1: c = g.nodes[v[1]]; t, n = c.args[0], c; continue
        if v[0] == "call" and g.nodes[v[1]].name == "map" and len(g.nodes[v[1]].args) == 2 and g.nodes[v[1]].args[0] == ("glob", "builtins", "float"): c = g.nodes[v[1]]; t, n = c.args[1], c; continue
        if v[0] == "comp":
            c = g.comps[v[2]]; e = g.nodes[c["elt"]]
            de, x = only(g, e.value, e)
            if x[0] == "call" and g.nodes[x[1]].name == "float" and g.nodes[x[1]].args: q = g.nodes[x[1]]; de, x = only(g, q.args[0], q)
            if x[0] == "elem" and len(c["heads"]) == 1: h = g.nodes[c["heads"][0]]; t, n = x[1], h; continue
        if v[0] == "list" and not v[1]:
            xs = elements(g, t, n)
            if len(xs) == 1:
                de, x = only(g, xs[0][1], xs[0][0])
                if x[0] == "call" and g.nodes[x[1]].name == "float" and g.nodes[x[1]].args: q = g.nodes[x[1]]; de, x = only(g, q.args[0], q)
                if x[0] == "elem" and x[2] in [h.id for h in g.loops_of(de)]: t, n = x[1], g.nodes[x[2]]; continue
        return d, v
    return n, t


# ------------------------------------------------------------------ identity of values across driver, closure and annealer object
class World:
    def __init__(w, ck):
        w.ck, w.p = ck, ck.p; w.gs = {}

    def g(w, f, cls=None):
        k = (f.qual, cls.qual if cls else None)
        if k not in w.gs: w.gs[k] = graph(w.ck, f, cls)
        return w.gs[k]

    def driver(w, cls):
        """(function, its ctor calls) that builds objects of an optimiser class"""
        if cls.outer is not None: fs = [cls.outer]
        else: fs = [f for f in w.p.all_funcs(OPT) if f.cls is None]
        for f in fs:
            g = w.g(f)
            cs = [n for n in g.nodes if n.kind == "call" and n.id in g.live() and (any(isinstance(c, ClassInfo) and c is cls or isinstance(c, FuncInfo) and c.name == "__init__" and cls.find_method("__init__") is c for c in n.get("cands") or ()) or n.func == ("class", cls.qual))]
            if not cs and cls.outer is f: cs = [n for n in g.nodes if n.kind == "call" and n.id in g.live() and n.name == cls.name]
            if cs: return f, g, cs
        return None

    def ident(w, g, t, n, cls=None, depth=0):
        """What a value is, in terms of the driver: set of (function, node id) of created tables, or texts."""
        out = set()
        for d, v in leaves(g, t, n):
            if depth < 5 and cls is not None:
                if v[0] == "glob" and v[1] == "builtins" and cls.outer is not None:
                    h = w.g(cls.outer)
                    ds = [x for x in h.nodes if x.kind == "assign" and x.id in h.live() and x.key == (h.root.id, v[2])]
                    if ds or v[2] in cls.outer.all_params():
                        got = set()
                        last = [x for x in ds if not any(y is not x and h.path_avoiding(x, y, ()) for y in ds)] if len(ds) > 1 else ds
                        for x in last or ds: got |= w.ident(h, x.value, x, None, depth + 1) if x.value is not None else {h.fn.qual + ":" + v[2]}
                        out |= got; continue
                if v[0] == "attr" and g.r(v[1], d) == "self":
                    got = set(); dr = w.driver(cls)
                    for k in cls.mro():
                        m = k.methods.get("__init__")
                        if m is None or dr is None: continue
                        gi = w.ck.graph(m, inline=lambda x: False, selfcls=cls)
                        for s in gi.stores(v[2]):
                            if gi.r(s.base, s) != "self": continue
                            for dd, vv in leaves(gi, s.value, s):
                                pn = vv[1] if vv[0] == "param" else vv[2] if vv[0] == "var" and vv[2] in m.all_params() else None
                                if pn is None: got.add(gi.r(vv, dd)); continue
                                for c in dr[2]:
                                    a = amap(c, m).get(pn)
                                    if a is not None: got |= w.ident(dr[1], a, c, None, depth + 1)
                        break
                    if got: out |= got; continue
            if v[0] in ("dict", "list", "call", "comp") and not (v[0] == "call" and g.nodes[v[1]].name in ("get_weights",)): out.add((g.fn.qual, d.id))
            else: out.add(g.r(v, d))
        return out


# ------------------------------------------------------------------ evaluation
def evaluation(ck, w):
    p = ck.p; f = p.func(EV); g = w.g(f)
    P = f.all_params()
    if len(P) < 6: ck.ob("evaluation", "evaluate", False, "the evaluation no longer gets the base configuration, caches, number of runs, folder and candidate", f.loc); return
    base, sol, perf, seeds, folder, ind = P[:6]
    C = f"{ind}[0]"; H = f"{C}.hash()"
    rets = returns(g); kinds = set()
    valid = calls_to(g, OPT + ".optimization.check_valid_configuration")
    runs = [n for n in g.nodes if n.kind == "call" and n.id in g.live() and n.name == "run" and has_type(g, n, "Runner")]
    inits = [n for n in g.nodes if n.kind == "call" and n.id in g.live() and n.name == "initialize_simulation" and has_type(g, n, "Runner")]
    for n in rets:
        for d, v in leaves(g, n.value, n):
            at = d if not any(d.id == x.id for x in rets) else n
            lits = set(g.guard_set(n)) | set(g.guard_set(d))
            if v[0] in ("item", "attr") or v[0] == "call" and g.nodes[v[1]].name in ("get", "copy"):
                e = f"{sol}['hashes'][{H}]"
                want = f"{perf}[{e}['generation']][{e}['ID']]['fitness']"
                txt = g.r(v, d); kinds.add("cached")
                ck.ob("cached-fitness", "evaluate/cached", txt == want, f"the cached result is {txt[:200]}", n.loc)
                ok = any(x == f"({H} in {sol}['hashes'])" for x in lits)
                ck.ob("cached-fitness", "evaluate/known", ok, "a cached result is used without the candidate's fingerprint being known", n.loc)
                continue
            if v[0] in ("comp", "list", "bin", "tuple"):
                xs = elements(g, v, d) if v[0] != "bin" else []
                pen = [(dd, x) for dd, x in xs if weights_in(g, x, dd)] or (weights_in(g, v, d) and [(d, v)])
                if pen:
                    kinds.add("penalty"); penalty(ck, w, g, n, d, v, base, C); continue
                kinds.add("simulated"); simulated(ck, w, g, f, n, d, v, runs, inits); continue
            ck.ob("evaluation", "evaluate/result", False, f"the result is {g.r(v, d)[:150]}", n.loc)
    for k in ("penalty", "simulated"): ck.ob("evaluation", f"evaluate/{k}", k in kinds, f"no {k} result is returned", f.loc)
    # a simulated result only for valid candidates, judged with the base configuration
    for c in valid:
        m = amap(c, p.func(OPT + ".optimization.check_valid_configuration"))
        ck.ob("penalty", "evaluate/judged", g.r(m.get("configuration"), c) == C and g.r(m.get("base_configuration"), c) == base, "another configuration than the candidate is judged, or against another one than the base configuration", c.loc)
    for r in runs + inits:
        ok = any(l == f"check_valid_configuration({C}, {base})" or l.startswith("check_valid_configuration(") and C in l for l in g.guard_set(r))
        ck.ob("penalty", f"evaluate/{r.name}", ok, "a candidate is simulated without having been judged valid", r.loc)
    # runs
    ck.ob("own-simulation", "evaluate/runs", bool(runs and inits), "the candidate is not simulated", f.loc)
    for r in runs:
        rec = [x for dd, x in leaves(g, r.recv, r)]
        made = [g.nodes[x[1]] for x in rec if x[0] == "call" and g.nodes[x[1]].name == "Runner"]
        ok = len(made) == len(rec) and made and all(set(g.r(a, c) for a in list(c.args[:1]) + [c.kw["adapter"]] * ("adapter" in c.kw)) == {C} for c in made)
        ck.ob("own-simulation", "evaluate/runner", bool(ok), "the simulation that is run is not one of the candidate", r.loc)
        mine = [i for i in inits if g.r(i.recv, i) == g.r(r.recv, r)]
        ck.ob("own-simulation", "evaluate/initialized", any(g.dominates(i, r) for i in mine), "the simulation is run without having been built", r.loc)
        a = r.args[0] if r.args else r.kw.get("time_range")
        ck.ob("own-simulation", "evaluate/time", a is not None and g.r(a, r).endswith(".scenario_data.info.time_range"), "the simulation is not run for the time range of the scenario", r.loc)
        for i in mine:
            st = [s for s in g.stores("seed") if g.r(s.base, s) == C and g.dominates(s, i)]
            val = [x for s in st for dd, x in leaves(g, s.value, s)]
            hs = {h.id for h in g.loops_of(i)}
            ok = bool(st) and all(x[0] in ("elem", "index") and x[2] in hs and g.r(g.nodes[x[2]].iter, g.nodes[x[2]]) in (f"range({seeds})", f"range(0, {seeds})") for x in val)
            ck.ob("seeds", "evaluate/seed", ok, "the runs of a candidate do not each use their own number as seed, set before the simulation is built", i.loc)
        hs = [h for h in g.loops_of(r) if seeds in g.r(h.iter, h)] if g.loops_of(r) else []
        ck.ob("seeds", "evaluate/number", len(hs) == 1 and complete(g, hs[0]), "the candidate is not simulated once per seed", r.loc)


def weights_in(g, t, n, depth=0):
    """get_weights calls a value is computed from"""
    out = []
    for d, v in leaves(g, t, n):
        if v[0] == "call":
            c = g.nodes[v[1]]
            if any(isinstance(x, FuncInfo) and x.name == "get_weights" for x in c.get("cands") or ()): out.append(c)
            elif depth < 6:
                for a in list(c.args) + list(c.kw.values()): out += weights_in(g, a, c, depth + 1)
        elif v[0] in ("bin",):
            for a in v[2:4]: out += weights_in(g, a, d, depth + 1)
        elif v[0] in ("neg", "star"): out += weights_in(g, v[1], d, depth + 1)
        elif v[0] in ("elem",): out += weights_in(g, v[1], g.nodes[v[2]] if isinstance(v[2], int) else d, depth + 1)
        elif v[0] == "comp" and depth < 6:
            e = g.nodes[g.comps[v[2]]["elt"]]; out += weights_in(g, e.value, e, depth + 1)
    return out


def sign(g, t, n, depth=0):
    """(sign of the constant factor, weight position) of a penalty term: -1 and 'below' for -c/weight"""
    d, v = only(g, t, n)
    if v[0] == "const" and isinstance(v[1], (int, float)): return (1 if v[1] > 0 else -1, None)
    if v[0] == "neg": s = sign(g, v[1], d, depth + 1); return (-s[0], s[1]) if s else None
    if v[0] == "un" and v[1] == "-": s = sign(g, v[2], d, depth + 1); return (-s[0], s[1]) if s else None
    if v[0] == "elem": return (1, "above")
    if v[0] == "bin" and v[1] in ("*", "/"):
        a, b = sign(g, v[2], d, depth + 1), sign(g, v[3], d, depth + 1)
        if a is None or b is None: return None
        wpos = a[1] or ({"above": "below", "below": "above"}.get(b[1], b[1]) if v[1] == "/" else b[1])
        return (a[0] * b[0], wpos)
    return None


def penalty(ck, w, g, n, d, v, base, C):
    lits = set(g.guard_set(n)) | set(g.guard_set(d))
    ok = any(l.startswith("!check_valid_configuration(") for l in lits)
    ck.ob("penalty", "evaluate/when", ok, "the penalty is given to candidates that are not invalid", n.loc)
    ws = weights_in(g, v, d) or ([c for dd, x in elements(g, v, d) for c in weights_in(g, x, dd)] if v[0] == "list" else [])
    ok = bool(ws) and all(argm(c, "adapter", 0) is not None and g.r(argm(c, "adapter", 0), c) in (base, C) and g.r(argm(c, "direction", 1), c) == "'max'" for c in ws)
    ck.ob("penalty", "evaluate/weights", ok, "the penalty is not computed from the weights of a maximisation", n.loc)
    per = [(dl, x) for dd, x0 in elements(g, v, d) for dl, x in leaves(g, x0, dd)]
    s = [(sign(g, x, dl), dl, x) for dl, x in per]
    weighted = [y for y in s if y[0] is None or y[0][1] is not None]
    ck.ob("penalty", "evaluate/sign", bool(weighted) and all(y[0] == (-1, "below") for y in weighted), "the penalty does not make the candidate worse for every objective", n.loc)
    # a division by a weight happens only where the weight is known not to be zero
    for sg, dl, x in weighted:
        if sg is None or sg[1] != "below": continue
        w = weight_elems(g, x, dl)
        at = set(g.guard_set(dl))
        ck.ob("penalty", "evaluate/zero", bool(w) and all(any(l in (t, f"({t} != 0)", f"(0 != {t})", f"!({t} == 0)", f"!(0 == {t})", f"!({t} == 0.0)", f"({t} != 0.0)") for l in at) for t in w), "an objective without weight makes the evaluation of an inadmissible candidate fail", n.loc)
    for sg, dl, x in s:
        if sg is not None and sg[1] is None:
            ck.ob("penalty", "evaluate/constant", any("get_weights(" in l for l in g.guard_set(dl)), "the penalty does not depend on the weight of the objective", n.loc)


def weight_elems(g, t, n):
    """texts of the loop elements a term is computed from"""
    out = set()
    for d, v in leaves(g, t, n):
        if v[0] == "elem": out.add(g.r(v, d))
        elif v[0] == "bin": out |= weight_elems(g, v[2], d) | weight_elems(g, v[3], d)
        elif v[0] == "neg": out |= weight_elems(g, v[1], d)
        elif v[0] == "un": out |= weight_elems(g, v[2], d)
    return out


def argm(c, name, i):
    return c.kw.get(name) if name in c.kw else c.args[i] if len(c.args) > i else None


def simulated(ck, w, g, f, n, d, v, runs, inits):
    p = ck.p
    P = f.all_params(); base, C = P[0], f"{P[5]}[0]"
    xs = elements(g, v, d)
    per_seed = None
    for dd, x in xs:
        dx, q = only(g, x, dd)
        ok = False
        if q[0] == "bin" and q[1] == "/":
            a = only(g, q[2], dx); b = only(g, q[3], dx)
            if a[1][0] == "call" and g.nodes[a[1][1]].name in ("sum", "fsum"):
                ca = g.nodes[a[1][1]]; src = g.r(ca.args[0], ca)
                same = b[1][0] == "call" and g.nodes[b[1][1]].name == "len" and (g.r(g.nodes[b[1][1]].args[0], g.nodes[b[1][1]]) == src or seq_id(g, g.nodes[b[1][1]].args[0], g.nodes[b[1][1]]) == per_seed_of(g, ca.args[0], ca)) or b[1][0] in ("param", "var") and g.r(b[1], b[0]) == P[3] or g.r(b[1], b[0]) == P[3]
                ok = same; per_seed = per_seed_of(g, ca.args[0], ca)
        elif q[0] == "call" and g.nodes[q[1]].name in ("mean", "fmean") and len(g.nodes[q[1]].args) == 1:
            ca = g.nodes[q[1]]; ok = True; per_seed = per_seed_of(g, ca.args[0], ca)
        ck.ob("mean", "evaluate/mean", ok and per_seed is not None, f"an objective's value is not the mean over the runs: {g.r(x, dd)[:120]}", dd.loc)
    if not xs or per_seed is None:
        if not xs: ck.ob("mean", "evaluate/mean", False, "the result is not a list of means over the runs", n.loc)
        return
    # the lists per run
    rows = []
    for a, val, tgt in additions(g):
        if tgt is not None and any((x.id in per_seed) for x, _ in leaves(g, tgt, a)): rows.append((a, val))
    ck.ob("mean", "evaluate/rows", bool(rows), "no run contributes its values", f.loc)
    for a, val in rows:
        ck.ob("own-simulation", "evaluate/row", any(g.dominates(r, a) and set(h.id for h in g.loops_of(a)) == set(h.id for h in g.loops_of(r)) for r in runs), "values are added that do not come from the run of the same seed", a.loc)
        kpis = elements(g, val, a)
        ck.ob("objectives", "evaluate/values", bool(kpis), "a run contributes no values", a.loc)
        for dd, x in leaves(g, val, a):
            if x[0] == "list": ck.ob("mean", "evaluate/own-row", {h.id for h in g.loops_of(dd)} == {h.id for h in g.loops_of(a)}, "the runs share one list of values", dd.loc)
        heads = set()
        for dd, x in kpis:
            lp = [h for h in g.loops_of(dd) if h.id not in {q.id for q in g.loops_of(a)}] or ([h for h in (g.nodes[i] for i in comp_heads(g, dd))])
            oh = [h for h in lp if g.r(h.iter, h) in (f"{C}.scenario_data.objectives", f"{base}.scenario_data.objectives")]
            ck.ob("objectives", "evaluate/order", len(lp) == 1 and len(oh) == 1, "the values are not computed one by one for the objectives of the scenario in their order", dd.loc)
            for h in oh: heads.add(h.id)
            for h in oh: objective(ck, w, g, f, dd, x, h, base, C, runs)
            ck.ob("objectives", "evaluate/position", not (dd.kind == "call" and dd.name in ("insert", "appendleft")), "a value is not put at the place of its objective", dd.loc)
        for hid in heads:
            h = g.nodes[hid]
            if h.d.get("lkind") == "comp" or any(hid in c["heads"] for c in g.comps.values()):
                ck.ob("objectives", "evaluate/each", not [b for b in g.nodes if b.kind == "branch" and any(q.id == hid for q in g.loops_of(b)) and filters(g, b, hid)], "objectives are left out", h.loc); continue
            adds = {dd.id for dd, _ in kpis}
            cnt = per_pass(g, h, adds)
            ck.ob("objectives", "evaluate/each", cnt == {1} and complete(g, h), f"an objective does not contribute exactly one value ({sorted(cnt) if cnt else cnt})", h.loc)


def filters(g, b, hid):
    return any(g.nodes[s].kind == "edge" and any(getattr(t, "id", t) == hid for t, _ in norm_succ(g, g.nodes[s])) for s, _ in norm_succ(g, b))


def norm_succ(g, n):
    return [((s[0], s[1]) if isinstance(s, tuple) else (s, None)) for s in n.succ]


def comp_heads(g, n):
    return [h for c in g.comps.values() if c["elt"] == n.id for h in c["heads"]]


def seq_id(g, t, n):
    return {d.id for d, v in leaves(g, t, n)}


def per_seed_of(g, t, n):
    """definition ids of the list of lists whose columns a value runs over: elem(zip(*L)), or [row[i] for row in L]"""
    d, v = only(g, t, n)
    if v[0] == "elem":
        h = g.nodes[v[2]] if isinstance(v[2], int) else d
        for dd, it in leaves(g, v[1], h):
            if it[0] == "call" and g.nodes[it[1]].name == "zip":
                c = g.nodes[it[1]]
                if len(c.args) == 1 and c.args[0][0] == "star": return seq_id(g, c.args[0][1], c)
            if it[0] == "tuple" and len(it[1]) == 1 and it[1][0][0] == "star": return seq_id(g, it[1][0][1], h)
    if v[0] == "comp":
        e = g.nodes[g.comps[v[2]]["elt"]]; hs = [g.nodes[x] for x in g.comps[v[2]]["heads"]]
        de, x = only(g, e.value, e)
        if x[0] == "item" and len(hs) == 1:
            db, b = only(g, x[1], de)
            if b[0] == "elem" and b[2] == hs[0].id: return seq_id(g, hs[0].iter, hs[0])
        if x[0] == "elem" and len(hs) == 1 and x[2] == hs[0].id: return per_seed_of(g, hs[0].iter, hs[0])
    if v[0] == "call" and g.nodes[v[1]].name in ("list", "tuple"): c = g.nodes[v[1]]; return per_seed_of(g, c.args[0], c)
    return None


def kpi_table(ck):
    """[(KPI member, function name, node)] of the table of objective functions"""
    m = ck.p.mod(OPT + ".optimization"); out = {}
    for name, node in m.consts.items():
        if isinstance(node, ast.Dict) and node.keys and all(isinstance(k, ast.Attribute) for k in node.keys):
            out[name] = [(k.attr, v.id if isinstance(v, ast.Name) else None, v) for k, v in zip(node.keys, node.values)]
    return out


def objective(ck, w, g, f, d, x, head, base, C, runs):
    """The value that an objective of the loop contributes."""
    obj = "elem(" + g.r(head.iter, head) + ")"
    for dd, v in leaves(g, x, d):
        if v[0] != "call": ck.ob("objectives", "evaluate/value", False, f"an objective's value is {g.r(v, dd)[:120]}", dd.loc); continue
        c = g.nodes[v[1]]; names = {q.name for q in c.get("cands") or () if isinstance(q, FuncInfo)}
        atoms = set(g.guard_set(c)) | set(g.guard_set(d))
        def about(member): return any(a in (f"(KPIEnum.{member} == {obj}.name)", f"({obj}.name == KPIEnum.{member})") for a in atoms)
        if "get_reconfiguration_cost" in names:
            a = amap(c, [q for q in c.cands if isinstance(q, FuncInfo)][0])
            ck.ob("objectives", "evaluate/cost", g.r(a.get("adapter_object"), c) == C and a.get("baseline") is not None and g.r(a["baseline"], c) == base, "the cost is not the one of changing the base configuration into the candidate", c.loc)
            ck.ob("objectives", "evaluate/cost-when", about("COST"), "the cost is recorded for another objective", c.loc)
            continue
        ok = False
        if c.func[0] == "item" and g.r(c.func[2], c) == obj + ".name" or names:
            ok = True
            if names:
                for nm in names:
                    mem = [m for m, q in READS.items() if q in reads_of(ck, OPT + ".optimization." + nm)]
                    ok = ok and len(mem) == 1 and about(mem[0])
            elif not (c.func[1][0] == "glob" and c.func[1][2] in kpi_table(ck)): ok = False
        ck.ob("objectives", "evaluate/kpi", ok, f"the value {g.r(v, dd)[:100]} is not the performance indicator the objective names", c.loc)
        a = c.args[0] if c.args else next(iter(c.kw.values()), None)
        ok = a is not None
        if ok:
            for da, va in leaves(g, a, c):
                if va[0] != "call" or g.nodes[va[1]].name not in ("PostProcessor", "get_post_processor"): ok = False; continue
                pc = g.nodes[va[1]]
                src = pc.kw.get("df_raw", pc.args[0] if pc.args else None) if pc.name == "PostProcessor" else pc.recv
                if src is None: ok = False; continue
                txt = g.r(src, pc)
                got = [q for dd2, q in leaves(g, src, pc)] if pc.name == "PostProcessor" else []
                at = [g.nodes[q[1]] for q in got if q[0] == "call"] or [pc]
                ok = ok and any(txt.startswith(g.r(r.recv, r)) and all(g.dominates(r, y) for y in at) and {h.id for h in g.loops_of(pc)} == {h.id for h in g.loops_of(r)} for r in runs)
        ck.ob("own-simulation", "evaluate/results", ok, "the value is not computed from the results of this run of the candidate", c.loc)


def reads_of(ck, qual):
    f = ck.p.func(qual); return {n.attr for n in ast.walk(f.node) if isinstance(n, ast.Attribute)}


def kpi_functions(ck):
    p = ck.p; m = p.mod(OPT + ".optimization"); k = 0
    for name, rows in kpi_table(ck).items():
        for mem, fn, node in rows:
            k += 1
            if mem == "COST": ck.ob("objectives", f"table/{mem}", fn == "get_reconfiguration_cost", "the objective cost has another function", f"{m.rel}:{node.lineno}"); continue
            if mem not in READS: continue
            names = reads_of(ck, f"{m.name}.{fn}") if fn and f"{m.name}.{fn}" in {q.qual for q in p.all_funcs(m.name)} else {n.attr for n in ast.walk(node) if isinstance(n, ast.Attribute)}
            ck.ob("objectives", f"table/{mem}", READS[mem] in names and not (names & (set(READS.values()) - {READS[mem]})), f"the objective {mem} is computed by {fn}, which does not read {READS[mem]} only", f"{m.rel}:{node.lineno}")
    # directions of the indicators
    pm = p.mod("prodsys.models.performance_indicators")
    for c in p.all_classes():
        if c.mod is not pm: continue
        for name, node in [(n.target.id, n) for n in c.node.body if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name)]:
            if name != "target" or node.value is None: continue
            k += 1
            v = node.value.value if isinstance(node.value, ast.Constant) else None
            ck.ob("directions", c.name, v == TARGETS.get(c.name, "min"), f"the direction of {c.name} is {v}", f"{pm.rel}:{node.lineno}")
    ck.need("objective functions and directions", k, 12)


# ------------------------------------------------------------------ weights
def weights(ck):
    p = ck.p; f = p.func(OPT + ".util.get_weights"); g = ck.graph(f, inline=lambda x: x.mod.name == f.mod.name)
    A, D = f.all_params()[:2]
    heads = [n for n in g.nodes if n.kind == "loophead" and n.id in g.live()]
    hs = [h for h in heads if g.r(h.iter, h) == f"{A}.scenario_data.objectives"]
    ck.ob("weights", "get_weights/order", len(heads) == 1 and len(hs) == 1, "the weights are not taken one by one from the objectives in their order", f.loc)
    if not hs: return
    h = hs[0]; obj = f"elem({A}.scenario_data.objectives)"
    adds = []
    for n in returns(g):
        for d, v in leaves(g, n.value, n): 
            c = g.nodes[v[1]] if v[0] == "call" else None
            src = (c.args[0], c) if c is not None and c.name in ("tuple", "list") and c.args else (v, d)
            adds += [(dd, x) for dd, x in elements(g, *src)]
    ids = {d.id for d, _ in adds}
    ck.ob("weights", "get_weights/values", bool(adds), "no weights are returned", f.loc)
    if h.d.get("lkind") != "comp" and not any(h.id in c["heads"] for c in g.comps.values()):
        cnt = per_pass(g, h, ids)
        ck.ob("weights", "get_weights/each", cnt == {1} and complete(g, h), "an objective does not contribute exactly one weight", h.loc)
    seen = set()
    for st in peval.paths(g, loop=1):
        for n in st.nodes:
            if n.id not in ids: continue
            val = next(x for d, x in adds if d is n or d.id == n.id)
            i = st.nodes.index(n)
            sub = peval_at(g, st, n, val)
            fac = factor(sub, st)
            same = None
            for t, pol in st.order:
                s = peval_text(st, t)
                if ".target" in s and D in s and t[0] == "cmp":
                    eq = t[1] == "=="
                    if t[1] in ("==", "!="): same = pol if eq else not pol
                elif ".target" in s and t[0] == "cmp" and t[1] in ("==", "!=") and any(x in ("max", "min") for x in consts_of(t)): same = None
            seen.add((same, fac))
    okv = {x for x in seen if x[0] is not None}
    ck.ob("weights", "get_weights/sign", okv == {(True, 1), (False, -1)} and okv == seen, f"the weight of an objective does not keep its sign exactly when its direction is the requested one: {sorted(map(str, seen))}", f.loc)
    # the indicator is the one of the same objective
    for n in g.nodes:
        if n.kind == "call" and n.id in g.live() and n.name in ("validate_python",):
            ok = bool(n.args) and obj + ".name" in g.r(n.args[0], n)
            ck.ob("weights", "get_weights/indicator", ok, "the direction is looked up for another objective", n.loc)


def consts_of(t):
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == "const": return [t[1]]
        return [x for y in t if isinstance(y, tuple) for x in consts_of(y)]
    return []


def peval_text(st, t): return st.r(t) if not isinstance(t, str) else t


def peval_at(g, st, n, val):
    return st.close(val)


def factor(t, st):
    """+1 / -1 for (minus) the weight of the objective"""
    k = t[0]
    if k == "attr" and t[2] == "weight": return 1
    if k == "neg": s = factor(t[1], st); return -s if s else None
    if k == "un" and t[1] in ("-", "neg", "USub"): s = factor(t[2], st); return -s if s else None
    if k == "bin" and t[1] == "*":
        a, b = factor(t[2], st), factor(t[3], st)
        return a * b if a and b else None
    if k == "const" and t[1] in (1, -1, 1.0, -1.0): return int(t[1])
    return None


# ------------------------------------------------------------------ records
def record_sites(ck, w):
    """[(class or None, function, graph, substore node)] of all places that record a fitness"""
    out = []; p = ck.p
    fs = [(None, f) for f in p.all_funcs(OPT) if f.cls is None]
    for c in p.all_classes():
        if c.mod.name.startswith(OPT): fs += [(c, m) for m in c.methods.values()]
    for cls, f in fs:
        g = w.g(f, cls)
        for n in g.nodes:
            if n.kind == "substore" and n.id in g.live() and n.base[0] in ("item", "var", "call"):
                for d, v in leaves(g, n.value, n):
                    if v[0] == "dict" and {k[1] for k, _ in v[1] if k[0] == "const"} & {"fitness", "agg_fitness"}: out.append((cls, f, g, n, d, v))
    # a helper inlined into its caller is judged there
    keep = []
    for x in out:
        if not any(y is not x and y[3].loc == x[3].loc and y[1].qual != x[1].qual and any(m.kind == "call" and any(isinstance(q, FuncInfo) and q.qual == x[1].qual for q in m.get("cands") or ()) for m in y[2].nodes) for y in out): keep.append(x)
    return keep


def candidate(g, n):
    """text of the candidate in whose name a record is stored: the object whose .ID is the key"""
    for d, v in leaves(g, n.index, n):
        if v[0] == "attr" and v[2] == "ID": return g.r(v[1], d), (d, v[1])
        return None
    return None


def pair(g, t, n):
    """(loop id, collection term, node) when a term is an element of a loop's collection (also behind [0])"""
    d, v = only(g, t, n)
    if v[0] == "item" and v[2] == ("const", 0): d, v = only(g, v[1], d)
    if v[0] in ("elem", "index"): return v[2], v[1], g.nodes[v[2]] if isinstance(v[2], int) else d
    return None


def values_source(g, t, n):
    """(node, term) the fitness values come from, through fields of the individual and conversions"""
    d, v = strip(g, t, n)
    if v[0] == "attr" and v[2] == "values":
        base = g.r(v[1], d)
        st = [s for s in g.stores("values") if g.r(s.base, s) == base and s.id != d.id and g.dominates(s, n)]
        if len(st) == 1: return values_source(g, st[0].value, st[0])
    return d, v


def evaluated(g, w, t, n):
    """[(evaluate call or registered map call, candidate description)] for values"""
    d, v = values_source(g, t, n)
    if v[0] == "call":
        c = g.nodes[v[1]]
        if any(isinstance(x, FuncInfo) and x.qual == EV for x in c.get("cands") or ()):
            f = w.p.func(EV); a = amap(c, f)
            return c, ("one", first(g, a[f.all_params()[5]], c)) if f.all_params()[5] in a else None
    if v[0] == "elem":
        h = g.nodes[v[2]]
        dd, it = only(g, v[1], h)
        if it[0] == "call":
            c = g.nodes[it[1]]
            while c.name in ("list", "tuple") and len(c.args) == 1:
                dd, it = only(g, c.args[0], c)
                if it[0] != "call": return None
                c = g.nodes[it[1]]
            fn = [i for i, a in enumerate(c.args) if names_evaluate(g, w, a, c)]
            if fn and len(c.args) == 2: return c, ("each", v[2], (c.args[1 - fn[0]], c))
        if it[0] == "comp":
            cc = g.comps[it[2]]; e = g.nodes[cc["elt"]]; de, x = only(g, e.value, e)
            if x[0] == "call" and names_evaluate(g, w, g.nodes[x[1]].func, g.nodes[x[1]]) and len(cc["heads"]) == 1:
                c = g.nodes[x[1]]; hh = g.nodes[cc["heads"][0]]
                a = (c.args[-1:] or list(c.kw.values()))[0]
                if g.r(a, c) == "elem(" + g.r(hh.iter, hh) + ")": return c, ("each", v[2], (hh.iter, hh))
    return None


def names_evaluate(g, w, t, n):
    for d, v in leaves(g, t, n):
        if v == ("func", EV): return True
        if v[0] == "attr":
            for m in g.nodes:
                if m.kind == "call" and m.id in g.live() and m.name == "register" and len(m.args) > 1 and m.args[0] == ("const", v[2]) and ("func", EV) in [x for dd, x in leaves(g, m.args[1], m)]: return True
    return False


def records(ck, w):
    p = ck.p; sites = record_sites(ck, w)
    ck.need("places that record a fitness", len(sites), 3)
    for cls, f, g, n, d, v in sites:
        nm = f"{f.mod.name.split('.')[-1]}"
        ent = {k[1]: x for k, x in v[1] if k[0] == "const"}
        ck.ob("record-fields", nm, set(ent) == FIELDS, f"the record has the fields {sorted(ent)}", n.loc)
        c = candidate(g, n)
        ck.ob("record-identity", f"{nm}/key", c is not None, "a record is not stored under the ID of its candidate", n.loc)
        if c is None: continue
        C, cterm = c
        if "hash" in ent: ck.ob("record-identity", f"{nm}/hash", g.r(ent["hash"], d) == C + ".hash()", f"the fingerprint recorded is {g.r(ent['hash'], d)[:100]}, not the candidate's", n.loc)
        ev = evaluated(g, w, ent["fitness"], d) if "fitness" in ent else None
        ok = ev is not None and ev[1] is not None
        if ok:
            call, who = ev
            if who[0] == "one": ok = who[1] == {C}
            else:
                pr = pair(g, cterm[1], cterm[0])
                ok = pr is not None and pr[0] == who[1] and seq_id(g, pr[1], pr[2]) == seq_id(g, *who[2])
        ck.ob("record-fitness", f"{nm}/fitness", ok, "the fitness recorded for a candidate is not the one of an evaluation of this candidate", n.loc)
        if ev is None: continue
        call = ev[0]
        table, gen = generation(g, n)
        aggregated(ck, w, nm, cls, f, g, n, d, ent, ev)
        # documented in the same pass, after the evaluation
        docs = [m for m in calls_to(g, DOC)]
        F = p.func(DOC); prm = F.all_params()
        mine = []
        for m in docs:
            a = amap(m, F)
            if prm[2] in a and first(g, a[prm[2]], m) == {C} and {h.id for h in g.loops_of(m)} == {h.id for h in g.loops_of(n)}: mine.append((m, a))
        dom = [m for m, a in mine if g.dominates(m, n)]
        aft = mine and g.always_after(n, [m for m, _ in mine])
        ck.ob("record-identity", f"{nm}/documented", bool(dom) or bool(aft), "a recorded candidate is not documented", n.loc)
        for m, a in mine:
            ck.ob("record-fitness", f"{nm}/order", g.dominates(call, m), "a candidate is documented before it is evaluated, so that its fingerprint is known without a fitness", m.loc)
            sol = w.ident(g, a[prm[0]], m, cls); per = w.ident(g, table[1], table[0], cls)
            if gen is not None:
                ok = gen_ok(g, w, gen, n, a[prm[0]], m, cls)
                ck.ob("record-identity", f"{nm}/generation", ok, "the record is stored under another generation than the documented one", n.loc)
            ea = eval_args(g, w, call)
            if ea is not None:
                P = p.func(EV).all_params(); cg, cn = ea[1], ea[2]
                cl = cls if cg is g else None
                ck.ob("evaluation-arguments", f"{nm}/caches", w.ident(cg, ea[0][P[1]], cn, cl) == sol and w.ident(cg, ea[0][P[2]], cn, cl) == per if P[1] in ea[0] and P[2] in ea[0] else False, "the evaluation looks up fingerprints or fitness in other tables than those the candidates are recorded in", cn.loc)
                txt = w.ident(cg, ea[0][P[3]], cn, cl) if P[3] in ea[0] else set()
                ck.ob("evaluation-arguments", f"{nm}/seeds", bool(txt) and all(isinstance(t, str) and t.split(".")[-1] == "number_of_seeds" for t in txt), f"the number of runs is {sorted(map(str, txt))}", cn.loc)
                b = w.ident(cg, ea[0][P[0]], cn, cl) if P[0] in ea[0] else set()
                s2 = sources(w, cg, ea[0][P[0]], cn, cl)
                ck.ob("evaluation-arguments", f"{nm}/base", bool(s2) and all("initial" not in t and ("base" in t or t in ("self.adapter", "adapter")) for t in s2), f"the candidate is compared with {sorted(s2)}, not with the base configuration", cn.loc)
        # written out
        dumps = [m for m in g.nodes if m.kind == "call" and m.id in g.live() and m.name == "dump" and m.args and w.ident(g, m.args[0], m, cls) == w.ident(g, table[1], table[0], cls)]
        dumps = [m for m in dumps if any("optimization_results.json" in g.r(q.args[0], q) for q in g.nodes if q.kind == "call" and q.name == "open" and q.args and g.dominates(q, m))]
        ck.ob("record-written", nm, bool(dumps) and not g.path_avoiding(n, g.exit, dumps), "the records are not always written to the result file", n.loc)
        ck.ob("record-written", f"{nm}/folder", folder_ready(ck, w, cls, f, g), "the folder of the results is not prepared before the results are written", f.loc)


def generation(g, n):
    """((node, table term), generation term)"""
    b = n.base
    d, v = only(g, b, n)
    if v[0] == "item": return (d, v[1]), (d, v[2])
    return (d, v), None


def gen_ok(g, w, gen, n, sol, m, cls):
    txt = g.r(gen[1], gen[0]); dt = g.r(sol, m)
    cur = f"{dt}['current_generation']"
    if txt in (cur, f"str({cur})"): return True
    # a fixed generation: the one the table of fingerprints is created with and that never changes
    if gen[1][0] == "const":
        for x in w.ident(g, sol, m, cls):
            if not isinstance(x, tuple): return False
            f = next((q for q in w.p.all_funcs(OPT) if q.qual == x[0]), None)
            h = g if x[0] == g.fn.qual or f is None else w.g(f)
            if x[1] >= len(h.nodes): return False
            node = h.nodes[x[1]]
            val = node.value if node.kind == "assign" else None
            if val is None or val[0] != "dict" or dict(val[1]).get(("const", "current_generation")) != gen[1]: return False
            if any(q.kind == "substore" and q.index == ("const", "current_generation") for q in h.nodes): return False
        return True
    # str(current) stored as the current generation just before
    st = [q for q in g.nodes if q.kind == "substore" and q.id in g.live() and q.index == ("const", "current_generation") and g.dominates(q, n)]
    return any(g.r(q.value, q) == txt for q in st)


def aggregated(ck, w, nm, cls, f, g, n, d, ent, ev):
    if "agg_fitness" not in ent: return
    dd, t = only(g, ent["agg_fitness"], d)
    want = "max"
    if cls is not None and any("Annealer" in b for k in cls.mro() for b in k.base_names()): want = "min"
    ok = False; dirs = set()
    if t[0] == "call" and g.nodes[t[1]].name in ("sum", "fsum"):
        c = g.nodes[t[1]]; da, a = only(g, c.args[0], c)
        if a[0] == "attr" and a[2] == "wvalues":
            base = g.r(a[1], da)
            st = [s for s in g.stores("values") if g.r(s.base, s) == base and g.dominates(s, c)]
            src = [evaluated(g, w, s.value, s) for s in st]
            ok = bool(st) and all(x is not None and x[0] is ev[0] for x in src)
            dirs = creator_directions(w, f, g)
        elif a[0] == "comp":
            e = g.nodes[g.comps[a[2]]["elt"]]; de, x = only(g, e.value, e)
            ok, dirs = product(ck, w, cls, g, x, de, ev)
        else:
            xs = elements(g, c.args[0], c)
            if len(xs) == 1: de, x = only(g, xs[0][1], xs[0][0]); ok, dirs = product(ck, w, cls, g, x, de, ev)
    elif t[0] in ("phi", "bin"):
        ok, dirs = product_sum(ck, w, cls, g, ent["agg_fitness"], d, ev)
    else:
        ok, dirs = product_sum(ck, w, cls, g, ent["agg_fitness"], d, ev)
    ck.ob("aggregate", f"{nm}/weighted", ok, f"the aggregated fitness is not the sum of the weighted values of this candidate: {g.r(ent['agg_fitness'], d)[:120]}", n.loc)
    if ok: ck.ob("aggregate", f"{nm}/direction", dirs == {want}, f"the values are weighed for {sorted(map(str, dirs))}, but the method looks for the {want}imum", n.loc)
    if f.cls is not None and f.name in ("energy", "_score"):
        for r in returns(g):
            ck.ob("aggregate", f"{nm}/returned", {g.r(x, q) for q, x in leaves(g, r.value, r)} == {g.r(x, q) for q, x in leaves(g, ent["agg_fitness"], d)}, "the value the search works with is not the recorded one", r.loc)


def product_sum(ck, w, cls, g, t, n, ev):
    """total = 0; for v, w in zip(..): total += v * w"""
    ls = leaves(g, t, n); okk = False; dirs = set()
    for d, v in ls:
        if v[0] == "const": continue
        if v[0] == "bin" and v[1] == "+":
            for x in v[2:4]:
                dx, q = only(g, x, d)
                if q[0] == "bin" and q[1] == "*":
                    o, dr = product(ck, w, cls, g, q, dx, ev); okk = o; dirs |= dr
    return okk, dirs


def product(ck, w, cls, g, x, n, ev):
    if x[0] != "bin" or x[1] != "*": return False, set()
    a, b = only(g, x[2], n), only(g, x[3], n)
    for (dv, val), (dw, wt) in ((a, b), (b, a)):
        if val[0] != "elem" or wt[0] != "elem" or val[2] != wt[2]: continue
        h = g.nodes[val[2]]
        dirs = set()
        s = evaluated(g, w, val[1], h)
        if s is None or s[0] is not ev[0]: continue
        for q in weight_directions(w, g, wt[1], h, cls): dirs.add(q)
        if dirs: return True, dirs
    return False, set()


def weight_directions(w, g, t, n, cls, depth=0):
    """directions get_weights is asked for, when a term is the result of get_weights"""
    out = set()
    for c in weights_in(g, t, n):
        a = argm(c, "direction", 1); b = argm(c, "adapter", 0)
        out.add(a[1] if a is not None and a[0] == "const" else None)
        if b is None or not all("initial" not in x for x in sources(w, g, b, c, cls)): out.add(None)
    if out: return out
    for x in w.ident(g, t, n, cls):
        if isinstance(x, str) and x.startswith("get_weights("):
            out.add("max" if "'max'" in x else "min" if "'min'" in x else None)
            if "initial" in x: out.add(None)
    return out


def creator_directions(w, f, g):
    """the directions of the weights the individuals' fitness class is created with"""
    out = set()
    for n in g.nodes:
        if n.kind == "call" and n.id in g.live() and n.name == "create" and "weights" in n.kw:
            out |= weight_directions(w, g, n.kw["weights"], n, None) or {None}
    return out


def eval_args(g, w, call):
    """argument terms of the evaluation, bound or given: ({param: term}, graph, node)"""
    F = w.p.func(EV)
    if any(isinstance(x, FuncInfo) and x.qual == EV for x in call.get("cands") or ()): return amap(call, F), g, call
    for m in g.nodes:
        if m.kind == "call" and m.id in g.live() and m.name == "register" and len(m.args) > 1 and ("func", EV) in [x for d, x in leaves(g, m.args[1], m)]:
            a = dict(zip(F.all_params(), m.args[2:])); a.update(m.kw); return a, g, m
    return None


def sources(w, g, t, n, cls, depth=0):
    """texts of what a configuration is (a copy of)"""
    out = set()
    for x in w.ident(g, t, n, cls):
        if isinstance(x, str): out.add(x); continue
        f = next((q for q in w.p.all_funcs(OPT) if q.qual == x[0]), None)
        h = w.g(f) if f is not None else g
        if h.fn.qual != x[0]: h = g
        node = h.nodes[x[1]]
        v = node.value if node.kind == "assign" else ("call", node.id)
        if v[0] == "call":
            c = h.nodes[v[1]]
            src = c.recv if c.name in ("model_copy", "copy") and not (c.recv is not None and c.recv[0] in ("mod", "ext")) else c.args[0] if c.name in ("deepcopy", "copy") and c.args else None
            if src is not None and depth < 6: out |= sources(w, h, src, c, None, depth + 1); continue
            out.add(h.r(v, node)); continue
        out.add(h.r(v, node))
    return {x.split(":")[-1] for x in out}


def folder_ready(ck, w, cls, f, g):
    """prepare_save_folder is called in the driver before the search starts"""
    fs = []
    if cls is None: fs = [(g, None)]
    else:
        dr = w.driver(cls)
        if dr: fs = [(dr[1], dr[2])]
    for h, cs in fs:
        prep = [m for m in h.nodes if m.kind == "call" and m.id in h.live() and m.name in ("prepare_save_folder", "makedirs")]
        tgt = cs if cs is not None else [m for m in h.nodes if m.kind == "call" and m.name in ("dump",)] + calls_to(h, DOC)
        if not tgt or not all(any(h.dominates(m, c) for m in prep) for c in tgt): return False
    return bool(fs)


# ------------------------------------------------------------------ document_individual
def generations(ck, w):
    """Candidates of two populations are not recorded under the same generation."""
    p = ck.p
    for f in [f for f in p.all_funcs(OPT) if f.cls is None and not f.name.startswith(("run_", "optimize_"))]:
        if not f.name.endswith("_optimization"): continue
        g = w.g(f)
        docs = calls_to(g, DOC)
        moves = [q for q in g.nodes if q.kind == "substore" and q.id in g.live() and q.index == ("const", "current_generation")]
        if not docs or not moves: continue
        heads = {h.id: h for m in docs for h in g.loops_of(m)[-1:] + g.loops_of(m)[:1] if innermost_of(g, m) is h}
        for a in heads.values():
            for b in heads.values():
                outs = [e for e in g.nodes if e.kind == "edge" and e.id in g.live() and any(s == e.id for s, l in a.succ) and e is not iter_edge(g, a)]
                bad = any(g.path_avoiding(e, b, moves) for e in outs)
                ck.ob("record-identity", f"{f.name}/own-generation", not bad, "two populations are recorded under the same generation", b.loc)


def innermost_of(g, m):
    hs = g.loops_of(m)
    for h in hs:
        if not any(k is not h and any(q.id == h.id for q in g.loops_of(k)) for k in hs): return h
    return None


def documented(ck, w):
    p = ck.p; f = p.func(DOC); g = w.g(f); S, F, I = f.all_params()[:3]
    C = f"{I}[0]"
    subs = [n for n in g.nodes if n.kind == "substore" and n.id in g.live()]
    ok = False
    for n in subs:
        if g.r(n.base, n) != f"{S}['hashes']": continue
        d, v = only(g, n.value, n)
        e = {k[1]: g.r(x, d) for k, x in v[1]} if v[0] == "dict" else {}
        good = g.r(n.index, n) == f"{C}.hash()" and e == {"generation": f"{S}['current_generation']", "ID": f"{C}.ID"}
        ck.ob("documented", "fingerprint", good, f"the fingerprint is recorded as {g.r(n.index, n)[:60]}: {e}", n.loc); ok = ok or good
        extra = [a for a in g.guard_set(n) if a not in (f"!({C}.hash() in {S}['hashes'])", f"({C}.hash() not in {S}['hashes'])")]
        ck.ob("documented", "always", not extra, f"the fingerprint is recorded only under {extra}", n.loc)
    sd = [n for n in g.nodes if n.kind == "call" and n.id in g.live() and n.name == "setdefault" and g.r(n.recv, n) == f"{S}['hashes']"]
    for n in sd:
        d, v = only(g, n.args[1], n); e = {k[1]: g.r(x, d) for k, x in v[1]} if v[0] == "dict" else {}
        ok = g.r(n.args[0], n) == f"{C}.hash()" and e == {"generation": f"{S}['current_generation']", "ID": f"{C}.ID"}
    ck.ob("documented", "known", ok, "the fingerprint of a documented candidate is not recorded with its generation and ID", f.loc)
    wr = [n for n in g.nodes if n.kind == "call" and n.id in g.live() and n.name == "write_data"]
    for n in wr:
        a = n.args[0] if n.args else n.kw.get("file_path")
        txt = g.r(a, n)
        ok = txt == f"f'{{{F}}}/generation_{{{S}['current_generation']}}_{{{C}.ID}}.json'"
        ck.ob("documented", "file", ok, f"the file of a candidate is {txt[:120]}", n.loc)
        src = {C}
        ck.ob("documented", "content", C in g.r(n.recv, n), "the file does not contain the candidate", n.loc)
    ck.ob("documented", "saved", bool(wr) and not g.path_avoiding(g.entry, g.exit, wr), "a documented candidate is not saved", f.loc)


# ------------------------------------------------------------------ identities
def identities(ck, w):
    """operators and generators give every candidate they may change an identity of its own"""
    p = ck.p; k = 0
    reg = {}
    for f in p.all_funcs(OPT):
        g = w.g(f)
        for n in g.nodes:
            if n.kind == "call" and n.id in g.live() and n.name == "register" and len(n.args) > 1 and n.args[0][0] == "const" and n.args[0][1] in ("mate", "mutate"):
                for d, v in leaves(g, n.args[1], n):
                    if v[0] == "func": reg[v[1]] = n.args[0][1]
    ck.need("registered operators", len(reg), 2)
    for q in sorted(reg):
        f = p.func(q); g = ck.graph(f, inline=lambda x: x.mod.name == f.mod.name and x.name.startswith("_"))
        for prm in f.params():
            k += 1
            st = [s for s in g.stores("ID") if g.r(s.base, s) in (f"{prm}[0]",)]
            fresh = [s for s in st if any(unique(g, v, d) for d, v in leaves(g, s.value, s))]
            ok = bool(fresh) and not g.path_avoiding(g.entry, g.exit, fresh)
            ck.ob("fresh-identity", f"{f.name}/{f.params().index(prm)}", ok, "a candidate the operator may change can keep the identity of the candidate it comes from", f.loc)
            ck.ob("fresh-identity", f"{f.name}/{f.params().index(prm)}/own", all(any(unique(g, v, d) for d, v in leaves(g, s.value, s)) for s in st), "a candidate gets an identity that is not unique", f.loc)
        ids = [d.id for s in g.stores("ID") for d, v in leaves(g, s.value, s) if v[0] == "call" or True]
        src = {}
        for s in g.stores("ID"):
            for c in source_calls(g, s.value, s): src.setdefault(c, set()).add(g.r(s.base, s))
        ck.ob("fresh-identity", f"{f.name}/distinct", all(len(x) == 1 for x in src.values()), "two candidates get the same identity", f.loc)
    for q in (OPT + ".adapter_manipulation.random_configuration",):
        f = p.func(q); g = ck.graph(f, inline=lambda x: x.mod.name == f.mod.name and x.name.startswith("_"))
        for r in returns(g):
            for d, v in leaves(g, r.value, r):
                k += 1
                st = [s for s in g.stores("ID") if s.id in g.live() and any(x.id == d.id for x, _ in leaves(g, s.base, s)) and any(unique(g, vv, dd) for dd, vv in leaves(g, s.value, s))]
                lone = [c for s in st for c in source_calls(g, s.value, s)]
                cp = g.nodes[v[1]] if v[0] == "call" else d
                ok = bool(st) and any(g.dominates(cp, s) and g.dominates(s, r) for s in st) and all({h.id for h in g.loops_of(g.nodes[c])} >= {h.id for h in g.loops_of(cp)} for c in lone)
                ck.ob("fresh-identity", "random_configuration", ok, "a random candidate has no identity of its own", r.loc)
    for cls, f, g, n, d, v in record_sites(ck, w):
        if f.cls is None or f.cls.name != "MathOptimizer": continue
        c = candidate(g, n)
        if c is None: continue
        st = [s for s in g.stores("ID") if s.id in g.live() and g.r(s.base, s) == c[0] and any(unique(g, vv, dd) for dd, vv in leaves(g, s.value, s))]
        ck.ob("fresh-identity", "math_opt", any(g.dominates(s, n) and {h.id for h in g.loops_of(s)} == {h.id for h in g.loops_of(n)} for s in st), "a solution has no identity of its own", n.loc)
    ck.need("candidates that get an identity", k, 4)


def source_calls(g, t, n, depth=0):
    out = []
    for d, v in leaves(g, t, n):
        if v[0] == "call":
            c = g.nodes[v[1]]
            if c.name in ("str",) and c.args: out += source_calls(g, c.args[0], c, depth + 1)
            elif c.name in ("uuid1", "uuid4", "token_hex"): out.append(c.id)
        elif v[0] == "attr" and v[2] in ("hex", "int"): out += source_calls(g, v[1], d, depth + 1)
        elif v[0] == "fstr":
            for x in v[1]:
                if isinstance(x, tuple): out += source_calls(g, x, d, depth + 1)
    return out


def unique(g, v, d): return bool(source_calls(g, v, d))


# ------------------------------------------------------------------ start and settings
def starts(ck, w):
    p = ck.p; k = 0
    for c in p.all_classes():
        if not c.mod.name.startswith(OPT): continue
        if not (any("Annealer" in b for q in c.mro() for b in q.base_names()) or any(q.name == "TabuSearch" for q in c.mro()) and c.name != "TabuSearch"): continue
        dr = w.driver(c)
        if dr is None: ck.ob("start", c.mod.name.split(".")[-1], False, "the search is not started", c.loc); continue
        f, g, cs = dr
        init = next((q.methods["__init__"] for q in c.mro() if "__init__" in q.methods), None)
        for call in cs:
            a = amap(call, init)
            t = a.get("initial_solution", a.get("initial_state"))
            k += 1
            if t is None: ck.ob("start", f.name, False, "the search gets no start", call.loc); continue
            prm = "initial_solution"
            bad = set()
            for st in peval.paths(ck.graph(f, inline=lambda x: False), stop=lambda n: n.kind == "call" and n.loc == call.loc, loop=0, limit=4000):
                if st.end.loc != call.loc or st.end.kind != "call": continue
                args = amap(st.end, init); tt = args.get("initial_solution", args.get("initial_state"))
                txt = st.r(tt)
                given = None
                for x, pol in st.order:
                    if st.r(x) == prm: given = pol if given is None else given
                    elif st.r(x) in (f"({prm} is None)", f"(None is {prm})", f"(None == {prm})"): given = (not pol) if given is None else given
                want = prm if given in (True, None) else "base_configuration"
                if given is None: bad.add("the start is not chosen by whether one is given"); continue
                if not txt.startswith(want): bad.add(f"the search starts from {txt[:60]} although {'a' if given else 'no'} start is given")
            ck.ob("start", f.name, not bad, "; ".join(sorted(bad)), call.loc)
    ck.need("searches with a start", k, 2)
    # population
    f = p.func(OPT + ".evolutionary_algorithm.evolutionary_algorithm_optimization"); g = w.g(f)
    seen = set()
    for n in g.nodes:
        if n.kind == "call" and n.id in g.live() and n.name == "register" and len(n.args) > 2 and n.args[1][0] == "func" and n.args[1][1].startswith(OPT + ".adapter_manipulation.random_configuration"):
            at = set(g.guard_set(n)); given = "initial_solutions_folder" in at; not_given = "!initial_solutions_folder" in at
            if n.args[1][1].endswith("_with_initial_solution"):
                ok = given and "read_initial_solutions(initial_solutions_folder" in g.r(n.args[2], n); seen.add("given")
            else: ok = not_given and sources(w, g, n.args[2], n, None) == {"base_configuration"}; seen.add("base")
            ck.ob("start", f"{f.name}/{'given' if given else 'base'}", ok, "the first candidates are not made from the given solutions, or else from the base configuration", n.loc)
    ck.ob("start", f"{f.name}/both", seen == {"given", "base"}, "candidates are not made from the given solutions or else from the base configuration", f.loc)


SINKS = {"number_of_generations": ("range", 0), "population_size": ("population", "n"), "mutation_rate": ("varAnd", "mutpb"), "crossover_rate": ("varAnd", "cxpb"), "seed": ("set_seed", 0)}


def settings(ck, w):
    """hyper-parameters reach the step they configure"""
    p = ck.p; k = 0
    for f in p.all_funcs(OPT):
        if f.cls is not None or f.name != "optimize_configuration": continue
        m = f.mod; g = ck.graph(f, inline=lambda x: x.mod is m and x.name.startswith("run_") or x.mod is m and x.name.startswith("_"))
        hyp = next((a for a in f.all_params() if a == "hyper_parameters"), None)
        for n in g.nodes:
            if n.kind != "call" or n.id not in g.live(): continue
            drv = [c for c in n.get("cands") or () if isinstance(c, FuncInfo) and "hyper_parameters" in c.all_params() and c.mod is m and c is not f]
            if not drv: continue
            a = amap(n, drv[0])
            d, v = only(g, a["hyper_parameters"], n) if "hyper_parameters" in a else (n, ("const", None))
            if g.r(v, d) == hyp: k += 1; ck.ob("settings-reach", f"{m.name.split('.')[-1]}/all", True, "", n.loc)
            elif v[0] == "call":
                c = g.nodes[v[1]]; fields = []
                for q in p.all_classes():
                    if q.mod is m and q.name == c.name: fields = [x for x in q.all_fields()]
                for x in fields:
                    if x == "model_config": continue
                    k += 1
                    ok = x in c.kw and g.r(c.kw[x], c) == f"{hyp}.{x}"
                    ck.ob("settings-reach", f"{m.name.split('.')[-1]}/{x}", ok, f"the hyper-parameter {x} is " + (f"taken from {g.r(c.kw[x], c)[:60]}" if x in c.kw else "lost"), n.loc)
            else: ck.ob("settings-reach", f"{m.name.split('.')[-1]}", False, "the hyper-parameters are lost", n.loc)
            for prm in ("save_folder", "full_save"):
                if prm in f.all_params() and prm in drv[0].all_params():
                    ck.ob("settings-reach", f"{m.name.split('.')[-1]}/{prm}", prm in a and g.r(a[prm], n) == prm, f"{prm} is not handed on", n.loc)
    # in the drivers
    for f in p.all_funcs(OPT):
        if f.cls is not None or "hyper_parameters" not in f.all_params() or f.name == "optimize_configuration" or not f.name.endswith("_optimization"): continue
        g = w.g(f); mn = f.mod.name.split(".")[-1]
        an = next((x.annotation for x in f.node.args.args if x.arg == "hyper_parameters"), None)
        hc = [c for c in classes_in(p.ann_type(an, f.mod))] if an is not None else []
        fields = [x for c in hc for x in c.all_fields() if x != "model_config"]
        for x in fields:
            k += 1; txt = f"hyper_parameters.{x}"
            uses = []
            for n in g.nodes:
                if n.id not in g.live(): continue
                if n.kind == "call":
                    for i, a in list(enumerate(n.args)) + list(n.kw.items()):
                        if g.r(a, n) == txt: uses.append((n.name, i, n))
                if n.kind == "store" and g.r(n.value, n) == txt: uses.append(("store", n.attr, n))
                if n.kind == "branch" and txt in g.r(n.term, n): uses.append(("branch", None, n))
            if x in SINKS and mn == "evolutionary_algorithm" or x == "seed":
                nm, i = SINKS[x]
                ok = any(u[0] == nm and (u[1] == i or i == "n" and u[1] == 0) for u in uses)
                ck.ob("settings-reach", f"{mn}/{x}/used", ok, f"the hyper-parameter {x} does not reach {nm}", f.loc)
                wrong = [u for u in uses if u[0] in {s[0] for s in SINKS.values()} and (u[0], u[1]) != (nm, i) and not (i == "n" and u[1] == 0)]
                ck.ob("settings-reach", f"{mn}/{x}/only", not wrong, f"the hyper-parameter {x} is used as {[(u[0], u[1]) for u in wrong]}", f.loc)
            elif x in ("number_of_processes", "number_of_seeds"): pass
            else:
                named = [u for u in uses if u[0] != "branch" and isinstance(u[1], str)]
                ok = bool(uses) and all(u[1] == x or u[1] in ("n_solutions",) and x == "number_of_solutions" for u in named)
                if not uses: ok = False
                ck.ob("settings-reach", f"{mn}/{x}/used", ok, f"the hyper-parameter {x} is " + (f"used as {[u[1] for u in named]}" if uses else "not used"), f.loc)
            if x == "number_of_seeds" and mn != "tabu_search":
                ck.ob("settings-reach", f"{mn}/{x}/used", any(u[0] != "branch" for u in uses), "the number of runs is not used", f.loc)
            if x == "seed":
                s = [u[2] for u in uses if u[0] == "set_seed"]
                first_draw = [n for n in g.nodes if n.kind == "call" and n.id in g.live() and n.name in ("population", "anneal", "run") and n.id not in [q.id for q in s]]
                ck.ob("settings-reach", f"{mn}/seed/first", bool(s) and all(any(g.dominates(q, n) for q in s) for n in first_draw), "the search begins before the random numbers are seeded", f.loc)
    ck.need("hyper-parameters", k, 20)


def search(ck, w):
    """the tabu search keeps the best scored candidate"""
    p = ck.p
    c = next((c for c in p.all_classes() if c.mod.name == OPT + ".tabu_search" and c.name == "TabuSearch"), None)
    if c is None: return
    f = c.methods.get("run"); k = 0
    g = ck.graph(f, inline=lambda x: x.cls is c and x.name not in ("_score", "_best", "_clear", "_neighborhood"), selfcls=c)
    for s in g.stores("best"):
        if s.id not in g.live(): continue
        k += 1
        val = {source_text(g, v, d) for d, v in leaves(g, s.value, s)}
        at = set(g.guard_set(s))
        ok = any(any(a in (f"(self._score({x}) > self._score(self.best))", f"(self._score(self.best) < self._score({x}))") for a in at) for x in val)
        if not ok:
            # self.current was just set to the same candidate
            ok = any("self._score(self.best)" in a and (a.startswith("(self._score(self.best) < ") or a.endswith(" > self._score(self.best))")) and any(x in a or "self.current" in a for x in val) for a in at)
        ck.ob("best-kept", "TabuSearch.best", ok, "the best candidate is replaced by one that does not score higher", s.loc)
    b = c.methods.get("_best")
    if b is not None:
        gb = ck.graph(b, inline=lambda x: x.cls is c and x.name != "_score", selfcls=c)
        txt = " ".join(gb.r(v, d) for r in returns(gb) for d, v in leaves(gb, r.value, r))
        ok = ("argmax(" in txt or "max(" in txt) and "argmin" not in txt and "_score" in txt or "max" in {n.name for n in gb.nodes if n.kind == "call"}
        ck.ob("best-kept", "TabuSearch._best", ok, "the neighbour with the highest score is not the one chosen", b.loc)
    ck.need("replacements of the best candidate", k, 1)


def source_text(g, v, d):
    if v[0] == "call":
        c = g.nodes[v[1]]
        if c.name in ("deepcopy", "copy", "model_copy"): return g.r(c.args[0] if c.args and (c.recv is None or c.recv[0] in ("mod", "ext", "glob")) else c.recv, c)
    return g.r(v, d)


def analysis(ck):
    """columns the analysis of result files selects exist in the table it reads"""
    p = ck.p; m = p.mod(OPT + ".optimization_analysis"); k = 0
    produced = {"optimizer", "is_efficient", "Generation", "population_number", "ID", "agg_fitness", "time"}
    rd = p.func(m.name + ".read_optimization_results_file_to_df")
    for x in ast.walk(rd.node):
        if isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Constant) and isinstance(x.slice.value, str) and isinstance(x.value, ast.Name) and x.value.id == "individual_values":
            pass
    g = ck.graph(rd, inline=lambda x: x.mod is m)
    cols = set()
    for n in g.nodes:
        if n.id not in g.live(): continue
        for t in (n.get("value"), *(n.get("args") or ())):
            if isinstance(t, tuple) and t and t[0] == "dict": cols |= {q[1] for q, _ in t[1] if q[0] == "const" and isinstance(q[1], str)}
        if n.kind == "substore" and n.index[0] == "const" and isinstance(n.index[1], str): cols.add(n.index[1])
        # fields of a record that are read
        for t in (n.get("value"), *(n.get("args") or ()), *((dict(n.value[1]).values()) if isinstance(n.get("value"), tuple) and n.value and n.value[0] == "dict" else ())):
            for f2 in fields_read(t):
                k += 1; ck.ob("analysis", f"record/{f2}", f2 in FIELDS, f"the analysis reads {f2}, which records do not have", n.loc)
    for f in p.all_funcs(m.name):
        if f is rd or f.qual == rd.qual: continue
        h = ck.graph(f, inline=lambda x: False)
        if not any(n.kind == "call" and any(isinstance(c, FuncInfo) and c.qual == rd.qual for c in n.get("cands") or ()) for n in h.nodes): continue
        have = set(cols); missing = set()
        for n in h.nodes:
            if n.kind == "substore" and n.index[0] == "const" and isinstance(n.index[1], str) and n.index[1] not in columns_used(h, n.value): have.add(n.index[1])
        for n in h.nodes:
            if n.id not in h.live(): continue
            for t in (n.get("value"), *(n.get("args") or ()), *list((n.get("kw") or {}).values())):
                for c in columns_used(h, t):
                    k += 1
                    if c not in have: missing.add(c)
        ck.ob("analysis", f"{f.name}/columns", not missing, f"columns that no result file has are selected: {sorted(missing)}", f.loc)
    ck.need("fields and columns of result files", k, 4)


def fields_read(t):
    out = []
    if isinstance(t, tuple) and t:
        if t[0] == "item" and t[2][0] == "const" and isinstance(t[2][1], str): out.append(t[2][1])
        for x in t[1:]:
            if isinstance(x, tuple): out += fields_read(x) if (x and isinstance(x[0], str)) else [y for z in x for y in fields_read(z)]
    return out


def columns_used(g, t):
    out = set()
    if isinstance(t, tuple) and t:
        if t[0] == "item" and t[2][0] == "const" and isinstance(t[2][1], str): out.add(t[2][1])
        if t[0] == "list" and t[1] and all(x[0] == "const" and isinstance(x[1], str) for x in t[1]): out |= {x[1] for x in t[1]}
        for x in t[1:]:
            if isinstance(x, tuple):
                if x and isinstance(x[0], str): out |= columns_used(g, x)
                else:
                    for z in x: out |= columns_used(g, z) if isinstance(z, tuple) else set()
    return out


def check(ck):
    w = World(ck)
    evaluation(ck, w)
    kpi_functions(ck)
    weights(ck)
    records(ck, w)
    generations(ck, w)
    documented(ck, w)
    identities(ck, w)
    starts(ck, w)
    settings(ck, w)
    search(ck, w)
    analysis(ck)
