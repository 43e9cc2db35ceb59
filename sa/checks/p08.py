"""P08 Every accepted option value is implemented."""
TECHNIQUE = "accepted values of every option field extracted from the types of the configuration models, compared with the keys of the dispatch tables and, per value or kind, with the branches of the dispatching functions that stay reachable; typed lint over every comparison with an option field"
NOTE = "What the selected function then does is decided elsewhere (P16 policies, P15 heuristics, P20 distributions, P17-P19 controllers and states); here only that each value reaches the component of its name. The selection of a pydantic union member is modelled from the annotations of the member classes."
import ast, re
from ..lib import *
from ..flow import Graph
from .p18 import atoms
from .p09 import consistent

M = "prodsys.models."; S = "prodsys.simulation."; F = "prodsys.factories."


# ---- option values ----------------------------------------------------------------------------------------------------
def accepted(p, mod, ann, seen=()):
    """the values an annotation accepts if it is an option (enum or literals), else None"""
    if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
        try: ann = ast.parse(ann.value, mode="eval").body
        except SyntaxError: return None
    if isinstance(ann, ast.Subscript):
        n = ast.unparse(ann.value).split(".")[-1]
        els = ann.slice.elts if isinstance(ann.slice, ast.Tuple) else [ann.slice]
        if n == "Literal": return {v for e in els for v in [literal(p, mod, e)]}
        if n in ("Optional", "Union", "List", "list", "Set", "conlist"):
            out = set(); any_ = False
            for e in els:
                r = accepted(p, mod, e, seen)
                if r is not None: out |= r; any_ = True
                elif not (isinstance(e, ast.Constant) and e.value is None): return None
            return out if any_ else None
        return None
    if isinstance(ann, ast.BinOp): 
        l, r = accepted(p, mod, ann.left, seen), accepted(p, mod, ann.right, seen)
        return (l or set()) | (r or set()) if (l is not None or r is not None) else None
    if isinstance(ann, (ast.Name, ast.Attribute)):
        r = mod.resolve_expr(ann)
        if r and r[0] == "class" and p.is_enum(r[1]): return set(p.enum_values(r[1]).values())
        if isinstance(ann, ast.Name) and ann.id in mod.consts and ann.id not in seen: return accepted(p, mod, mod.consts[ann.id], seen + (ann.id,))
    return None


def literal(p, mod, e):
    if isinstance(e, ast.Constant): return e.value
    if isinstance(e, ast.Attribute):
        if e.attr == "value": return literal(p, mod, e.value)
        c = mod.resolve_expr(e.value)
        if c and c[0] == "class" and p.is_enum(c[1]):
            v = p.enum_values(c[1]); return v.get(e.attr, ("no such member", e.attr))
    return ("?", ast.unparse(e))


def field_values(p, cls, name):
    r = cls.find_field(name)
    return accepted(p, r[0].mod, r[1][0]) if r and r[1][0] is not None else None


def tbl(ck, mod, name):
    """{value: (kind, thing)} of a dispatch table"""
    md = ck.p.mod(mod); v = md.consts.get(name)
    if v is None: raise AnchorError(f"{mod}.{name}")
    ent = []
    if isinstance(v, ast.Dict): ent = list(zip(v.keys, v.values))
    elif isinstance(v, ast.Call):
        for a in v.args:
            if isinstance(a, ast.Dict): ent += list(zip(a.keys, a.values))
        ent += [(ast.Constant(k.arg), k.value) for k in v.keywords if k.arg]
    for st in md.tree.body:
        if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Subscript) and getattr(st.targets[0].value, "id", None) == name: ent.append((st.targets[0].slice, st.value))
    out = {}
    for k, x in ent: out.setdefault(literal(ck.p, md, k) if k is not None else "**", []).append(md.resolve_expr(x))
    return {k: v[-1] for k, v in out.items()}, {k for k, v in out.items() if len(v) > 1}, f"{md.rel}:{v.lineno}"


TABLES = [
    # option, fields that accept it, table
    ("control policy", [("resource_data.ProductionResourceData", "control_policy"), ("resource_data.TransportResourceData", "control_policy"), ("scenario_data.ScenarioOptionsData", "machine_controllers"), ("scenario_data.ScenarioOptionsData", "transport_controllers")], F + "resource_factory", "CONTROL_POLICY_DICT"),
    ("controller", [("resource_data.ProductionResourceData", "controller"), ("resource_data.TransportResourceData", "controller")], F + "resource_factory", "CONTROLLER_DICT"),
    ("routing heuristic", [("source_data.SourceData", "routing_heuristic"), ("scenario_data.ScenarioOptionsData", "routing_heuristics")], S + "router", "ROUTING_HEURISTIC"),
    ("distribution function", [("time_model_data.FunctionTimeModelData", "distribution_function")], "prodsys.util.statistical_functions", "FUNCTION_DICT"),
    ("objective", [("scenario_data.Objective", "name")], "prodsys.optimization.optimization", "KPI_function_dict"),
]
USES = {"CONTROL_POLICY_DICT": [(F + "resource_factory.ResourceFactory.add_resource", "control_policy")], "CONTROLLER_DICT": [(F + "resource_factory.ResourceFactory.add_resource", "controller")],
        "ROUTING_HEURISTIC": [(F + "source_factory.SourceFactory.get_router", None), (F + "source_factory.SourceFactory.add_source", "routing_heuristic")],
        "KPI_function_dict": [("prodsys.optimization.optimization.evaluate", "name")]}
# what tells the components apart
MARK = {
    "exponential": "exponential", "normal": "normal", "lognormal": "lognormal",
}


def tables(ck):
    p = ck.p
    for what, fields, mod, name in TABLES:
        t, twice, loc = tbl(ck, mod, name)
        vals = set()
        for c, f in fields:
            v = field_values(p, p.cls(M + c), f)
            ck.ob("table", f"{name}/{c.split('.')[-1]}.{f}", v is not None, f"{c}.{f} accepts anything: unknown values are only found during the run", p.cls(M + c).loc)
            vals |= v or set()
        for v in sorted(vals, key=str):
            ck.ob("table", f"{name}/{v}", v in t and t[v] is not None, f"the {what} {v!r} is accepted by the configuration but not implemented", loc)
        ck.ob("table", name + "/twice", not twice, f"{sorted(twice, key=str)} is defined twice", loc)
        byf = {}
        for v, r in t.items():
            if r is not None: byf.setdefault((r[0], getattr(r[1], "qual", r[1])), []).append(v)
        for f, vs in byf.items():
            ck.ob("table", f"{name}/{vs[0]}-own", len(vs) == 1, f"{vs} select the same behaviour", loc)
        ck.need(f"entries of {name}", len(t), 2)
    # distributions draw from the generator of their name
    t, _, loc = tbl(ck, "prodsys.util.statistical_functions", "FUNCTION_DICT")
    GEN = {"exponential", "normal", "lognormal", "uniform", "gamma", "standard_normal", "standard_exponential"}
    for v, r in t.items():
        if not r or r[0] != "func": continue
        g = ck.graph(r[1], inline=lambda fn: fn.mod.name.endswith("statistical_functions"))
        drawn = set()
        for n in g.nodes:
            if n.kind == "call" and n.id in g.live():
                q = n.name if n.name in GEN else ""
                if q: drawn.add(q)
        want = {v} if v in GEN else set()
        ck.ob("own-behaviour", f"FUNCTION_DICT/{v}", drawn == want, f"the distribution function {v!r} draws from {sorted(drawn) or 'no distribution'}", r[1].loc)
    # controllers
    t, _, loc = tbl(ck, F + "resource_factory", "CONTROLLER_DICT")
    W = {"PipelineController": "ProductionController"}
    for v, r in t.items():
        if r and r[0] == "class": ck.ob("own-behaviour", f"CONTROLLER_DICT/{v}", r[1].name == W.get(v, v), f"the controller {v!r} selects {r[1].name}", loc)
    # objectives call the aggregation of their name
    t, _, loc = tbl(ck, "prodsys.optimization.optimization", "KPI_function_dict")
    AGG = {"throughput_time": "get_aggregated_throughput_time_data", "WIP": "get_aggregated_wip_data", "throughput": "get_aggregated_throughput_data"}
    for v, m in AGG.items():
        r = t.get(v)
        if not r or r[0] != "func": continue
        g = ck.graph(r[1]); got = {n.name for n in g.nodes if n.kind == "call" and n.id in g.live() and n.name.startswith("get_aggregated_")}
        ck.ob("own-behaviour", f"KPI_function_dict/{v}", got == {m}, f"the objective {v!r} is computed with {sorted(got)}", r[1].loc)
    r = t.get("cost"); ck.ob("own-behaviour", "KPI_function_dict/cost", r is not None and r[0] == "func" and "cost" in r[1].name.lower(), "the objective 'cost' is not the reconfiguration cost", loc)


def kpis(ck):
    p = ck.p; U = members_of(p, M + "performance_indicators", "KPI_UNION")
    en = p.enum_values(p.cls(M + "performance_indicators.KPIEnum"))
    for n, v in en.items():
        cs = [c.name for c in U if v in (field_values(p, c, "name") or ())]
        ck.ob("kpi-kind", v, len(cs) == 1, f"the KPI kind {v!r} belongs to {cs or 'no kind'} of KPI", p.cls(M + "performance_indicators.KPIEnum").loc)
    for c in U:
        t = field_values(p, c, "target")
        ck.ob("kpi-kind", f"{c.name}/target", t is not None and len(t) == 1 and t <= {"min", "max"}, f"the favourable direction of {c.name} is not fixed: {t}", c.loc)
    # KPIs are built with the class of their kind
    k = 0
    for f in p.all_funcs("prodsys.util"):
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and any(kw.arg == "name" for kw in n.keywords):
                r = f.mod.resolve_expr(n.func) if isinstance(n.func, (ast.Name, ast.Attribute)) else None
                if r and r[0] == "class" and r[1].mod.name == M + "performance_indicators":
                    v = literal(p, f.mod, next(kw.value for kw in n.keywords if kw.arg == "name"))
                    if isinstance(v, tuple): continue
                    k += 1
                    ck.ob("kpi-kind", f"{f.short}/{r[1].name}", v in (field_values(p, r[1], "name") or ()), f"a {r[1].name} is named {v!r}", f"{f.mod.rel}:{n.lineno}")
    ck.need("KPI constructions", k, 4)


def lookups(ck):
    """every table is asked with the configured value of the element itself"""
    p = ck.p; k = 0
    names = {n: m for _, _, m, n in TABLES}
    want = {"CONTROL_POLICY_DICT": "control_policy", "CONTROLLER_DICT": "controller", "ROUTING_HEURISTIC": "routing_heuristic", "FUNCTION_DICT": "distribution_function", "KPI_function_dict": "name"}
    for f in p.all_funcs():
        if not f.mod.name.startswith(("prodsys.", "app.")): continue
        src = {n.id if isinstance(n, ast.Name) else n.attr for n in ast.walk(f.node) if isinstance(n, (ast.Name, ast.Attribute))}
        for tname in names:
            if tname not in src: continue
            g = ck.graph(f, inline=lambda fn: False)
            for n in g.nodes:
                if n.id not in g.live(): continue
                for t in terms_of(n):
                    for s in subterms(t):
                        key = None
                        if s[0] == "item" and g.render(s[1]).endswith(tname): key = g.r(s[2], n)
                        if key is None: continue
                        k += 1
                        ck.ob("asked-with", f"{f.mod.name.split('.')[-1]}.{f.short}/{tname}", key.split(".")[-1] in (want[tname],), f"{tname} is asked for {key[:60]}", n.loc)
                if n.kind == "call" and any(g.r(a, n).endswith(tname) for a in list(n.args) + list(n.kw.values())):
                    al = [g.r(a, n) for a in n.args] + [g.r(v, n) for v in n.kw.values()]
                    k += 1
                    ck.ob("asked-with", f"{f.mod.name.split('.')[-1]}.{f.short}/{tname}", any(a.split(".")[-1] == want[tname] for a in al), f"{tname} is asked for {al}", n.loc)
    ck.need("table look-ups", k, 3)


def terms_of(n): return [x for x in n.d.values() if isinstance(x, tuple)] + [x for v in n.d.values() if isinstance(v, dict) for x in v.values() if isinstance(x, tuple)]


def subterms(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str): yield t
        for x in t:
            if isinstance(x, tuple): yield from subterms(x)


# ---- kinds ------------------------------------------------------------------------------------------------------------
def members_of(p, mod, name):
    md = p.mod(mod); v = md.consts.get(name)
    if v is None: raise AnchorError(f"{mod}.{name}")
    out = []
    for x in ast.walk(v):
        r = md.resolve_expr(x) if isinstance(x, (ast.Name, ast.Attribute)) else None
        if r and r[0] == "class": out.append(r[1])
    return out


def data_class(p, cls, field):
    """the configuration classes the field of a simulation class is declared with"""
    r = cls.find_field(field)
    if not r or r[1][0] is None: return []
    a = r[1][0]; md = r[0].mod
    if isinstance(a, ast.Constant) and isinstance(a.value, str): a = ast.parse(a.value, mode="eval").body
    out = []
    for x in ast.walk(a):
        if isinstance(x, (ast.Name, ast.Attribute)):
            q = md.resolve_expr(x)
            if q and q[0] == "class": out.append(q[1])
            elif q is None and isinstance(x, ast.Name) and x.id in md.consts: out += [c for c in members_of(p, md.name, x.id)]
    return out


KINDS = [
    ("state", M + "state_data", "STATE_DATA_UNION", S + "state", "STATE_UNION", "state_data"),
    ("time model", M + "time_model_data", "TIME_MODEL_DATA", S + "time_model", "TIME_MODEL", "time_model_data"),
    ("process", M + "processes_data", "PROCESS_DATA_UNION", S + "process", "PROCESS_UNION", "process_data"),
    ("resource", M + "resource_data", "RESOURCE_DATA_UNION", S + "resources", "RESOURCE_UNION", "data"),
]


def chosen(p, cands, K, field):
    """the members of a union that pydantic selects for an instance of K: exact declarations first"""
    ex = [c for c in cands if any(d.qual == K.qual for d in data_class(p, c, field))]
    return ex or [c for c in cands if any(K.is_sub(d) for d in data_class(p, c, field))]


def kinds(ck):
    p = ck.p
    for what, dm, du, sm, su, field in KINDS:
        data, sim = members_of(p, dm, du), members_of(p, sm, su)
        ck.need(f"kinds of {what}", len(data), 2)
        # all concrete kinds of the module are accepted
        for K in data:
            got = chosen(p, sim, K, field)
            ck.ob("kind", f"{what}/{K.name}", len(got) == 1 and got[0].name == K.name.removesuffix("Data"), f"a {K.name} is simulated by {[c.name for c in got] or 'nothing'}", K.loc)
        types = {}
        for K in data:
            v = K.find_field("type")
            if v: types.setdefault(frozenset(map(str, accepted(p, v[0].mod, v[1][0]) or ())), []).append(K.name)
        for t, ks in types.items():
            ck.ob("kind", f"{what}/{ks[0]}/type", len(ks) == 1 and len(t) == 1, f"{ks} have the same type {sorted(t)}", p.mod(dm).rel + ":1")
        # a type value exists for each member of the enumeration
        allv = {x for t in types for x in t}
        en = [c for c in p.all_classes() if c.mod.name == dm and p.is_enum(c) and c.name.endswith("TypeEnum")]
        for c in en:
            for n, v in p.enum_values(c).items():
                ck.ob("kind", f"{what}/{v}-defined", v in allv or not allv, f"the type {v} belongs to no {what}", c.loc)
    # simulation classes can be used: nothing they inherit is abstract
    for what, dm, du, sm, su, field in KINDS:
        for c in members_of(p, sm, su):
            missing = set()
            for b in c.mro():
                for m in b.methods.values():
                    if getattr(m, "is_abstract", False) and c.find_method(m.name).is_abstract: missing.add(m.name)
            ck.ob("kind", f"{what}/{c.name}/complete", not missing, f"{c.name} does not implement {sorted(missing)}", c.loc)
    # processes: the factory's own choice
    q = F + "process_factory.ProcessFactory.add_processes"
    g = ck.graph(q, stop=("get_time_model",))
    vs = [n for n in g.calls("validate_python") if n.id in g.live()]
    data = members_of(p, M + "processes_data", "PROCESS_DATA_UNION")
    for K in data:
        live = under(ck, g, K)
        hit = [n for n in vs if n.id in live]
        ck.ob("factory-kind", f"process/{K.name}", len(hit) == 1, f"a {K.name} is created {len(hit)} times", g.fn.loc)
        for n in hit:
            got = [c for c in adapter_types(ck, g, n)]
            sel = got if len(got) == 1 else chosen(p, got, K, "process_data")
            ck.ob("factory-kind", f"process/{K.name}/class", [c.name for c in sel] == [K.name.removesuffix("Data")], f"a {K.name} is simulated by {[c.name for c in sel]}", n.loc)
    timed(ck, q, "process_data", data, skip={"time_model_id"})
    timed(ck, F + "state_factory.StateFactory.add_state", "state_data", members_of(p, M + "state_data", "STATE_DATA_UNION"))
    # resources
    g = ck.graph(F + "resource_factory.ResourceFactory.add_resource", stop=("register_states", "register_production_states_for_processes", "adjust_process_breakdown_states", "get_processes_in_order", "get_queues_for_resource"))
    for n in g.calls("validate_python"):
        if n.id in g.live(): ck.ob("factory-kind", "resource", {c.name for c in adapter_types(ck, g, n)} == {"ProductionResource", "TransportResource"}, "resources are created from another union", n.loc)
    # queues with a place are stores
    g = ck.graph(F + "queue_factory.QueueFactory.add_queue")
    cs = [n for n in g.nodes if n.kind == "call" and n.id in g.live() and n.name in ("Store", "Queue")]
    for K, w in ((p.cls(M + "queue_data.StoreData"), "Store"), (p.cls(M + "queue_data.QueueData"), "Queue")):
        live = under(ck, g, K)
        hit = sorted({n.name for n in cs if n.id in live})
        ck.ob("factory-kind", f"queue/{K.name}", hit == [w], f"a {K.name} becomes {hit}", g.fn.loc)
    # work states of resources
    f = p.func(F + "resource_factory.register_production_states_for_processes")
    g = ck.graph(f)
    cs = [n for n in g.calls("create_states_from_configuration_data") if n.id in g.live()]
    ck.ob("factory-kind", "work state", bool(cs), "no states are created for the processes of resources", f.loc)
    for c in members_of(p, S + "process", "PROCESS_UNION"):
        hit = set(); live = under(ck, g, c)
        for n in cs:
            if n.id in live:
                t = g.resolve(n.args[0], n)
                for k, v in (t[1] if t[0] == "dict" else ()): hit.add(str(k[1]) if k[0] == "const" else g.render(k))
        want = {"TransportState"} if c.is_sub(p.cls(S + "process.TransportProcess")) or c.name == "LinkTransportProcess" else {"ProductionState"}
        ck.ob("factory-kind", f"work state/{c.name}", hit == want, f"a {c.name} of a resource is carried out in {sorted(hit) or 'no state'}", f.loc)


def consistent2(ck, lits, c):
    for l in lits:
        m = re.match(r"!?hasattr\(.*, ['\"](\w+)['\"]\)$", l)
        if m and (c.find_field(m.group(1)) is not None) == l.startswith("!"): return False
    return consistent(ck, lits, c)


def under(ck, g, K): return reach_under(g, lambda l: consistent2(ck, [l], K))


def adapter_types(ck, g, n):
    """the classes a TypeAdapter(..) call can create"""
    r = g.resolve(n.recv, n) if n.recv is not None else None
    if not r or r[0] != "call": return []
    c = g.nodes[r[1]]
    if not c.args: return []
    a = g.resolve(c.args[0], c); out = []
    s = g.render(a).split(".")[-1]
    for k in ck.p.all_classes():
        if k.name == s and k.mod.name.startswith(S): return [k]
    for what, dm, du, sm, su, field in KINDS:
        if su == s: return members_of(ck.p, sm, su)
    return out


def timed(ck, q, par, data, skip=()):
    """every time model a kind refers to is handed to its simulation object"""
    g = ck.graph(q, inline=lambda fn: fn.cls is not None and fn.cls.name.endswith("Factory") and fn.name not in ("get_time_model", "get_time_models"), stop=("get_time_model", "model_dump"))
    cs = [(n, g.r(n.args[0], n)) for n in g.calls("get_time_model") if n.id in g.live() and n.args]
    for K in data:
        live = under(ck, g, K)
        for f in sorted(n for c in K.mro() for n in c.fields):
            m = re.match(r"(?:(\w+)_)?time_model_id$", f)
            if not m: continue
            hit = [n for n, a in cs if a.endswith("." + f) and n.id in live]
            ck.ob("time-models", f"{K.name}.{f}", bool(hit), f"the {f} of a {K.name} is not used", g.fn.loc)
            key = f.removesuffix("_id")
            ok = False
            for n in g.nodes:
                if n.id not in g.live(): continue
                for t in terms_of(n):
                    for s in subterms(t):
                        if s[0] == "dict":
                            for kv in s[1]:
                                if isinstance(kv, tuple) and len(kv) == 2 and kv[0] == ("const", key):
                                    rr = g.resolve(kv[1], n)
                                    if any(w[0] == "call" and w[1] in {h.id for h in hit} for _, w in leaves(g, kv[1], n)): ok = True
                if n.kind == "substore" and g.resolve(n.index, n) == ("const", key) and any(w[0] == "call" and w[1] in {h.id for h in hit} for _, w in leaves(g, n.value, n)): ok = True
            ck.ob("time-models", f"{K.name}.{f}/handed-over", ok or not hit, f"the {f} is not handed over as {key}", g.fn.loc)


# ---- optimisation moves -------------------------------------------------------------------------------------------------
def moves(ck):
    p = ck.p; A = "prodsys.optimization.adapter_manipulation."
    en = p.enum_values(p.cls(M + "scenario_data.ReconfigurationEnum"))
    g = ck.graph(A + "get_mutation_operations")
    ops = {}
    for r in returns(g):
        for d, v in leaves(g, r.value, r):
            from .steps import elements
            for a, x in elements(g, v, d): ops.setdefault((a.id, g.r(x, a)), (a, x))
    import itertools
    def keep(have):
        def f(l):
            for n, v in en.items():
                m = re.match(r"(!?)\((?:.*ReconfigurationEnum\.%s(?:\.value)?|['\"]%s['\"]) (in|not in) .*transformations\)?" % (n, v), l)
                if m: return ((n in have) == (m.group(2) == "in")) != bool(m.group(1))
            return True
        return f
    WANT = {"PRODUCTION_CAPACITY": {"add_machine", "remove_machine"}, "TRANSPORT_CAPACITY": {"add_transport_resource", "remove_transport_resource"}, "AUXILIARY_CAPACITY": {"add_auxiliary", "remove_auxiliary"},
            "LAYOUT": {"move_machine"}, "SEQUENCING_LOGIC": {"change_control_policy"}, "ROUTING_LOGIC": {"change_routing_policy"}}
    for n in en:
        w = WANT.get(n, set())
        for have in [{n}] + [{n, m} for m in en if m != n]:
            live = reach_under(g, keep(have))
            sel = {g.r(x, a).split(".")[-1] for a, x in ops.values() if a.id in live}
            ck.ob("moves", f"mutation/{n}", bool(sel) and bool(w) and w <= sel, f"the change option {n} leads to {sorted(sel) or 'no mutation'}" + (f" together with {sorted(have - {n})[0]}" if len(have) > 1 else ""), g.fn.loc)
        live = reach_under(g, keep(set(en) - {n}))
        sel = {g.r(x, a).split(".")[-1] for a, x in ops.values() if a.id in live}
        others = set().union(*(v for m, v in WANT.items() if m != n)) | {"change_control_policy", "move_machine"}
        ck.ob("moves", f"mutation/only {n}", not (w - others) & sel, f"{sorted((w - others) & sel)} are applied although {n} is not among the change options", g.fn.loc)
    g = ck.graph(A + "random_configuration", inline=lambda fn: False)
    RAND = {"PRODUCTION_CAPACITY": "get_random_production_capacity", "TRANSPORT_CAPACITY": "get_random_transport_capacity", "AUXILIARY_CAPACITY": "get_random_auxiliary_capacity", "LAYOUT": "get_random_layout", "SEQUENCING_LOGIC": "get_random_control_policies", "ROUTING_LOGIC": "get_random_routing_logic"}
    for n in en:
        c = [x for x in g.calls(RAND.get(n, "?")) if x.id in g.live()]
        for have in [{n}] + [{n, m} for m in en if m != n and (n, m) != ("LAYOUT", "PRODUCTION_CAPACITY")]:
            live = reach_under(g, keep(have))
            ck.ob("moves", f"random configuration/{n}", any(x.id in live for x in c), f"the change option {n} is not used for random configurations" + (f" together with {sorted(have - {n})[0]}" if len(have) > 1 else ""), (c[0] if c else g.fn).loc)
        live = reach_under(g, keep(set(en) - {n}))
        ck.ob("moves", f"random configuration/only {n}", not any(x.id in live for x in c), f"{RAND.get(n)} is applied although {n} is not among the change options", (c[0] if c else g.fn).loc)
    # policies are drawn from the options of their kind
    OPT = {"machine_controllers": "resource_data.ProductionResourceData", "transport_controllers": "resource_data.TransportResourceData", "routing_heuristics": "source_data.SourceData"}
    k = 0
    for f in p.all_funcs(A[:-1]):
        g = ck.graph(f, inline=lambda fn: False)
        for n in g.nodes:
            if n.id not in g.live(): continue
            sites = []
            if n.kind == "store" and n.attr == "routing_heuristic": sites = [("routing_heuristics", n.value)]
            elif n.kind == "store" and n.attr == "control_policy":
                base = g.r(n.base, n)
                sites = [(o, n.value) for o in ("machine_controllers", "transport_controllers") if not ("get_production_resources" in base and o[0] == "t" or "get_transport_resources" in base and o[0] == "m")]
            elif n.kind == "call" and n.name in ("ProductionResourceData", "TransportResourceData") and "control_policy" in n.kw: sites = [("machine_controllers" if n.name[0] == "P" else "transport_controllers", n.kw["control_policy"])]
            for kind, val in sites:
                live = under(ck, g, p.cls(M + OPT[kind]))
                if n.id not in live: continue
                k += 1
                got = set(drawn_from(g, val, n, live, OPT))
                ck.ob("moves", f"{f.name}/{n.get('attr') or n.name}/{kind}", got <= {kind}, f"a {'heuristic' if 'rout' in kind else 'policy'} is drawn from {sorted(got)} instead of {kind}", n.loc)
                if got: ck.ob("moves", f"{f.name}/{n.get('attr') or n.name}/{kind}/drawn", True, "", n.loc)
    ck.need("changes of policies", k, 5)


def drawn_from(g, t, n, live, OPT, depth=0):
    """the lists of options a value comes from (along the live definitions)"""
    for d, w in leaves(g, t, n):
        if d.id not in live and d.id != n.id: continue
        for x in subterms(w):
            if x[0] == "attr" and x[2] in OPT: yield x[2]
            if x[0] == "call" and depth < 6:
                c = g.nodes[x[1]]
                for y in list(c.args) + list(c.kw.values()): yield from drawn_from(g, y, c, live, OPT, depth + 1)


# ---- comparisons --------------------------------------------------------------------------------------------------------
def lint(ck):
    p = ck.p; opt = {}; k = 0
    allf = {}
    for c in p.all_classes():
        for n, (a, v) in c.fields.items():
            if a is None: continue
            allf.setdefault(n, []).append(c)
            if not c.mod.name.startswith((M[:-1], "prodsys.express", "prodsys.simulation", "prodsys.util")): continue
            r = accepted(p, c.mod, a)
            if r is not None: opt.setdefault(n, {})[c.qual] = r
    fields = {n: set().union(*d.values()) for n, d in opt.items() if len(d) == sum(1 for c in allf[n])}
    ck.need("option fields", len(fields), 8)
    for n, d in opt.items():
        # defaults are accepted values
        for q in d:
            c = p.cls(q); v = c.fields[n][1]
            while isinstance(v, ast.Call) and any(kw.arg == "default" for kw in v.keywords): v = next(kw.value for kw in v.keywords if kw.arg == "default")
            if v is None or isinstance(v, ast.Constant) and v.value is None or isinstance(v, (ast.Call, ast.List)): continue
            x = literal(p, c.mod, v)
            ck.ob("known-values", f"{c.name}.{n}/default", x in d[q] or isinstance(x, tuple) and x[0] == "?", f"the default {x!r} of {c.name}.{n} is not an accepted value", c.loc)
    for f in p.all_funcs():
        if not f.mod.name.startswith(("prodsys", "app")): continue
        types = {a.arg: a.annotation for a in f.node.args.args + f.node.args.kwonlyargs if a.annotation is not None}
        for n in ast.walk(f.node):
            if not isinstance(n, ast.Compare): continue
            for o, l, r in zip(n.ops, [n.left] + n.comparators, n.comparators):
                for x, y in ((l, r), (r, l)):
                    if isinstance(x, ast.Attribute) and x.attr in fields and not (isinstance(x.value, ast.Name) and x.value.id in ("os", "sys")):
                        vals = y.elts if isinstance(y, (ast.List, ast.Tuple, ast.Set)) and isinstance(o, (ast.In, ast.NotIn)) else [y] if isinstance(o, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)) else []
                        for v in vals:
                            w = literal(p, f.mod, v)
                            if isinstance(w, tuple) and w[0] == "?" or w is None: continue
                            k += 1
                            ck.ob("known-values", f"{f.mod.name.split('.')[-1]}.{f.short}/{x.attr}", w in fields[x.attr], f"{ast.unparse(n)[:80]}: {x.attr} can never be {w if not isinstance(w, tuple) else w[1]!r}", f"{f.mod.rel}:{n.lineno}")
                # membership tests on configuration objects are never true
                if isinstance(o, (ast.In, ast.NotIn)) and isinstance(l, ast.Constant) and isinstance(l.value, str) and isinstance(r, ast.Name):
                    a = types.get(r.id)
                    if a is None: continue
                    k += 1
                    ck.ob("known-values", f"{f.mod.name.split('.')[-1]}.{f.short}/{l.value} in {r.id}", not is_model(p, f.mod, a), f"{ast.unparse(n)} is never true: {r.id} is a configuration object, not a dictionary", f"{f.mod.rel}:{n.lineno}")
            if False: pass
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "hasattr" and len(n.args) == 2 and isinstance(n.args[1], ast.Constant) and f.cls is not None and f.mod.name.startswith("prodsys.simulation"):
                a = n.args[0]
                if isinstance(a, ast.Attribute) and isinstance(a.value, ast.Name) and a.value.id == "self":
                    fld = f.cls.find_field(a.attr)
                    if not fld or fld[1][0] is None: continue
                    cs = classes_of(p, fld[0].mod, fld[1][0])
                    subs = [s for c in cs for s in [c] + list(p.subclasses(c))]
                    if not subs: continue
                    k += 1
                    nm = n.args[1].value
                    ck.ob("known-values", f"{f.cls.name}/hasattr {a.attr}.{nm}", any(s.find_field(nm) or s.find_method(nm) for s in subs), f"hasattr({ast.unparse(a)}, {nm!r}) is never true: no {cs[0].name} has it", f"{f.mod.rel}:{n.lineno}")
    ck.need("comparisons with option values", k, 8)


def classes_of(p, md, a):
    if isinstance(a, ast.Constant) and isinstance(a.value, str): a = ast.parse(a.value, mode="eval").body
    out = []
    for x in ast.walk(a):
        if isinstance(x, (ast.Name, ast.Attribute)):
            q = md.resolve_expr(x)
            if q and q[0] == "class": out.append(q[1])
    return out


def is_model(p, md, a):
    if isinstance(a, ast.Constant) and isinstance(a.value, str):
        try: a = ast.parse(a.value, mode="eval").body
        except SyntaxError: return False
    q = md.resolve_expr(a) if isinstance(a, (ast.Name, ast.Attribute)) else None
    if q and q[0] == "class": return any("BaseModel" in n for c in q[1].mro() for n in c.base_names())
    if ast.unparse(a).split(".")[-1].endswith("_UNION"): return True
    return False


def metrics(ck):
    """a value of the distance metric never ends in the error branch, each in its own"""
    p = ck.p
    vals = field_values(p, p.cls(M + "time_model_data.DistanceTimeModelData"), "metric")
    g = ck.graph(S + "time_model.DistanceTimeModel.calculate_distance")
    out = {}
    for v in sorted(vals or ()):
        def keep(l):
            m = re.match(r"(!?)\((.*) (==|!=) (.*)\)$", l) if "metric" in l else None
            c = re.search(r"['\"](\w+)['\"]", l) if m else None
            return not c or ((c.group(1) == v) == (m.group(3) == "==")) != bool(m.group(1))
        live = reach_under(g, keep)
        rs = [(d, w) for r in returns(g) if r.id in live for d, w in leaves(g, r.value, r) if d.id in live]
        ex = [n for n in g.nodes if n.kind == "raise" and n.id in live]
        ck.ob("metric", v, bool(rs) and not ex, f"the distance metric {v!r} is accepted but not implemented", g.fn.loc)
        out[v] = {g.r(w, d) for d, w in rs}
    ck.ob("metric", "own", len({frozenset(x) for x in out.values()}) == len(out), "two distance metrics mean the same", g.fn.loc)
    man = out.get("manhattan", set()); euc = out.get("euclidean", set())
    txt = lambda s: " ".join(s).lower()
    ck.ob("metric", "manhattan-sum", not man or ("abs" in txt(man) or "ord=1" in txt(man) or ", 1)" in txt(man) or "cityblock" in txt(man)), "the manhattan distance is not the sum of the absolute differences", g.fn.loc)
    ck.ob("metric", "euclidean-root", not euc or not "abs" in txt(euc), "the euclidean distance adds up absolute differences", g.fn.loc)


def check(ck):
    tables(ck); kpis(ck); lookups(ck); kinds(ck); moves(ck); lint(ck); metrics(ck)
