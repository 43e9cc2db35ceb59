"""P22 Only admissible candidates are simulated and kept."""
TECHNIQUE = "path-sensitive evaluation of the admissibility judgement (which constraint literals hold on every accepting path), effect analysis of every operator against the transformation it is registered for, and must-pass analysis of the normalisation after every change"
NOTE = "Scenarios whose options are empty (no positions, policies or transformations to choose from) are outside the property. A change of a transport resource's control policy is counted as allowed where the repository offers it, under production capacity. Whether the aggregate admissible set is non-empty is not decided."
import re
from ..lib import *
from ..index import FuncInfo, ClassInfo
from .. import peval
from .steps import elements
from . import p23

OPT = "prodsys.optimization"
O, U, AM, AD = OPT + ".optimization", OPT + ".util", OPT + ".adapter_manipulation", "prodsys.adapters.adapter"
QUEUES, STATES, CAPS, SETUP = "add_default_queues_to_resources", "clean_out_breakdown_states_of_resources", "adjust_process_capacities", "add_setup_states_to_machine"
DERIVED = {"ID", "input_queues", "output_queues", "queue_data", "state_ids", "process_capacities", "input_location", "output_location", "reconfiguration_cost"}
ALLOWED = {"PRODUCTION_CAPACITY": {"machines", "location", "control_policy", "process_ids"}, "TRANSPORT_CAPACITY": {"transport resources"}, "AUXILIARY_CAPACITY": {"quantity_in_storages"},
           "LAYOUT": {"location"}, "SEQUENCING_LOGIC": {"control_policy"}, "ROUTING_LOGIC": {"routing_heuristic"}}
MUT = {"append", "extend", "insert", "remove", "pop", "clear", "update", "add", "discard", "sort", "reverse", "setdefault"}


class Some:
    """forwards the obligations of some rules only"""
    def __init__(s, ck, rules): s.ck, s.rules = ck, rules
    def ob(s, rule, *a, **k):
        if rule in s.rules: return s.ck.ob(rule, *a, **k)
    def need(s, *a, **k): pass
    def __getattr__(s, k): return getattr(s.ck, k)


def mod_graph(ck, f, *mods):
    mods = mods or (f.mod.name,)
    return ck.graph(f, inline=lambda x: x.mod.name in mods and x.cls is None and x.name not in (QUEUES, STATES, CAPS, SETUP, "check_valid_configuration"))


# ------------------------------------------------------------------ the judgement
def judgement(ck):
    p = ck.p; f = p.func(O + ".check_valid_configuration"); P = f.all_params(); C, B = P[0], P[1]
    g = ck.graph(f, inline=lambda x: x.mod.name == O and x.name != "get_reconfiguration_cost")
    acc = []
    for st in peval.paths(g, loop=1, limit=20000, exc=True):
        if st.end is not g.exit: continue
        rets = [n for n in st.nodes if n.kind == "assign" and n.key == (g.root.id, "$ret")]
        v = st.r(rets[-1].value) if rets else "None"
        if v in ("False", "None"): continue
        acc.append((st, v))
    ck.ob("constraints", "check_valid_configuration/accepts", bool(acc), "no configuration is ever admissible", f.loc)
    S = re.escape(f"{C}.scenario_data.constraints."); R = re.escape
    el = r"elem\((?:.*)\)"
    lits = {
        "machines": [rf"!\({S}max_num_machines < len\(get_production_resources\({C}\)\)\)"],
        "transport": [rf"!\({S}max_num_transport_resources < len\(get_transport_resources\({C}\)\)\)"],
        "some transport": [rf"!\(0 == len\(get_transport_resources\({C}\)\)\)", rf"\(0 < len\(get_transport_resources\({C}\)\)\)", rf"get_transport_resources\({C}\)", rf"!\(len\(get_transport_resources\({C}\)\) < 1\)", rf"len\(get_transport_resources\({C}\)\)"],
        "processes per machine": [rf"!\({S}max_num_processes_per_machine < len\(get_grouped_processes_of_machine\({el}, get_possible_production_processes_IDs\({C}\)\)\)\)"],
        "auxiliaries": [rf"\(0 < sum\(elem\(get_required_auxiliaries\({C}\)\)\.quantity_in_storages\)\)"],
        "allowed positions": [rf"\({el} in {C}\.scenario_data\.options\.positions\)"],
        "cost": [rf"!\({S}max_reconfiguration_cost < get_reconfiguration_cost\((?:adapter_object=)?{C}, (?:baseline=)?{B}\)\)"],
    }
    loops = {}
    for name, pats in lits.items():
        hit = [False] * len(acc)
        for i, (st, v) in enumerate(acc):
            xs = [("" if pol else "!") + st.r(t) for t, pol in st.order] + ([v] if v != "True" else [])
            hit[i] = any(re.fullmatch(q, x) for q in pats for x in xs)
        ok = any(hit)
        heads = set()          # the loops the test stands in
        for i, (st, v) in enumerate(acc):
            if hit[i]:
                for n in st.nodes:
                    if n.kind == "branch" and any(re.fullmatch(q, pre + x) for q in pats for pre in ("", "!") for x in (st.r(n.term), g.r(n.term, n), st.r(n.term).lstrip("!"))): heads |= {h.id for h in lexical(g, n)}
        if heads: loops[name] = heads
        if ok and not all(hit):
            # accepted without the test: only if the loop the test stands in had nothing to look at
            ok = bool(heads)
            for i, (st, v) in enumerate(acc):
                if not hit[i]:
                    its = {n.of for n in st.nodes if n.kind == "edge" and g.nodes[n.of].kind == "loophead" and n.label == "iter"}
                    ok = ok and not (heads & its)
        ck.ob("constraints", f"check_valid_configuration/{name}", ok, f"a configuration is accepted without the constraint on {name} being fulfilled", f.loc)
        for h in loops.get(name, ()):
            hd = g.nodes[h]; src = g.r(hd.iter, hd)
            want = {"processes per machine": (f"{C}.resource_data", f"get_production_resources({C})"), "auxiliaries": (f"get_required_auxiliaries({C})",), "allowed positions": None}.get(name)
            if want is not None: ck.ob("constraints", f"check_valid_configuration/{name}/all", src in want, f"only {src[:100]} are looked at", hd.loc)
            # the loop is left early only to reject
            bad = [st for st, v in acc if h in {n.id for n in st.nodes} and not any(n.kind == "edge" and n.of == h and n.label != "iter" for n in st.nodes)]
            ck.ob("constraints", f"check_valid_configuration/{name}/each", not bad, f"the constraint on {name} is not tested for every element", hd.loc)
    # comparisons by other functions that raise
    for name in ("assert_no_redudant_locations", "assert_required_processes_in_resources_available"):
        q = [n for n in g.nodes if n.kind == "call" and n.id in g.live() and any(isinstance(c, FuncInfo) and c.name == name for c in n.get("cands") or ())]
        good = {n.id for n in q if n.args and g.r(n.args[0], n) == C}
        ok = bool(good) and all(good & {n.id for n in st.nodes} for st, v in acc)
        ck.ob("constraints", f"check_valid_configuration/{name}", ok, "a configuration is accepted without having been tested", f.loc)
    ok = not any(n.kind == "handler" for st, v in acc for n in st.nodes)
    ck.ob("constraints", "check_valid_configuration/failures", ok, "a configuration is accepted although a test has failed", f.loc)
    # positions that are compared: those of all machines
    for n in g.nodes:
        if n.kind == "branch" and re.fullmatch(rf"!?\(?{el} (?:not )?in {C}\.scenario_data\.options\.positions\)?", g.r(n.term, n)):
            t = g.r(n.term, n)
            ck.ob("constraints", "check_valid_configuration/whose position", "get_production_resources(" in t and ".location" in t, f"the tested positions are not those of the machines: {t[:120]}", n.loc)


def locations(ck):
    """No two of machines, sources, sinks and stores stand at one place."""
    p = ck.p; f = p.func(AD + ".assert_no_redudant_locations"); A = f.all_params()[0]
    g = ck.graph(f, inline=lambda x: x.mod.name == AD and x.name not in ("get_production_resources", "get_location_of_locatable", "remove_duplicate_locations"))
    rs = [n for n in g.nodes if n.kind == "raise" and n.id in g.live()]
    ck.ob("distinct-locations", "locations/raise", bool(rs), "two objects at one place are accepted", f.loc)
    for n in rs:
        at = g.guard_set(n)
        ok = any(re.fullmatch(r"\(1 < (.*)\.count\(elem\((.*)\)\)\)|!\((.*)\.count\(elem\((.*)\)\) < 2\)", x) for x in at) or any("len(" in x and "set(" in x for x in at) or any(" in " in x and not x.startswith("!") for x in at)
        ck.ob("distinct-locations", "locations/when", ok, "objects at one place are not told apart from others", n.loc)
        hs = [g.nodes[e.of] for e in g.guards(n) if g.nodes[e.of].kind == "loophead" and e.label == "iter"]
        lists = [(h, h.iter) for h in hs]
        srcs = sources_of(g, lists)
        for what, pat in (("machines", "get_production_resources("), ("sources", ".source_data"), ("sinks", ".sink_data"), ("stores", ".queue_data")):
            ck.ob("distinct-locations", f"locations/{what}", any(pat in s for s in srcs), f"the locations of {what} are not compared", n.loc)


def sources_of(g, lists, depth=0, seen=None, parts=False):
    """texts of everything a list is built from (parts: a part of a result does not stand for the whole result)"""
    out = set(); seen = seen if seen is not None else set()
    for n, t in lists:
        for d, v in leaves(g, t, n):
            k = (d.id, repr(v))
            if k in seen or depth > 12: continue
            seen.add(k); out.add(g.r(v, d))
            if v[0] == "bin": out |= sources_of(g, [(d, v[2]), (d, v[3])], depth + 1, seen, parts)
            elif v[0] == "call":
                c = g.nodes[v[1]]; out |= sources_of(g, [(c, a) for a in list(c.args) + list(c.kw.values())], depth + 1, seen, parts)
            elif v[0] == "elem": out |= sources_of(g, [(g.nodes[v[2]], v[1])], depth + 1, seen, parts)
            elif v[0] == "comp":
                e = g.nodes[g.comps[v[2]]["elt"]]; out |= sources_of(g, [(e, x) for x in (e.get("vals") or [e.value])] + [(g.nodes[h], g.nodes[h].iter) for h in g.comps[v[2]]["heads"]], depth + 1, seen, parts)
            elif v[0] in ("attr", "item", "unpack"):
                if v[0] == "attr" or not parts: out |= sources_of(g, [(d, v[1])], depth + 1, seen, parts)
            elif v[0] in ("list", "tuple"): out |= sources_of(g, [(d, x) for x in v[1]], depth + 1, seen, parts)
            if v[0] == "list" or v[0] == "bin":
                out |= sources_of(g, [(a, x) for a, x in elements(g, t, n)] if v[0] == "list" else [], depth + 1, seen, parts)
                key = t if t[0] == "var" else None
                if key is not None:
                    for m in g.nodes:
                        if m.kind == "assign" and m.id in g.live() and m.key == (t[1], t[2]) and m.get("aug"): out |= sources_of(g, [(m, m.aug[1])], depth + 1, seen, parts)
                        if m.kind == "call" and m.id in g.live() and m.name == "extend" and m.recv == t and m.args: out |= sources_of(g, [(m, m.args[0])], depth + 1, seen, parts)
    return out


# ------------------------------------------------------------------ the cost
def cost(ck):
    p = ck.p; f = p.func(O + ".get_reconfiguration_cost"); P = f.all_params(); C, B = P[0], P[1]
    g = ck.graph(f, inline=lambda x: x.mod.name == O)
    seen = {}
    for n in g.nodes:
        if n.kind != "call" or n.name != "max" or n.id not in g.live() or len(n.args) != 2: continue
        xs = [(d, v) for a in n.args for d, v in [p23.only(g, a, n)]]
        pr = [(d, v) for d, v in xs if v[0] == "bin"]
        zero = [v for d, v in xs if v == ("const", 0)]
        if not pr or not zero: continue
        d, v = pr[0]; txt = g.r(v, d)
        kind = next((k for k in ("machine_cost", "transport_resource_cost", "process_module_cost", "auxiliary_cost") if "." + k in txt), None)
        if kind is None: continue
        diff = None
        if v[1] == "*":
            for s in (v[2], v[3]):
                ds, x = p23.only(g, s, d)
                if x[0] == "bin" and x[1] == "-": diff = (ds, x)
        seen.setdefault(kind, []).append((n, diff))
        new, old = {"machine_cost": ("get_production_resources(%s)",) * 2, "transport_resource_cost": ("get_transport_resources(%s)",) * 2, "process_module_cost": ("get_num_of_process_modules(%s)",) * 2, "auxiliary_cost": ("%s.auxiliary_data",) * 2}[kind]
        ok = diff is not None and new % C in g.r(diff[1][2], diff[0]) and old % B in g.r(diff[1][3], diff[0]) and new % C not in re.sub(r"elem\(.*?\)", "", "") + ("" if kind in ("process_module_cost", "auxiliary_cost") else g.r(diff[1][3], diff[0]))
        ck.ob("cost", f"reconfiguration cost/{kind}", ok, f"the cost is not the price of what the candidate has more than the base configuration: {txt[:160]}", n.loc)
        if kind in ("process_module_cost", "auxiliary_cost"):
            info = [x for s in (v[2], v[3]) for x in leaves(g, s, d)]
            ok = any(x[0] == "bin" and x[1] == "-" for _, x in info)
            hs = lexical(g, n)
            ck.ob("cost", f"reconfiguration cost/{kind}/each", bool(hs) and all(p23.complete(g, h) for h in hs), "not every module or auxiliary is counted", n.loc)
            ck.ob("cost", f"reconfiguration cost/{kind}/sum", accumulated(g, n), "only one module or auxiliary is counted", n.loc)
    for k in ("machine_cost", "transport_resource_cost", "process_module_cost", "auxiliary_cost"):
        ns = seen.get(k)
        ck.ob("cost", f"reconfiguration cost/{k}/part", bool(ns), "a part of the cost is missing", f.loc)
        for n, _ in ns or ():
            for r in returns(g):
                ok = flows_into(g, n, r)
                ck.ob("cost", f"reconfiguration cost/{k}/total", ok, "a part of the cost is not added to the total", r.loc)


def lexical(g, n):
    """loops a node stands in, also those it always leaves"""
    out = {h.id: h for h in g.loops_of(n)}
    for e in g.guards(n):
        h = g.nodes[e.of]
        if h.kind == "loophead" and e.label == "iter": out[h.id] = h
    return list(out.values())


def accumulated(g, n):
    """is the result of n added to what was added before?"""
    tgt = {("call", n.id)}; names = set()
    for _ in range(6):
        for m in g.nodes:
            if m.kind == "assign" and m.id in g.live() and uses(m.value, tgt, names):
                if m.value[0] == "bin" and m.value[1] == "+" and any(x == ("var",) + m.key for x in m.value[2:4]): return True
                names.add(m.key)
    for c in g.nodes:
        if c.kind == "call" and c.name in ("sum", "fsum") and c.id in g.live() and c.args:
            for d, v in leaves(g, c.args[0], c):
                if v[0] == "comp":
                    e = g.nodes[g.comps[v[2]]["elt"]]
                    if any(uses(x, tgt, names) for x in (e.get("vals") or [e.value])): return True
            for m in g.nodes:
                if m.kind == "call" and m.name == "append" and m.recv == c.args[0] and any(uses(x, tgt, names) for x in m.args): return True
    return False


def flows_into(g, n, r):
    """does the result of call n flow into the value returned at r (through accumulators)?"""
    tgt = {("call", n.id)}; names = set()
    for _ in range(8):
        for m in g.nodes:
            if m.kind == "assign" and m.id in g.live() and (uses(m.value, tgt, names)): names.add(m.key)
    return uses(r.value, tgt, names)


def uses(t, calls, names):
    if not isinstance(t, tuple) or not t: return False
    if t in calls: return True
    if t[0] == "var" and (t[1], t[2]) in names: return True
    return any(isinstance(x, tuple) and uses(x, calls, names) for x in t)


# ------------------------------------------------------------------ operators
def label(g, n, attr, val, removed=False):
    """production/transport resources that a change of the list of resources concerns"""
    txt = g.r(val, n) if val is not None else ""
    out = set()
    if "ProductionResourceData(ID" in txt or "get_production_resources(" in txt or re.search(r"isinstance\([^|]*, ProductionResourceData\)", txt): out.add("machines")
    if "TransportResourceData(ID" in txt or "get_transport_resources(" in txt or re.search(r"isinstance\([^|]*, TransportResourceData\)", txt): out.add("transport resources")
    if removed: out = {"machines", "transport resources"} - out
    return out or {"resources"}


def writes(ck, f):
    """{(what, node)}: the parts of a configuration an operator changes"""
    g = mod_graph(ck, f); out = set()
    for n in g.nodes:
        if n.id not in g.live(): continue
        if n.kind == "store":
            if n.attr == "resource_data":
                if n.get("aug"): out |= {(x, n.id) for x in label(g, n, n.attr, n.aug[1])}
                else: out |= {(x, n.id) for x in label(g, n, n.attr, n.value, True)}
            else: out.add((n.attr, n.id))
        elif n.kind in ("substore", "del") and n.get("base") is not None:
            for d, v in leaves(g, n.base, n):
                if v[0] == "attr": out.add((v[2], n.id))
        elif n.kind == "call" and n.recv is not None and n.name in MUT and not n.get("cands"):
            for d, v in leaves(g, n.recv, n):
                if v[0] == "attr" and "scenario_data" not in g.r(v, d):
                    if v[2] == "resource_data": out |= {(x, n.id) for x in label(g, n, v[2], n.args[0] if n.args else None)}
                    else: out.add((v[2], n.id))
        elif n.kind == "call" and n.name == "setattr": out.add((g.r(n.args[1], n), n.id))
    return g, out


def scopes(ck):
    """operators and the transformations they are offered for"""
    p = ck.p; f = p.func(AM + ".get_mutation_operations"); g = mod_graph(ck, f)
    seen = set(); ops = {}
    for r in returns(g):
        for d, v in leaves(g, r.value, r):
            for n, x in elements(g, v, d):
                for dd, q in leaves(g, x, n):
                    h = func_of(p, q)
                    if h is None: ck.ob("operator-scope", "get_mutation_operations/known", False, f"an operation is {g.r(q, dd)[:80]}", n.loc); continue
                    tr = [m.group(1) for l in g.guard_set(n) | g.guard_set(dd) for m in [re.search(r"^\(ReconfigurationEnum\.(\w+) in .*\.transformations\)$", l)] if m]
                    ck.ob("operator-scope", f"{h.name}/offered", bool(tr), "an operation is offered although no transformation allows it", n.loc)
                    for t in tr: seen.add(t); ops.setdefault(h.qual, (h, set()))[1].add(t)
    for t in ALLOWED: ck.ob("operator-scope", f"get_mutation_operations/{t}", t in seen, "a transformation has no operation", f.loc)
    rc = p.func(AM + ".random_configuration"); gr = ck.graph(rc, inline=lambda x: False)
    for n in gr.nodes:
        if n.kind != "call" or n.id not in gr.live(): continue
        for h in n.get("cands") or ():
            if isinstance(h, FuncInfo) and h.mod.name == AM:
                _, w = writes(ck, h)
                if not {x for x, _ in w} - DERIVED: continue
                tr = [m.group(1) for l in gr.guard_set(n) for m in [re.search(r"^\(ReconfigurationEnum\.(\w+) in .*\.transformations\)$", l)] if m]
                ck.ob("operator-scope", f"random_configuration/{h.name}", bool(tr), "a random configuration changes what no transformation allows", n.loc)
                if tr: ops.setdefault(h.qual, (h, set()))[1].add(tr[0] if len(tr) == 1 else "|".join(tr))
    ck.need("operators", len(ops), 8)
    for h, trs in ops.values():
        g, w = writes(ck, h)
        what = {x for x, _ in w} - DERIVED
        ck.ob("operator-scope", f"{h.name}/effect", bool(what), "an operation changes nothing", h.loc)
        for t in trs:
            ok = set().union(*[ALLOWED.get(x, set()) for x in t.split("|")])
            for x, nid in sorted(w):
                if x in DERIVED: continue
                ck.ob("operator-scope", f"{h.name}/{t}/{x}", x in ok, f"an operation offered for {t} changes {x}", g.nodes[nid].loc)
    return [h for h, _ in ops.values()]


def func_of(p, v):
    if v[0] == "func": return v[1] if isinstance(v[1], FuncInfo) else p.func(v[1])
    if v[0] == "glob":
        m = p.modules.get(v[1]); r = m.lookup(v[2]) if m else None
        if r and r[0] == "func": return r[1]
    return None


OPTION = {"routing_heuristic": ("routing_heuristics",), "location": ("positions",)}


def choices(ck, ops):
    """changed values are among the options; lists are changed without failing"""
    p = ck.p; k = 0
    for h in ops:
        g = mod_graph(ck, h)
        for n in g.nodes:
            if n.id not in g.live(): continue
            if n.kind == "store" and n.attr in OPTION:
                for o in OPTION[n.attr]:
                    ck.ob("from-options", f"{h.name}/{n.attr}", f".options.{o}" in g.r(n.value, n), f"the new {n.attr} is not one of the options", n.loc); k += 1
            if n.kind == "store" and n.attr == "control_policy": policy(ck, h, g, n); k += 1
            if n.kind == "call" and n.name in ("ProductionResourceData", "TransportResourceData"):
                kw = n.kw
                o = "machine_controllers" if n.name.startswith("Prod") else "transport_controllers"
                ck.ob("from-options", f"{h.name}/new policy", "control_policy" in kw and f".options.{o}" in g.r(kw["control_policy"], n), "a new resource's policy is not one of the options for it", n.loc)
                if n.name.startswith("Prod"): ck.ob("from-options", f"{h.name}/new position", "location" in kw and ".options.positions" in g.r(kw["location"], n), "a new machine's position is not one of the options", n.loc)
                src = "get_possible_production_processes_IDs(" if n.name.startswith("Prod") else "get_possible_transport_processes_IDs("
                ck.ob("from-options", f"{h.name}/new processes", "process_ids" in kw and src in g.r(kw["process_ids"], n), "a new resource's processes are not among the possible ones", n.loc)
                ck.ob("new-identity", f"{h.name}/ID", "ID" in kw and "uuid" in g.r(kw["ID"], n), "a new resource has no new ID", n.loc); k += 1
            if n.kind == "call" and n.name == "remove" and n.recv is not None and not n.get("cands"):
                L = g.r(n.recv, n); x = g.r(n.args[0], n)
                ok = f"({x} in {L})" in g.guard_set(n) or drawn(x, L)
                ck.ob("no-failure", f"{h.name}/remove {kind_of(L)}", ok, f"removing {x[:80]} fails if it is not in the list", n.loc)
            if n.kind == "call" and n.name == "append" and n.recv is not None and g.r(n.recv, n).endswith(".process_ids"):
                L = g.r(n.recv, n); x = g.r(n.args[0], n)
                ck.ob("no-duplicates", f"{h.name}/process", f"!({x} in {L})" in g.guard_set(n), "a process can be added to a machine that has it already", n.loc)
            if n.kind == "call" and n.name in ("choice", "sample") and n.args:
                for d, v in leaves(g, n.args[0], n):
                    t = g.r(v, d)
                    if ".options." in t or t.startswith("range(") or v[0] == "list" or t.endswith(".source_data") or "get_possible_" in t and "get_grouped" not in t: continue
                    T = g.r(n.args[0], n)
                    ck.ob("no-failure", f"{h.name}/choice {kind_of(T)}", any(T in l or t in l for l in g.guard_set(n)), f"choosing from {t[:80]} fails if there is none", n.loc)
    ck.need("option obligations", k, 6)
    # quantities of auxiliaries: within what the storage holds, not below zero
    for h in ops:
        g = mod_graph(ck, h)
        for n in g.nodes:
            if n.kind != "substore" or n.id not in g.live() or not g.r(n.base, n).endswith(".quantity_in_storages"): continue
            at = g.guard_set(n); old = f"{g.r(n.base, n)}[{g.r(n.index, n)}]"; val = n.value
            if n.get("aug"):
                up = val[1] == "+"
                if up: ok = any(".capacity" in l and old in l for l in at)
                else: ok = any(l in (f"!(0 == {old})", f"(0 < {old})", f"!({old} == 0)", f"({old} > 0)", old, f"!({old} < 1)") for l in at)
            else:
                ok = any(".capacity" in x for x in sources_of(g, [(n, val)]))
                for d, v in leaves(g, val, n):
                    t = g.r(v, d)
                    if "random." in t: ok = ok and bool(re.fullmatch(r"random\.choice\(range\([01], \(1 \+ (.*)\)\)\)|random\.randint\([01], (.*)\)|random\.randrange\([01], \(1 \+ (.*)\)\)", t))
            ck.ob("within-storage", f"{h.name}/quantity", ok, "a quantity of auxiliaries can leave the range the storage allows", n.loc)


def kind_of(L):
    m = re.search(r"(\w+)\)*$", L); return m.group(1) if m else "list"


def drawn(x, L):
    if x.startswith((f"random.choice({L}", f"elem({L}")): return True
    if L.endswith(".resource_data") and ("get_production_resources(" in x or "get_transport_resources(" in x or f"elem({L})" in x): return True
    return f"elem({L})" in x and x.startswith("random.choice(")


def comps_in(t):
    if not isinstance(t, tuple): return []
    if len(t) == 3 and t[0] == "comp": return [t[2]]
    return [c for x in t for c in comps_in(x)]


def policy(ck, h, g, n):
    """the new policy of a resource is one of the options for its kind"""
    bad = None
    for st in peval.paths(g, stop=lambda m: m is n, loop=1, limit=4000):
        if st.end is not n: continue
        v = st.r(n.value); cs = comps_in(st.close(n.value))
        if cs: v = " ".join(st.r(g.nodes[h].iter) for c in cs for h in g.comps[c]["heads"])      # filtered on this path
        b = st.r(n.base); L = [("" if pol else "!") + st.r(t) for t, pol in st.order]
        prod = any(l == f"isinstance({b}, ProductionResourceData)" for l in L) or "get_production_resources(" in b or any(l == f"!isinstance({b}, TransportResourceData)" for l in L)
        tran = any(l == f"!isinstance({b}, ProductionResourceData)" for l in L) or "get_transport_resources(" in b or any(l == f"isinstance({b}, TransportResourceData)" for l in L)
        want = ".options.machine_controllers" if prod else ".options.transport_controllers" if tran else None
        other = ".options.transport_controllers" if prod else ".options.machine_controllers"
        if want is None or want not in v or other in v: bad = (v, b)
    ck.ob("from-options", f"{h.name}/control_policy", bad is None, f"the new policy is not one of the options for this kind of resource: {bad and bad[0][:100]}", n.loc)


# ------------------------------------------------------------------ candidates are consistent after an operator
def consistent(ck):
    p = ck.p
    for name in ("mutation", "crossover", "random_configuration"):
        f = p.func(AM + "." + name); g = mod_graph(ck, f); cands = {}
        own = {x.qual for x in p.all_funcs(AM)}
        for n in g.nodes:
            if n.id not in g.live(): continue
            c = None
            if n.kind == "store" and n.attr in ("resource_data",): c = [g.r(n.base, n)]
            if n.kind == "call" and n.recv is None and n.name not in (QUEUES, STATES, CAPS) and not n.get("inlined"):
                quals = [x for x in n.get("cands") or () if isinstance(x, FuncInfo)]
                if not quals and n.func and n.func[0] in ("call", "var", "item") and n.args: c = [g.r(n.args[0], n)]     # an operation chosen at run time
            for x in c or (): cands.setdefault(x, []).append(n)
        ck.ob("consistent", f"{name}/changes", bool(cands), "the operator changes no candidate", f.loc)
        inner = "random" in name
        changes = {}
        if inner:
            g = ck.graph(f, inline=lambda x: False); cands = {}
            for n in g.nodes:
                if n.kind == "call" and n.id in g.live() and n.args and any(isinstance(x, FuncInfo) and x.qual in own for x in n.get("cands") or ()): cands.setdefault(g.r(n.args[0], n), []).append(n)
        for c, ms in sorted(cands.items()):
            for N, what in ((QUEUES, "queues"), (STATES, "failure states"), (CAPS, "process capacities")):
                ns = [n for n in g.nodes if n.kind == "call" and n.id in g.live() and n.name == N and n.args and same(g, n.args[0], n, c)]
                ends = [g.exit]
                bad = [m for m in ms if not ns or g.path_avoiding(m, g.exit, ns)]
                ck.ob("consistent", f"{name}/{what}", not bad, f"a changed candidate is returned without its {what} having been made consistent", (bad or ms)[0].loc)
    # setup states follow the processes of a machine
    k = 0
    for f in p.all_funcs(AM):
        if f.name.startswith("_") and False: continue
        g = mod_graph(ck, f)
        for n in g.nodes:
            if n.kind == "call" and n.id in g.live() and n.recv is not None and n.name in MUT and n.recv[0] in ("attr", "var") and not n.get("cands"):
                for d, v in leaves(g, n.recv, n):
                    if v[0] != "attr" or v[2] != "process_ids": continue
                    own = thing(g, v[1], d)
                    ss = [m for m in g.nodes if m.kind == "call" and m.id in g.live() and m.name == SETUP and len(m.args) + len(m.kw) >= 2 and any(x[0] == "attr" and x[2] == "ID" and thing(g, x[1], e) == own for a in list(m.args) + list(m.kw.values()) for e, x in leaves(g, a, m))]
                    ok = bool(ss) and not g.path_avoiding(n, g.exit, ss); k += 1
                    ck.ob("consistent", f"{f.name}/setup states", ok, "the processes of a machine change, its setup states do not", n.loc)
    # accepted random configurations
    f = p.func(AM + ".random_configuration"); g = ck.graph(f, inline=lambda x: x.mod.name == AM and x.name.startswith("_")); B = f.all_params()[0]
    for r in returns(g):
        want = thing(g, r.value, r)
        def judged(d, x):
            """1 admissible, -1 not admissible, 0 anything else; a constant counts for the side it stands on"""
            if x[0] == "not": return -judged(d, x[1])
            if x[0] == "const": return 2 if x[1] else -2
            if x[0] == "call":
                c = g.nodes[x[1]]; m = argmap(c, p.func(O + ".check_valid_configuration"), bound=False)
                if c.name == "check_valid_configuration" and len(m) == 2:
                    c0, b0 = list(p.func(O + ".check_valid_configuration").all_params())[:2]
                    if thing(g, m[c0], c) == want and g.r(m[b0], c) == B: return 1
            return 0
        good = []
        for e in g.nodes:
            if e.kind != "edge" or e.id not in g.live() or g.nodes[e.of].kind != "branch": continue
            br = g.nodes[e.of]; js = {judged(d, v) * (1 if e.label else -1) for d, v in leaves(g, br.term, br)}
            if js and js <= {1, -2} and 1 in js: good.append(e)
        ok = bool(good) and not g.path_avoiding(g.entry, r, good)
        ck.ob("kept-admissible", "random_configuration", ok, "a random configuration is returned that was not judged admissible", r.loc)


def thing(g, t, n):
    """the objects a term can stand for, told apart by where they come from"""
    return frozenset(v if v[0] != "call" else ("call", v[1]) for d, v in leaves(g, t, n))


def same(g, t, n, c): return g.r(t, n) == c or any(g.r(v, d) == c for d, v in leaves(g, t, n))


def unique(ck):
    """crossover: no ID occurs twice in a candidate"""
    p = ck.p; f = p.func(AM + ".crossover"); g = mod_graph(ck, f)
    ch = {}
    for n in g.stores("resource_data"):
        if n.id in g.live(): ch.setdefault(g.r(n.base, n), []).append(n)
    ck.ob("unique-resources", "crossover/children", len(ch) == 2, "a crossover does not exchange resources between two candidates", f.loc)
    for c, ns in ch.items():
        fix = []
        for s in g.stores("ID"):
            if s.id not in g.live() or s in ns: continue
            hs = [h for h in g.loops_of(s) if g.r(h.iter, h).startswith(f"{c}.resource_data") or same(g, h.iter, h, f"{c}.resource_data")]
            if not hs: continue
            at = [l for l in g.guard_set(s) if " in " in l and not l.startswith("!") and ".ID" in l]
            adds = [m for m in g.nodes if m.kind == "call" and m.id in g.live() and m.name in ("add", "append") and m.args and g.r(m.args[0], m).endswith(".ID") and any(x.id == hs[0].id for x in g.loops_of(m))]
            okadd = adds and p23.per_pass(g, hs[0], {m.id for m in adds}) <= {1}
            if at and okadd and p23.complete(g, hs[0]): fix.append(hs[0])
        ok = bool(fix) and all(not g.path_avoiding(n, g.exit, fix) for n in ns)
        ck.ob("unique-resources", "crossover/IDs", ok, "a candidate assembled from two candidates can contain two resources with the same ID", ns[0].loc)


# ------------------------------------------------------------------ normalisation
def normalisation(ck):
    p = ck.p
    # capacities
    f = p.func(U + "." + CAPS); A = f.all_params()[0]; g = mod_graph(ck, f)
    st = [n for n in g.stores("process_capacities") if n.id in g.live()]
    ck.ob("capacities", "adjust_process_capacities", bool(st), "process capacities are not set", f.loc)
    for n in st:
        b = g.r(n.base, n); v = g.r(n.value, n)
        ok = v in (f"([{b}.capacity] * len({b}.process_ids))", f"(len({b}.process_ids) * [{b}.capacity])", f"listcomp({b}.capacity for {b}.process_ids)")
        ck.ob("capacities", "adjust_process_capacities/value", ok, f"a resource does not get one capacity per process: {v[:100]}", n.loc)
        hs = g.loops_of(n)
        ck.ob("capacities", "adjust_process_capacities/all", len(hs) == 1 and g.r(hs[0].iter, hs[0]) == f"{A}.resource_data" and p23.complete(g, hs[0]) and p23.per_pass(g, hs[0], {n.id}) == {1}, "not every resource's capacities are set", n.loc)
    # states
    f = p.func(U + "." + STATES); A = f.all_params()[0]; g = ck.graph(f, inline=lambda x: x.mod.name == U and x.name != "check_breakdown_state_available" and x.cls is None)
    kinds = set()
    for n in g.stores("state_ids"):
        if n.id not in g.live(): continue
        b = g.r(n.base, n); at = g.guard_set(n)
        kind = "machine" if any(l == f"isinstance({b}, ProductionResourceData)" for l in at) else "transport" if any(l == f"isinstance({b}, TransportResourceData)" for l in at) else None
        ck.ob("states", "clean_out/kind", kind is not None, "states are assigned to resources of any kind", n.loc)
        kinds.add(kind)
        parts = []
        def split(d, t):
            for dd, v in leaves(g, t, d):
                if v[0] == "bin" and v[1] == "+": split(dd, v[2]); split(dd, v[3])
                else: parts.append((dd, v, t))
        split(n, n.value)
        kept = False
        for dd, v, t in parts:
            if v[0] == "comp" and any(f"{b}.state_ids" in g.r(g.nodes[h].iter, g.nodes[h]) for h in g.comps[v[2]]["heads"]): kept = True; continue
            for m, x in elements(g, v, dd) if v[0] in ("list", "comp") else []:
                t2 = g.r(x, m); gs = g.guard_set(m) | at
                if f"{b}.state_ids" in t2: kept = True; continue
                ok = any(l.startswith("check_breakdown_state_available(") and t2 in l for l in gs) or any("BREAKDOWN_STATE" in t2 and t2 in l and not l.startswith("!") and ".state_data" in l for l in gs)
                ck.ob("states", f"clean_out/{kind}/available", ok, f"a state is assigned that the candidate need not have: {t2[:80]}", m.loc)
                if kind == "machine": ck.ob("states", "clean_out/machine/fits", "TRANSPORT" not in t2, "a machine gets the failure state of transport resources", m.loc)
                else: ck.ob("states", "clean_out/transport/fits", "TRANSPORT" in t2, "a transport resource gets the failure state of machines", m.loc)
        ck.ob("states", f"clean_out/{kind}/kept", kept, "states that are no failure states get lost", n.loc)
        hs = g.loops_of(n)
        ck.ob("states", f"clean_out/{kind}/all", any(g.r(h.iter, h) == f"{A}.resource_data" and p23.complete(g, h) for h in hs), "not every resource is looked at", n.loc)
    for k in ("machine", "transport"): ck.ob("states", f"clean_out/{k}", k in kinds, f"the failure states of a {k} are not made consistent", f.loc)
    # process failure states belong to the processes the machine has
    f = p.func(U + ".get_breakdown_state_ids_of_machine_with_processes"); P = f.all_params()[0]; g = mod_graph(ck, f, "-")
    el = [(m, x) for r in returns(g) for d, v in leaves(g, r.value, r) for m, x in elements(g, v, d)]
    ok = any(f"elem({P})" in g.r(x, m) for m, x in el) and any("MACHINE_BREAKDOWN_STATE" in g.r(x, m) for m, x in el)
    ck.ob("states", "machine failure states", ok, "a machine's failure states are not those of machines and of its processes", f.loc)
    # queues
    f = p.func(AD + "." + QUEUES); A = f.all_params()[0]; g = ck.graph(f, inline=lambda x: x.mod.name == AD and x.cls is None and x.name not in ("get_default_queues_for_resource", "get_production_resources", "get_set_of_IDs", QUEUES))
    add = [n for n in g.stores("queue_data") if n.id in g.live()] + [n for n in g.nodes if n.kind == "call" and n.id in g.live() and n.name in ("extend", "append") and n.recv is not None and g.r(n.recv, n) == f"{A}.queue_data"]
    refs = [n for n in g.stores("input_queues") + g.stores("output_queues") if n.id in g.live() and "ID" in g.r(n.value, n)]
    clr = [n for n in g.stores("input_queues") + g.stores("output_queues") if n.id in g.live() and g.r(n.value, n) == "[]"]
    rem = [n for n in g.nodes if n.kind == "call" and n.id in g.live() and n.name == "remove" and n.recv is not None and g.r(n.recv, n) == f"{A}.queue_data"] + [n for n in add if n.kind == "store" and not n.get("aug") and f"elem({A}.queue_data)" in g.r(n.value, n)]
    ck.ob("queues", "default queues/added", bool(add), "the default queues of a machine are not added to the configuration", f.loc)
    srcs = sources_of(g, [(n, (n.aug[1] if n.get("aug") else n.value) if n.kind == "store" else n.args[0]) for n in add], parts=True)
    got = {}
    for n in refs:
        ids = [x for x in sources_of(g, [(n, n.value)], parts=True) if x in srcs and "get_default_queues_for_resource(" in x]
        got.setdefault(n.attr, set()).update(x for x in ids if re.search(r"\[\d\]$", x))
        ck.ob("queues", f"default queues/{n.attr}", bool(ids), "a machine refers to queues that are not added to the configuration", n.loc)
        hs = g.loops_of(n)
        ck.ob("queues", f"default queues/{n.attr}/all", any(g.r(h.iter, h) == f"get_production_resources({A})" and p23.complete(g, h) and p23.per_pass(g, h, {n.id}) == {1} for h in hs), "not every machine gets its queues", n.loc)
        ck.ob("queues", f"default queues/{n.attr}/own", all("elem(" in x for x in ids), "queues of another machine are used", n.loc)
    for a in ("input_queues", "output_queues"): ck.ob("queues", f"default queues/{a}/set", any(n.attr == a for n in refs), "a machine keeps no queues", f.loc)
    ck.ob("queues", "default queues/distinct", not (got.get("input_queues", set()) & got.get("output_queues", set())), "input and output queues of a machine are the same", f.loc)
    ck.ob("queues", "default queues/old", bool(rem) and all(any(g.reaches(r, n) for r in rem) for n in add if n not in rem), "old queues of a machine stay in the configuration", f.loc)
    for n in rem:
        t = " ".join(sources_of(g, [(g.nodes[h.id], h.iter) for h in g.loops_of(n)] + [(n, n.args[0])]) | g.guard_set(n)) if n.kind == "call" else g.r(n.value, n)
        for what, pats in (("machines", (r"get_production_resources\(\w*\)\)\.input_queues", r"get_production_resources\(\w*\)\)\.output_queues")), ("sources", (r"\.source_data\)\.output_queues",)), ("sinks", (r"\.sink_data\)\.input_queues",)), ("auxiliaries", (r"\.auxiliary_data\)\.storages",))):
            ck.ob("queues", f"unused queues/{what}", all(re.search(x, t) for x in pats), f"queues that {what} use are removed", n.loc)
    # moved machines keep their input and output positions relative to themselves
    for f in p.all_funcs(AM):
        if f.cls is not None: continue
        g = ck.graph(f, inline=lambda x: False)
        ss = [n for n in g.stores("location") if n.id in g.live()]
        if not ss: continue
        bad = False; k = 0
        for s in peval.paths(g, loop=1, limit=2000):
            if s.end is not g.exit: continue
            for n in s.nodes:
                if n.kind == "store" and n.attr == "location":
                    b = g.r(n.base, n); k += 1
                    new = g.r(n.value, n)
                    for a in ("input_location", "output_location"):
                        m = next((m for m in s.nodes if m.kind == "store" and m.attr == a and g.r(m.base, m) == b), None)
                        ok = False
                        if m is not None:
                            t = shifted(s, m, b, a, new)
                            ok = t
                        bad = bad or not ok
        ck.ob("moved-together", f.name, not bad, "a moved machine's input or output position does not move with it", ss[0].loc)


def shifted(st, m, b, a, new):
    v = st.attrs.get(f"{b}.{a}") or st.close(m.value)
    if v[0] not in ("list", "tuple") or len(v[1]) != 2: return False
    for i, x in enumerate(v[1]):
        l = linear(st, x)
        want = {f"{b}.{a}[{i}]": 1, f"{new}[{i}]": 1, f"{b}.location[{i}]": -1}
        if l != want: return False
    return True


def linear(st, t):
    if t[0] == "bin" and t[1] in "+-":
        a, b = linear(st, t[2]), linear(st, t[3]); out = dict(a)
        for k, v in b.items(): out[k] = out.get(k, 0) + (v if t[1] == "+" else -v)
        return {k: v for k, v in out.items() if v}
    if t[0] == "item" and t[1][0] in ("list", "tuple") and t[2][0] == "const" and isinstance(t[2][1], int) and t[2][1] < len(t[1][1]): return linear(st, t[1][1][t[2][1]])
    return {st.g.render(t): 1}


def check(ck):
    judgement(ck)
    locations(ck)
    cost(ck)
    w = p23.World(ck)
    p23.evaluation(Some(ck, ("penalty",)), w)
    ops = scopes(ck)
    choices(ck, ops)
    consistent(ck)
    unique(ck)
    normalisation(ck)
