"""P14 Products follow their process plan and rework rules."""
TECHNIQUE = "typestate exploration of the product's life cycle, path-wise decision tables of the choice of the next process and of the rework bookkeeping, membership analysis of the precedence graph and its construction"
NOTE = "Decides which process is chosen under which conditions and that every choice is carried out once; that a plan is free of cycles is a property of the configuration (a cycle is not detected here) and the frequency of failures is that of numpy.random.choice (trusted)."
from ..lib import *
from ..lib import _lin
from ..peval import paths
from .steps import controllers, elements
from .p15 import members, ctor, ctor_args, argmap

P = "prodsys.simulation.product.Product"
PM = "prodsys.simulation.proces_models."
RSTOP = ("route_product_to_production_resource", "route_transport_resource_for_item", "route_product_to_storage", "route_product_to_sink", "route_auxiliary_to_product", "route_auxiliary_to_store", "check_store_product", "register_finished_product", "debug")
B = "self.blocking_rework_process_mappings"; N = "self.non_blocking_rework_process_mappings"; NX = "next_prodution_process"


def src_names(g, t, node):
    """routing functions a request argument comes from"""
    out = set()
    for d, v in leaves(g, t, node):
        while v[0] in ("sent", "sent_of"): v = g.resolve(v[1], d)
        if v[0] in ("call", "spawn"): out.add(g.nodes[v[1]].name)
        elif v != ("const", None): out.add(g.render(v)[:60])
    return out


def life(ck):
    name = "Product.process_product"
    g = ck.graph(P + ".process_product", stop=RSTOP + ("Product.request_process", "Auxiliary.request_process", "request_process", "set_next_production_process"))
    choose = [n for n in g.calls("set_next_production_process")]
    ck.ob("plan-started", name, bool(choose), "the next process is never chosen", g.fn.loc)
    kind = {}
    for n in g.nodes:
        if n.kind not in ("call", "spawn") or n.id not in g.live(): continue
        if n.name == "request_process" and n.recv is not None and g.r(n.recv, n) == "self":
            kind[n.id] = src_names(g, (list(n.args) + list(n.kw.values()))[0], n)
    done = {}                       # yield node -> which request has been carried out
    for y in g.nodes:
        if y.kind != "yield": continue
        for d, v in leaves(g, y.value, y):
            if v[0] in ("call", "spawn"):
                c = g.nodes[v[1]]
                if c.name == "process" and c.args:
                    for d2, v2 in leaves(g, c.args[0], c):
                        if v2[0] in ("call", "spawn") and v2[1] in kind: done[y.id] = kind[v2[1]]
                if v[1] in kind: done[y.id] = kind[v[1]]
    yields = set()
    PR, TR, SK = "route_product_to_production_resource", "route_transport_resource_for_item", "route_product_to_sink"
    ck.ob("carried-out", name, any(PR in k for k in done.values()), "the chosen process is never carried out by the resource it was requested from", g.fn.loc)

    def step(x, n, st):
        d = dict(st)
        if n.kind == "edge" and g.nodes[n.of].kind == "branch":
            t = g.resolve(g.nodes[n.of].term, g.nodes[n.of]); pol = bool(n.label)
            while t[0] == "not": t = t[1]; pol = not pol
            v = None
            if g.render(t) == "self." + NX: v = pol
            elif t[0] == "cmp" and t[1] in ("is", "is not", "==", "!=") and ("const", None) in (t[2], t[3]) and "self." + NX in (g.render(t[2]), g.render(t[3])): v = (t[1] in ("is not", "!=")) == pol
            if v is not None:
                if d["n"] != "U" and (d["n"] == "T") != v: return None
                d["n"] = "T" if v else "F"
        elif n.kind == "call" and n.name == "set_next_production_process":
            if d["ch"] and not d["ex"] and d["n"] != "F": x.bad("performed", n, "the next process is chosen although the one chosen before has not been carried out")
            if d["sink"]: x.bad("sink-last", n, "a process is chosen after the product has gone to a sink")
            d.update(n="U", ex=0, tr=0, ch=True)
        elif n.id in done:
            k = done[n.id]
            if PR in k:
                if d["ex"]: x.bad("performed-once", n, "a chosen process is carried out twice")
                if d["n"] != "T": x.bad("chosen", n, "a process is carried out although it has not been established that one is left to do")
                if not d["tr"]: x.bad("transported", n, "the product is processed without having been transported to the resource")
                d["ex"] = 1
            elif TR in k: d["tr"] = 1
            elif SK in k:
                if d["n"] != "F": x.bad("sink-last", n, "the product goes to a sink although there may be something left to do")
                if d["sink"]: x.bad("sink-once", n, "the product goes to a sink twice")
                d["sink"] = True
        elif n.kind == "spawn" and n.id in kind and not any(n.id == v2[1] for y in g.nodes if y.kind == "yield" for v2 in [v for _, v in leaves(g, y.value, y)] if v2[0] == "spawn"):
            x.bad("awaited", n, "a step of the product is started without waiting for its end")
        elif n.kind == "call" and n.name == "register_finished_product":
            if not d["sink"]: x.bad("finished-in-sink", n, "a product is registered as finished before it has reached its sink")
            if d["fin"]: x.bad("finished-once", n, "a product is registered as finished twice")
            d["fin"] = True
        elif n is g.exit:
            if not d["sink"] or not d["fin"]: x.bad("finished-in-sink", n, "the life of a product can end without it having been brought to a sink and registered there")
        return upd(d)

    def edge(x, n, s, lab, st): return None if lab == "exc" and n.kind != "raise" else st
    x = Explore(g, mkstate(n="U", ex=0, tr=0, sink=False, fin=False, ch=False), step, edge)
    report(ck, x, name, g, ("performed", "performed-once", "chosen", "transported", "sink-last", "sink-once", "awaited", "finished-in-sink", "finished-once"))
    # the request carried out is the one the product was transported for
    for n in g.nodes:
        if n.id in kind and TR in kind[n.id]:
            for d, v in leaves(g, (list(n.args) + list(n.kw.values()))[0], n):
                while v[0] in ("sent", "sent_of"): v = g.resolve(v[1], d)
                if v[0] not in ("call", "spawn"): continue
                c = g.nodes[v[1]]
                for z in (list(c.args) + list(c.kw.values()))[:1]:
                    ck.ob("transported", name + "/target", src_names(g, z, c) <= {PR, "route_auxiliary_to_product"}, "the product is transported for another request than the one chosen", c.loc)


# ---- choice -------------------------------------------------------------------------------------------------------------
def callname(t): return str(t[1][2] if t[1][0] == "attr" else t[1][-1]).split(".")[-1] if t[0] == "pcall" else ""


def root(g, t):
    """(text of the list a value was picked from, indices on the way)"""
    idx = []
    for _ in range(12):
        if t[0] == "pcall" and callname(t) == "choice" and t[2]: t = t[2][0]; idx.append("*")
        elif t[0] == "pcall" and callname(t) in ("pop", "popleft") and t[1][0] == "attr": t = t[1][1]; idx.append("*")
        elif t[0] == "pcall" and callname(t) in ("list", "sorted", "tuple") and len(t[2]) == 1: t = t[2][0]
        elif t[0] == "item": idx.append(t[2][1] if t[2][0] == "const" else "*"); t = t[1]
        elif t[0] == "unpack": idx.append(t[2]); t = t[1]
        elif t[0] == "elem": idx.append("*"); t = t[1]
        else: break
    return g.render(t), list(reversed(idx))


def empty(g, c, pol):
    """(text, True if empty) of a literal about the emptiness of a list"""
    while c[0] == "not": c = c[1]; pol = not pol
    if c[0] == "cmp":
        a, b, op = c[2], c[3], c[1]
        if a[0] == "const": a, b = b, a; op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
        if b[0] != "const": return None
        if a[0] == "pcall" and callname(a) == "len" and len(a[2]) == 1:
            e = {("==", 0): True, ("!=", 0): False, (">", 0): False, ("<", 1): True, (">=", 1): False, ("<=", 0): True}.get((op, b[1]))
            return (g.render(a[2][0]), e == pol) if e is not None else None
        if b[1] is None and op in ("is", "==", "is not", "!="):
            nn = (op in ("is", "==")) == pol
            return (g.render(a), True) if nn else None          # not None does not mean non-empty
        return None
    if c[0] == "pcall" and callname(c) in ("len", "bool") and len(c[2]) == 1: return g.render(c[2][0]), not pol
    return g.render(c), not pol


def choice(ck):
    name = "Product.set_next_production_process"
    g = ck.graph(P + ".set_next_production_process", stop=("get_next_possible_processes", "update_marking_from_transition", "choice", "debug"))
    MODEL = "self.process_model.get_next_possible_processes()"
    seen = set()
    for p in paths(g):
        if p.end is not g.exit: continue
        facts = {}; clash = False
        for c, pol in p.order:
            e = empty(g, c, pol)
            if e: clash = clash or facts.get(e[0], e[1]) != e[1]; facts[e[0]] = e[1]
        if clash: continue
        sets = [n for n in p.nodes if n.kind == "store" and n.attr == NX]
        marks = [n for n in p.nodes if n.kind == "call" and n.name == "update_marking_from_transition"]
        loc = (sets[-1] if sets else p.nodes[-2]).loc if len(p.nodes) > 1 else g.fn.loc
        if not sets:
            ck.ob("choice", name, False, "the next process can stay the old one", loc); continue
        v = p.attrs.get("self." + NX)
        r, idx = root(g, v)
        be, pe, ne = facts.get(B), facts.get(MODEL), facts.get(N)
        pf = p.lits.get(MODEL)
        if r in (B, N) :
            which = "blocking" if r == B else "non-blocking"; seen.add(which)
            ck.ob("rework-process", f"{name}/{which}", len(idx) == 3 and idx[1] == 1 and idx[0] == "*" or len(idx) == 3 and idx[1] == 1, f"the rework process is not taken from the rework processes of a failed process ({g.render(v)[:120]})", loc)
            ck.ob("marking", f"{name}/{which}", not marks, "rework advances the process plan", (marks or [sets[-1]])[0].loc)
            if r == N:
                ck.ob("blocking-first", name + "/non-blocking", be is True, "non-blocking rework is chosen although blocking rework may be waiting", loc)
                ck.ob("non-blocking-last", name, True, "", loc)
        elif r == MODEL:
            seen.add("plan")
            ck.ob("blocking-first", name + "/plan", be is True, "the plan is continued although blocking rework may be waiting", loc)
            ck.ob("done-when-nothing-left", name + "/plan", pe is not True, "a process is chosen although the plan has nothing left", loc)
            ck.ob("marking", name + "/plan", len(marks) == 1, f"the choice of a process advances the plan {len(marks)} times", loc)
            for m in marks:
                a = (list(m.args) + list(m.kw.values()))[:1]
                same = bool(a) and (draws(g, a[0], m) == draws(g, sets[-1].value, sets[-1]) or g.r(a[0], m) == "self." + NX and p.nodes.index(m) > max(i for i, n in enumerate(p.nodes) if n is sets[-1]))
                ck.ob("marking", name + "/same", same, "another process is marked as done than the one chosen", m.loc)
        elif v == ("const", None):
            seen.add("done")
            for what, ok in (("the plan is finished", pe is True), ("no blocking rework is waiting", be is True), ("no non-blocking rework is waiting", ne is True)):
                ck.ob("done-when-nothing-left", name, ok, f"the product is finished without it having been established that {what}", loc)
            ck.ob("marking", name + "/done", not marks, "the plan advances although nothing is chosen", loc)
        else:
            ck.ob("choice", name, False, f"the next process is {g.render(v)[:120]} instead of one that is possible next", loc)
    for k in ("blocking", "plan", "non-blocking", "done"):
        ck.ob("choice-complete", f"{name}/{k}", k in seen, f"the case '{k}' is never chosen", g.fn.loc)
    fs = ck.p.cls(P)
    writers = [m for m in fs.methods.values() if any(isinstance(n, ast.Attribute) and n.attr == NX and isinstance(n.ctx, ast.Store) for n in ast.walk(m.node))]
    others = [f for f in ck.p.all_funcs("prodsys.simulation") if f.cls is None or f.cls.qual != P for n in ast.walk(f.node) if isinstance(n, ast.Attribute) and n.attr == NX and isinstance(n.ctx, ast.Store)]
    ck.ob("choice-owner", name, not others, f"the next process of a product is changed elsewhere ({others[0].qual if others else ''})", others[0].loc if others else fs.loc)


def draws(g, t, node):
    return {(v[1] if v[0] == "call" else g.render(v)) for d, v in leaves(g, t, node)}


# ---- process models -----------------------------------------------------------------------------------------------------
def list_model(ck):
    q = PM + "ListProcessModel"; name = "ListProcessModel"
    ci = ck.p.cls(q)
    f = ci.find_field("current_marking")
    init = None
    if f:
        v = f[1][1]
        if isinstance(v, ast.Call):
            for k in v.keywords:
                if k.arg == "default": init = getattr(k.value, "value", "?")
        elif isinstance(v, ast.Constant): init = v.value
    ck.ob("plan-order", name + "/start", init == 0, f"the plan starts at position {init}", ci.loc)
    g = ck.graph(q + ".get_next_possible_processes")
    last = nxt = False
    for p in paths(g):
        if p.end is not g.exit: continue
        v = p.close(("var", g.root.id, "$ret")); loc = p.nodes[-2].loc
        end = None
        for c, pol in p.order:
            e = at_end(g, c, pol)
            if e is not None: end = e
        if v in (("const", None), ("list", ())):
            last = True; ck.ob("plan-order", name + "/end", end is True, "the plan ends before all of its processes have been chosen", loc)
        else:
            nxt = True
            s = g.render(v)
            ck.ob("plan-order", name + "/next", s in ("[self.process_list[self.current_marking]]", "self.process_list[self.current_marking:(1 + self.current_marking)]", "self.process_list[self.current_marking:(self.current_marking + 1)]"), f"the next possible processes are {s[:120]} instead of the one the plan has reached", loc)
            ck.ob("plan-order", name + "/not-at-end", end is False or "[self.process_list" not in s, "the position in the plan is not compared with its length", loc)
    ck.ob("plan-order", name + "/both", nxt and (last or not nxt), "the plan never ends", g.fn.loc)
    g = ck.graph(q + ".update_marking_from_transition")
    res = {a for a in event_deltas(g)}
    ck.ob("plan-order", name + "/advance", res == {1}, f"choosing a process advances the plan by {sorted(res, key=str)}", g.fn.loc)


def event_deltas(g):
    out = set()
    for p in paths(g):
        if p.end is not g.exit: continue
        v = p.attrs.get("self.current_marking")
        if v is None: out.add(0); continue
        l = _lin(g, v)
        d = None
        if l is not None:
            l = dict(l); c = l.pop("self.current_marking", 0); k = l.pop(1, 0)
            if c == 1 and not l: d = k
        out.add(d if d is not None else g.render(v))
    return out


def at_end(g, c, pol):
    while c[0] == "not": c = c[1]; pol = not pol
    if c[0] != "cmp": return None
    a, b, op = g.render(c[2]), g.render(c[3]), c[1]
    M, L = "self.current_marking", "len(self.process_list)"
    if (a, b) == (L, M): a, b = b, a; op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
    if (a, b) != (M, L): return None
    return {"==": pol, ">=": pol, "!=": not pol, "<": not pol}.get(op)


def graph_model(ck):
    q = PM + "PrecedenceGraphProcessModel"; name = "PrecedenceGraphProcessModel"
    g = ck.graph(q + ".get_next_possible_processes")
    n = 0
    for rn in returns(g):
        els = elements(g, rn.value, rn)
        for a, v in els:
            n += 1
            hs = [h for h in g.loops_of(a) if h.iter is not None and g.r(h.iter, h) == "self.nodes"] or [g.nodes[x] for x in (g.comps[a.comp]["heads"] if a.kind == "compelt" else [])]
            ck.ob("precedence", name + "/element", bool(hs) and g.r(v, a) == f"elem(self.nodes).process", f"the possible processes contain {g.r(v, a)[:100]} instead of processes of the plan", a.loc)
            if not hs: continue
            h = hs[0]
            e = visits_all(g, h)
            ck.ob("precedence", name + "/all-nodes", e is None, "not all processes of the plan are considered", (e or h).loc)
            X = "elem(self.nodes)"
            it = iter_edge(g, h)
            preds = [l for l in g.nodes if l.kind == "loophead" and l.iter is not None and g.dominates(it, l) and g.r(l.iter, l) == X + ".predecessors"]
            added = skipped = 0
            for p in paths(g, start=it, stop=lambda m: m is a or m is h, outer=it):
                lits = {t: v2 for t, v2 in p.lits.items()}
                mark = lits.get(X + ".marking")
                pm = [v2 for t, v2 in lits.items() if t.startswith(f"elem({X}.predecessors)") and t.endswith(".marking")]
                nopred = lits.get(X + ".predecessors") is False or any(empty(g, c, pol) == (X + ".predecessors", True) for c, pol in p.order)
                if p.end is a:
                    added += 1
                    ck.ob("precedence", name + "/not-done", mark is False, "a process that has been performed already is offered again", a.loc)
                    full = nopred or any(l in p.nodes and done_edge(g, l) in p.nodes and False not in pm for l in preds)
                    ck.ob("precedence", name + "/predecessors-done", full, "a process is offered without all of its predecessors being done", a.loc)
                elif p.end is h:
                    skipped += 1
                    ck.ob("precedence", name + "/offered", mark is True or False in pm, "a process whose predecessors are done is left out", a.loc)
    ck.ob("precedence", name + "/offers", n > 0, "no process is ever offered", g.fn.loc)
    # marking
    g = ck.graph(q + ".update_marking_from_transition")
    ms = [s for s in g.stores("marking") if s.id in g.live()]
    par = g.fn.params()[1] if g.fn.params() and g.fn.params()[0] == "self" else g.fn.params()[0]
    ck.ob("mark-done", name, bool(ms), "a chosen process is never marked as done", g.fn.loc)
    for s in ms:
        ck.ob("mark-done", name + "/value", g.r(s.value, s) == "True", "a chosen process is not marked as done", s.loc)
        good = False
        for d, v in leaves(g, s.base, s):
            c = g.nodes[v[1]] if v[0] == "call" else None
            lst = v[1] if v[0] == "item" else (c.recv if c is not None and c.name in ("pop", "popleft") else c.args[0] if c is not None and c.name == "next" and c.args else None)
            if lst is not None:
                for a, x in elements(g, lst, d if c is None else c):
                    gs = [l for h in g.loops_of(a) if h.iter is not None for l in loop_guards(g, a, h)]
                    good = g.r(x, a) == "elem(self.nodes)" and same_process(gs, par)
            elif v[0] == "elem":
                good = g.r(v, d) == "elem(self.nodes)" and same_process([t if pol else "!" + t for b, t, pol in g.guard_atoms(s)], par)
        ck.ob("mark-done", name + "/which", good, "another process is marked as done than the chosen one", s.loc)
        ck.ob("mark-done", name + "/always", any(g.nodes[e.of].kind == "loophead" for e in g.guards(s)) or g.path_avoiding(g.entry, g.exit, [s]) is None, "a chosen process may stay unmarked", s.loc)
    mk = [(f, n2) for f in ck.p.all_funcs("prodsys.simulation") for n2 in ast.walk(f.node) if isinstance(n2, ast.Attribute) and n2.attr == "marking" and isinstance(n2.ctx, ast.Store)]
    for f, n2 in mk:
        ck.ob("mark-owner", f.short, f.cls is not None and f.cls.qual.startswith(PM), "processes are marked outside the process models", f.loc)


def same_process(gs, par):
    a = "elem(self.nodes).process"
    ok = {f"({a} == {par})", f"({par} == {a})", f"({a} is {par})", f"({par} is {a})", f"({a}.process_data.ID == {par}.process_data.ID)", f"({par}.process_data.ID == {a}.process_data.ID)"}
    return len(gs) == 1 and gs[0] in ok


# ---- construction -------------------------------------------------------------------------------------------------------
def build(ck):
    F = "prodsys.factories.product_factory.ProductFactory."
    name = "ProductFactory.create_process_model"
    g = ck.graph(F + "create_process_model", stop=("get_processes_in_order", "get_precendece_graph_from_id_adjacency_matrix", "get_adjacency_matrix_from_edges"))
    par = [x for x in g.fn.params() if x != "self"][0]
    PL = f"{par}.processes"
    seen = set()
    for rn in returns(g):
        for d, v in leaves(g, rn.value, rn):
            if v[0] != "call": ck.ob("plan-built", name, False, f"the plan is {g.r(v, d)[:80]}", rn.loc); continue
            c = g.nodes[v[1]]
            a = (list(c.args) + list(c.kw.values()))
            txt = g.r(a[0], c) if a else ""
            if c.name == "ListProcessModel":
                seen.add("list"); ck.ob("plan-built", name + "/list", txt.endswith(f"get_processes_in_order({PL})"), f"the plan is built from {txt[:100]} instead of the product's processes in order", c.loc)
            elif "precendece" in c.name or "precedence" in c.name.lower():
                k = "edges" if "edges" in txt else "dict"; seen.add(k)
                ck.ob("plan-built", f"{name}/{k}", txt == PL if k == "dict" else txt.endswith(f"get_adjacency_matrix_from_edges({PL})"), f"the precedence graph is built from {txt[:100]}", c.loc)
            else: ck.ob("plan-built", name, False, f"the plan is {g.r(v, d)[:80]}", c.loc)
    for k in ("list", "dict", "edges"): ck.ob("plan-built", f"{name}/{k}-supported", k in seen, f"plans given as {k} are not supported", g.fn.loc)
    # order of lists
    q = "prodsys.factories.process_factory.ProcessFactory.get_processes_in_order"
    g = ck.graph(q); ids = [x for x in g.fn.params() if x != "self"][0]; k = 0
    for rn in returns(g):
        for a, x in elements(g, rn.value, rn):
            k += 1
            hs = [h for h in g.loops_of(a) if h.iter is not None]
            its = [g.r(h.iter, h) for h in hs]
            ok = ids in its and (its.index(ids) == 0 or len(hs) < 2 or g.dominates(iter_edge(g, hs[its.index(ids)]), hs[1 - its.index(ids)]))
            ck.ob("plan-order", "ProcessFactory.get_processes_in_order", ok, "the processes are not in the order of the plan", a.loc)
            if ids in its:
                e = visits_all(g, hs[its.index(ids)]); ck.ob("plan-order", "ProcessFactory.get_processes_in_order/all", e is None, "processes of the plan may be left out", (e or a).loc)
    ck.ob("plan-order", "ProcessFactory.get_processes_in_order/any", k > 0, "no process of the plan is found", g.fn.loc)
    # precedence graph
    f = ck.p.func(F + "get_precendece_graph_from_id_adjacency_matrix")
    g = ck.graph(f, stop=("add_node", "get_process", "get_predecessors_adjacency_matrix"))
    m = [x for x in f.params() if x != "self"][0]
    adds = [c for c in g.calls("add_node") if c.id in g.live()]
    ck.ob("graph-built", f.short, bool(adds), "no process is added to the precedence graph", f.loc)
    for c in adds:
        am = argmap(c, ck.p.func(PM + "PrecedenceGraphProcessModel.add_node"))
        hs = [h for h in g.loops_of(c) if h.iter is not None]
        ck.ob("graph-built", f.short + "/all", len(hs) == 1 and visits_all(g, hs[0]) is None and not loop_guards(g, c, hs[0]), "not every process of the plan is added to the precedence graph", c.loc)
        if len(hs) != 1: continue
        h = hs[0]
        it = g.r(h.iter, h)
        PMX = f"get_predecessors_adjacency_matrix({m})"
        over_pred = it.replace(".keys()", "").replace(".items()", "").replace("list(", "").rstrip(")").endswith(PMX.rstrip(")"))
        ck.ob("graph-built", f.short + "/keys", over_pred, f"processes that are only named as successors are missing from the precedence graph ({it[:80]})", h.loc)
        key = {f"elem({it})", f"elem({it})[0]"} if True else None
        for p, what in (("successors", "successor"), ("predecessors", "predecessor")):
            if p not in am: ck.ob("graph-built", f"{f.short}/{p}", False, f"a process is added without its {p}", c.loc); continue
            els = elements(g, am[p], c)
            ok = bool(els)
            for a, x in els:
                s = g.r(x, a)
                inner = [l for l in g.loops_of(a) if l.iter is not None and l is not h]
                good = len(inner) == 1 and visits_all(g, inner[0]) is None and not loop_guards(g, a, inner[0]) and "get_process(elem(" in s
                src = g.r(inner[0].iter, inner[0]) if inner else ""
                pred = PMX.split("(")[0] in src.replace(it, "ITER") or (".items()" in it and src == f"elem({it})[1]")
                good = good and (pred if p == "predecessors" else not pred and m in src.replace(it, "ITER"))
                ok = ok and good
            ck.ob("graph-built", f"{f.short}/{p}", ok, f"the {p} a process is added with are not those of the plan", c.loc)
    g = ck.graph(PM + "PrecedenceGraphProcessModel.add_node", inline=lambda fn: fn.name != "add_node")
    for p in ("successors", "predecessors"):
        ss = [s for s in g.stores(p) if s.id in g.live()]
        ck.ob("graph-built", f"add_node/{p}", bool(ss) and g.path_avoiding(g.entry, g.exit, ss) is None, f"the {p} of a process are not recorded", g.fn.loc)
        for s in ss:
            els = elements(g, s.value, s); ok = bool(els)
            for a, x in els:
                outer = [h for h in g.loops_of(a) if h.iter is not None and g.r(h.iter, h) == p]
                if not outer: ok = False; continue
                e = visits_all(g, outer[0])
                ok = ok and e is None and not loop_guards(g, a, outer[0])
                for d, v in leaves(g, x, a):
                    c = g.nodes[v[1]] if v[0] == "call" else None
                    lst = v[1] if v[0] == "item" else (c.recv if c is not None and c.name in ("pop",) else c.args[0] if c is not None and c.name == "next" and c.args else None)
                    if lst is None: ok = False; continue
                    for b2, y in elements(g, lst, c or d):
                        gs = [l for hh in g.loops_of(b2) if hh.iter is not None and g.r(hh.iter, hh) == "self.nodes" for l in loop_guards(g, b2, hh)]
                        ok = ok and g.r(y, b2) == "elem(self.nodes)" and same_process(gs, f"elem({p})")
            ck.ob("graph-built", f"add_node/{p}-complete", ok, f"the {p} of a process are not all recorded", s.loc)
    matrices(ck)


def matrices(ck):
    g = ck.graph(PM + "get_predecessor_processes"); tgt, mat = g.fn.params()[:2]
    n = 0
    for rn in returns(g):
        for a, x in elements(g, rn.value, rn):
            n += 1
            hs = [h for h in g.loops_of(a) if h.iter is not None]
            ok = len(hs) == 1 and visits_all(g, hs[0]) is None
            gs = sorted(loop_guards(g, a, hs[0])) if hs else []
            it = g.r(hs[0].iter, hs[0]) if hs else ""
            val = g.r(x, a)
            ok = ok and len(gs) == 1 and gs[0] in (f"({tgt} in elem({it})[1])", f"({tgt} in {mat}[elem({it})])", f"({tgt} in elem({mat}.items())[1])") and val in (f"elem({it})[0]", f"elem({it})", f"elem({mat}.items())[0]")
            ck.ob("predecessors", "get_predecessor_processes", ok, f"the predecessors of a process are not exactly the processes it is a successor of ({val[:60]} if {gs})", a.loc)
    ck.ob("predecessors", "get_predecessor_processes/any", n > 0, "no predecessors are found", g.fn.loc)
    g = ck.graph(PM + "get_adjacency_matrix_from_edges"); ed = g.fn.params()[0]; n = 0
    for s in g.nodes:
        if s.kind != "substore" or s.id not in g.live(): continue
        hs = [h for h in g.loops_of(s) if h.iter is not None]
        key = g.r(s.index, s)
        for a, x in elements(g, s.value, s):
            n += 1
            inner = [h for h in g.loops_of(a) if h.iter is not None and g.r(h.iter, h) == ed]
            if not inner: ck.ob("edges", "get_adjacency_matrix_from_edges", False, "the successors are not taken from the edges", a.loc); continue
            gs = sorted(loop_guards(g, a, inner[0])); e0 = f"elem({ed})"
            ok = visits_all(g, inner[0]) is None and g.r(x, a) == e0 + "[1]" and len(gs) == 1 and gs[0] in (f"({e0}[0] == {key})", f"({key} == {e0}[0])")
            ck.ob("edges", "get_adjacency_matrix_from_edges", ok, f"the successors of a process are not exactly the targets of its edges ({g.r(x, a)[:60]} if {gs})", a.loc)
    if n == 0:                      # other forms: every edge adds its target to its origin's list
        for a in g.nodes:
            if a.kind == "call" and a.name == "append" and a.id in g.live() and a.args:
                hs = [h for h in g.loops_of(a) if h.iter is not None and g.r(h.iter, h) == ed]
                if hs and g.r(a.args[0], a) == f"elem({ed})[1]" and f"elem({ed})[0]" in g.r(a.recv, a) and visits_all(g, hs[0]) is None and not loop_guards(g, a, hs[0]): n += 1
    ck.ob("edges", "get_adjacency_matrix_from_edges/any", n > 0, "the edges of a plan are not turned into successors", g.fn.loc)


# ---- rework -------------------------------------------------------------------------------------------------------------
def failure(ck):
    for ci in controllers(ck):
        if "Transport" in ci.name: continue
        fn = ci.find_method("start_process") or ci.find_method("run_process")
        g = ck.graph(fn, selfcls=ci, stop=("add_needed_rework", "choice", "get_next_time", "set_process", "request", "debug"))
        name = f"{ci.name}.{fn.name}"
        adds = [n for n in g.calls("add_needed_rework") if n.id in g.live()]
        ck.ob("failure-noticed", name, bool(adds), "a failed process never leads to rework", fn.loc)
        for a in adds:
            atoms = g.guard_atoms(a)
            arg = (list(a.args) + list(a.kw.values()))
            proc = g.r(arg[0], a) if arg else ""
            ck.ob("failed-process", name, bool(proc) and "process" in proc.lower() and proc.endswith((".process", "process", "get_process()")), f"rework is requested for {proc[:80]}", a.loc)
            ck.ob("rework-not-reworked", name, any(s.startswith("isinstance(") and "ReworkProcess" in s and proc in s and not pol for b, s, pol in atoms) or any("ReworkProcess" in s and not pol for b, s, pol in atoms), "rework itself can need rework", a.loc)
            dr = None
            for b, s, pol in atoms:
                t = g.resolve(b.term, b); q = pol
                while t[0] == "not": t = t[1]; q = not q
                r = draw(g, t, b, q)
                if r: dr = r; break
            ck.ob("failure-rate", name, dr is not None and dr.endswith("failure_rate") and proc in dr, f"a process fails with probability {dr} instead of its failure rate" if dr else "a failure does not depend on a random draw with the failure rate of the process", a.loc)
            # what else may keep a failure from being noticed
            for b, s, pol in atoms:
                if g.loops_of(b) != g.loops_of(a): continue
                if "failure_rate" in s or "ReworkProcess" in s or draw(g, g.resolve(b.term, b), b, True) or draw(g, g.resolve(b.term, b), b, False): continue
                if not any(b.id == x.id for x in decision(g, a, adds)): continue
                ck.ob("failure-noticed", name + "/condition", False, f"failures are only noticed if {'' if pol else 'not '}{s[:100]}", b.loc)
            hs = [h for h in g.loops_of(a) if h.iter is not None]
            for d, v in leaves(g, a.recv, a):
                while v[0] in ("attr", "item", "unpack"): v = v[1]
                if v[0] == "elem": ck.ob("failure-noticed", name + "/each", any(h.id == v[2] for h in g.loops_of(a)), "only one product of the batch is checked for failure", a.loc)
            for h in hs:
                e = visits_all(g, h)
                ck.ob("failure-noticed", name + "/all-items", e is None, "not every product of the batch is checked for failure", (e or h).loc)
            # before the product is told that it is finished
            for s in g.calls("succeed"):
                if s.id in g.live() and s.recv is not None and g.r(s.recv, s).endswith("finished_process") and "product" in g.r(s.recv, s):
                    ck.ob("failure-before-finish", name, not g.reaches(s, a) or bool(set(h.id for h in g.loops_of(s)) & set(h.id for h in hs if not hs)), "the product may already have been told that its process is finished when the failure is noticed", s.loc)


def decision(g, a, adds):
    """branches between the draw's function and the addition"""
    out = []
    for e in g.guards(a):
        b = g.nodes[e.of]
        if b.kind == "branch" and b.ctx is not g.root and b.ctx is a.ctx: out.append(b)
    return out


def draw(g, t, node, pol):
    """failure probability if truth of t means that the random draw said 'failed'"""
    for d, v in leaves(g, t, node):
        if v[0] == "cmp" and v[1] in ("<", "<=", ">", ">="):
            a, c, op = v[2], v[3], v[1]
            if op in (">", ">="): a, c = c, a
            for d2, v2 in leaves(g, a, d):
                if v2[0] == "call" and g.nodes[v2[1]].name in ("random", "uniform", "rand") and pol: return g.r(c, d)
        if v[0] == "item": v = g.resolve(v[1], d)
        if v[0] == "call" and g.nodes[v[1]].name in ("choice", "choices"):
            c = g.nodes[v[1]]; am = dict(c.kw)
            opts = c.args[0] if c.args else am.get("a") or am.get("population"); p = am.get("p") or am.get("weights")
            if opts is None or p is None: return "1/2"
            o = g.resolve(opts, c); w = g.resolve(p, c)
            if o[0] in ("list", "tuple") and w[0] in ("list", "tuple") and len(o[1]) == len(w[1]) == 2:
                for i, x in enumerate(o[1]):
                    if x == ("const", pol):
                        l, m = lin(g, w[1][i], c), lin(g, w[1][1 - i], c)
                        return g.r(w[1][i], c) if m is not None and l is not None and _sum1(l, m) else "?"
    return None


def _sum1(l, m):
    out = dict(l)
    for k, v in m.items(): out[k] = out.get(k, 0) + v
    return {k: v for k, v in out.items() if v} == {1: 1}


def bookkeeping(ck):
    name = "Product.add_needed_rework"
    f = ck.p.func(P + ".add_needed_rework"); par = [x for x in f.params() if x != "self"][0]
    g = ck.graph(f, stop=("get_rework_processes",))
    CAND = "self.product_router.get_rework_processes("
    cand = [c for c in g.calls("get_rework_processes") if c.id in g.live()]
    ck.ob("rework-candidates", name, bool(cand) and all(par in [g.r(x, c) for x in list(c.args) + list(c.kw.values())] for c in cand), "the possible rework processes are not those of the failed process", f.loc)
    kinds = set()
    adds = [n for n in g.nodes if n.kind == "call" and n.id in g.live() and n.name in ("append", "insert", "extend") and n.recv is not None]
    for p in paths(g, consistent=False):
        if p.end is not g.exit: continue
        lst = []
        for n in p.nodes:
            if n in adds:
                for d, v in leaves(g, n.recv, n): pass
                r = g.render(p.close(n.recv)) if len(leaves(g, n.recv, n)) == 1 else None
                lst.append((n, r or g.render(p.close(n.recv))))
        maps = [(n, r) for n, r in lst if r in (B, N)]
        facts = [empty(g, c, pol) for c, pol in p.order]
        none_known = any(e and e[0].startswith(CAND) and e[1] is False for e in facts)
        ck.ob("rework-possible", name, none_known, "a failed process that nothing can rework is not reported", f.loc)
        ck.ob("rework-recorded", name, len(maps) == 1, f"a failure is recorded {len(maps)} times for rework", (maps[0][0] if maps else g.fn).loc)
        for c, pol in p.order:
            t = g.render(c)
            if t.endswith(".blocking"):
                ck.ob("rework-kind", name + "/each", t.startswith("elem(" + CAND), f"whether rework is blocking is decided by {t[:100]} alone", f.loc)
        anyb = any(pol for c, pol in p.order if g.render(c).endswith(".blocking"))
        if not any(g.render(c).endswith(".blocking") for c, pol in p.order) and not any(n.kind == "loophead" for n in p.nodes):
            ck.ob("rework-kind", name, False, "whether the rework is blocking is not determined", f.loc); continue
        for n, r in maps:
            kinds.add(r)
            ck.ob("rework-kind", name, (r == B) == anyb, f"{'blocking' if anyb else 'non-blocking'} rework is recorded as {'blocking' if r == B else 'non-blocking'}", n.loc)
            m = p.close((list(n.args) + list(n.kw.values()))[-1])
            if n.name == "extend" and m[0] in ("list", "tuple") and len(m[1]) == 1: m = m[1][0]
            ok = m[0] in ("list", "tuple") and len(m[1]) == 2 and g.render(m[1][0]) == par and g.render(m[1][1]).startswith(CAND)
            ck.ob("rework-recorded", name + "/mapping", ok, f"the record of a failure is {g.render(m)[:100]} instead of the failed process and its rework processes", n.loc)
    ck.ob("rework-kind", name + "/both", kinds == {B, N}, "rework is always recorded as the same kind", f.loc)
    for h in g.nodes:
        if h.kind == "loophead" and h.iter is not None and h.id in g.live() and g.r(h.iter, h).startswith(CAND):
            pass
    finished(ck); registered(ck); candidates(ck)


def finished(ck):
    """request_process: rework is registered exactly when the executed process is a rework process, after it is finished"""
    name = "Product.request_process"
    g = ck.graph(P + ".request_process", stop=("register_rework", "request_process_of_resource", "debug"))
    req = [x for x in g.fn.params() if x != "self"][0]
    n = 0
    for p in paths(g):
        if p.end is not g.exit: continue
        regs = [i for i, x in enumerate(p.nodes) if x.kind == "call" and x.name == "register_rework"]
        ys = [i for i, x in enumerate(p.nodes) if x.kind == "yield"]
        rw = [pol for c, pol in p.order if c[0] == "pcall" and callname(c) == "isinstance" and g.render(c).endswith("ReworkProcess)") and f"{req}.process" in g.render(c)]
        is_rw = rw[-1] if rw else None
        loc = (p.nodes[regs[0]] if regs else g.fn).loc
        n += 1
        if is_rw is None: ck.ob("rework-registered", name, False, "whether the finished process was rework is not determined", loc); continue
        ck.ob("rework-registered", name, len(regs) == (1 if is_rw else 0), f"a finished {'rework' if is_rw else 'production'} process is registered {len(regs)} times as rework", loc)
        for i in regs:
            a = p.nodes[i]; arg = g.render(p.close((list(a.args) + list(a.kw.values()))[0]))
            ck.ob("rework-registered", name + "/process", arg in (f"{req}.process", f"{req}.get_process()"), f"rework is registered for {arg[:80]}", a.loc)
            ck.ob("rework-registered", name + "/after", any(j < i for j in ys), "rework is registered before it has been carried out", a.loc)
    ck.ob("rework-registered", name + "/any", n > 0, "", g.fn.loc)
    # the end of the step is awaited, then a fresh event is created before the next one
    ev = [y for y in g.nodes if y.kind == "yield" and y.id in g.live() and g.r(y.value, y) == "self.finished_process"]
    rq = [c for c in g.calls("request_process_of_resource") if c.id in g.live()]
    ck.ob("step-awaited", name, bool(ev) and bool(rq) and all(g.path_avoiding(c, g.exit, ev) is None for c in rq), "a requested step is not waited for", g.fn.loc)
    ck.ob("step-requested", name, bool(rq) and g.path_avoiding(g.entry, g.exit, rq) is None and not any(g.reaches(a, b) for a in rq for b in rq), "a step is not requested exactly once", g.fn.loc)
    for c in rq: ck.ob("step-requested", name + "/which", req in [g.r(x, c) for x in list(c.args) + list(c.kw.values())], "another request is handed over than the one given", c.loc)
    fresh = [s for s in g.stores("finished_process") if s.id in g.live() and g.r(s.base, s) == "self" and "Event(" in g.r(s.value, s)]
    ck.ob("fresh-event", name, bool(fresh) and all(g.path_avoiding(y, g.exit, fresh) is None for y in ev), "the next step would find the previous step's completion event", g.fn.loc)


def registered(ck):
    name = "Product.register_rework"
    f = ck.p.func(P + ".register_rework"); par = [x for x in f.params() if x != "self"][0]
    g = ck.graph(f)
    rem = [n for n in g.nodes if n.id in g.live() and ((n.kind == "call" and n.name in ("pop", "remove", "popleft") and n.recv is not None) or (n.kind == "del"))]
    n = 0; which = set()
    bad = None
    for p in paths(g, consistent=False, loop=2, limit=60000):
        if p.end is not g.exit: continue
        if any(node_undefined(p, x) for x in p.nodes): continue          # a path on which a loop did not find what it must find
        done = []
        for x in p.nodes:
            if x in rem:
                l = g.render(p.close(x.recv)) if x.kind == "call" else g.render(p.close(x.base)) if x.get("base") is not None else "?"
                done.append((x, l))
        for x in p.nodes:
            if x.kind == "store" and x.attr in (B[5:], N[5:]) : done.append((x, "self." + x.attr))
        mp = [(x, l) for x, l in done if l in (B, N)]
        n += 1
        if not mp and any(exhausted(g, p, x) for x in rem): continue          # nothing to remove was found
        if len(mp) != 1 and bad is None: bad = (len(mp), p)
        for x, l in mp: which.add(l)
    ck.ob("rework-done-once", name, n > 0 and bad is None, f"finished rework removes {bad[0] if bad else 0} recorded failures instead of one", f.loc)
    ck.ob("rework-done-once", name + "/both", which == {B, N}, "only one kind of rework is ever removed from the records", f.loc)
    # the failure removed is one the finished rework process can rework
    ok = False
    for b in g.nodes:
        if b.kind == "branch" and b.id in g.live():
            t = g.resolve(b.term, b)
            while t[0] == "not": t = t[1]
            if t[0] == "cmp" and t[1] in ("in", "==") and par in (g.render(t[2]), g.render(t[3])) and ("[1]" in g.render(t[3]) or "[1]" in g.render(t[2])) and any(z in g.render(t) for z in (B, N)): ok = True
    ck.ob("rework-done-which", name, ok, "the record removed is not chosen by the rework process that has been carried out", f.loc)


def exhausted(g, p, x):
    """the search for what x removes ended without a match"""
    hs = [g.nodes[e.of] for e in g.guards(x) if g.nodes[e.of].kind == "loophead" and e.label == "iter"]
    if not hs: return False
    h = hs[0] if len(hs) == 1 else max(hs, key=lambda l: sum(g.dominates(m, l) for m in hs))
    if done_edge(g, h) not in p.nodes: return False
    gs = [e for e in g.guards(x) if g.nodes[e.of].kind == "branch" and g.dominates(iter_edge(g, h), e)]
    if not gs: return False
    first = min(gs, key=lambda e: sum(g.dominates(m, e) for m in gs))
    return first not in p.nodes


def node_undefined(p, x):
    if x.kind not in ("assign", "call", "store"): return False
    ts = [x.value] if x.kind != "call" else list(x.args) + list(x.kw.values())
    def bad(t):
        return isinstance(t, tuple) and bool(t) and (t[0] in ("undef", "missing") or any(bad(y) for y in t if isinstance(y, tuple)))
    return any(bad(p.close(t)) for t in ts if t is not None)


def candidates(ck):
    name = "Router.get_rework_processes"
    f = ck.p.func("prodsys.simulation.router.Router.get_rework_processes")
    g = ck.graph(f, stop=("matches_request",)); failed = [x for x in f.params() if x != "self"][1]
    n = 0
    for rn in returns(g):
        for a, x in elements(g, rn.value, rn):
            n += 1
            s = g.r(x, a)
            hs = [h for h in g.loops_of(a) if h.iter is not None and s == f"elem({g.r(h.iter, h)})"]
            ck.ob("rework-candidates", name + "/source", bool(hs), f"{s[:80]} is offered as rework process", a.loc)
            at = g.guard_atoms(a)
            ck.ob("rework-candidates", name + "/kind", any(pol and t.startswith("isinstance(" + s) and t.endswith("ReworkProcess)") for b, t, pol in at), "processes that are no rework processes are offered", a.loc)
            ok = False
            for b, t, pol in at:
                v = g.resolve(b.term, b); q = pol
                while v[0] == "not": v = v[1]; q = not q
                if q and v[0] == "call" and g.nodes[v[1]].name == "matches_request" and g.r(g.nodes[v[1]].recv, g.nodes[v[1]]) == s:
                    m = g.nodes[v[1]]
                    for y in list(m.args) + list(m.kw.values()):
                        for d, c in leaves(g, y, m):
                            if ctor(g, c, "ReworkRequest"):
                                am = ctor_args(ck, g, g.nodes[c[1]], "ReworkRequest"); ok = g.r(am.get("failed_process", ("const", None)), g.nodes[c[1]]) == failed
            ck.ob("rework-candidates", name + "/match", ok, "a rework process is offered without being declared for the failed process", a.loc)
            for h in hs:
                e = visits_all(g, h); ck.ob("rework-candidates", name + "/all", e is None, "not all rework processes are considered", (e or h).loc)
    ck.ob("rework-candidates", name + "/any", n > 0, "no rework process is ever found", f.loc)
    f = ck.p.func("prodsys.simulation.process.ReworkProcess.matches_request"); g = ck.graph(f); req = [x for x in f.params() if x != "self"][0]
    D = f"{req}.process.process_data.ID"
    yes = 0
    for p in paths(g, consistent=False):
        if p.end is not g.exit: continue
        rr = [pol for c, pol in p.order if c[0] == "pcall" and callname(c) == "isinstance" and g.render(c) .endswith("ReworkRequest)")]
        if not rr or not rr[-1]: continue
        v = p.close(("var", g.root.id, "$ret")); s = g.render(v)
        comp = [pol for c, pol in p.order if c[0] == "pcall" and callname(c) == "isinstance" and g.render(c).endswith("CompoundProcess)") and "," in g.render(c)]
        plain = not (comp and comp[-1])
        facts = {g.render(c): pol for c, pol in p.order}
        if s == "False" or s == "None": continue
        if plain:
            ok = s == f"({D} in self.reworked_process_ids)" or (s == "True" and any(pol and t in (f"({D} in self.reworked_process_ids)",) for t, pol in facts.items()))
            if s == "True" and not ok: ok = any(pol and t in (f"({D} == elem(self.reworked_process_ids))", f"(elem(self.reworked_process_ids) == {D})") for t, pol in facts.items())
            yes += 1
            ck.ob("rework-declared", "ReworkProcess.matches_request", ok, f"a rework process claims to rework a process it is not declared for ({s[:120]})", p.nodes[-2].loc)
    ck.ob("rework-declared", "ReworkProcess.matches_request/any", yes > 0, "a rework process never matches the failures it is declared for", f.loc)


def check(ck):
    life(ck); choice(ck); list_model(ck); graph_model(ck); build(ck); failure(ck); bookkeeping(ck)
