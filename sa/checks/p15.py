"""P15 Products are routed only to capable, reachable, non-blocked targets."""
TECHNIQUE = "provenance (def-use) tracing of routed requests over inlined graphs, path-sensitive fact sets for the matching predicates, path queries between gate, choice and promise"
NOTE = "Decides for all paths of the routing functions which filters every routed request has passed and what each matching predicate has established; that a transport really arrives and run-time liveness are not decided here (P03, P41)."
from ..lib import *
from .steps import elements
from .gates import check_gate, gate_elements

R = "prodsys.simulation.router.Router."
PR = "prodsys.simulation.process."
STOP = ("matches_request", "Queue.full", "Resource.full", "get_env_from_requests", "Queue.reserve", "Queue.unreserve", "find_route", "set_process", "copy_cached_routes")


def origins(g, t, node, chain=(), depth=0, seen=None):
    """[(node, term, chain)]: what an element taken out of lists was when it was created; chain = the additions it passed"""
    out = []; seen = seen or frozenset()
    if depth > 14: return out
    for d, v in leaves(g, t, node):
        k = v[0]
        if k == "elem":
            h = g.nodes[v[2]]
            sub = members(g, h.iter if h.get("iter") is not None else v[1], h, chain + (h,), depth + 1, seen)
            out += sub or [(d, v, chain + (h,))]
        elif k == "call" and g.nodes[v[1]].name in ("pop", "popleft", "choice", "next", "min", "max") and not g.nodes[v[1]].get("inlined"):
            c = g.nodes[v[1]]
            src = c.recv if c.name in ("pop", "popleft") else (c.args[0] if c.args else None)
            out += members(g, src, c, chain + (c,), depth + 1, seen) if src is not None else [(d, v, chain)]
        elif k == "item": out += members(g, v[1], d, chain, depth + 1, seen)
        else: out.append((d, v, chain))
    return out


def members(g, t, node, chain=(), depth=0, seen=frozenset()):
    out = []
    key = (g.r(t, node)[:3000], node.id)
    if key in seen or depth > 14: return out
    seen = seen | {key}
    for a, v in elements(g, t, node):
        out += origins(g, v, a, chain + (a,), depth + 1, seen)
    return out


def deep(g, t, node, pred, depth=0, seen=None):
    """does the value depend on something satisfying pred(node, term) — through variables, arguments and list elements"""
    seen = seen if seen is not None else set()
    if depth > 20: return False
    for d, v in leaves(g, t, node):
        if (d.id, v) in seen: continue
        seen.add((d.id, v))
        if pred(d, v): return True
        k = v[0]
        if k in ("call", "spawn"):
            c = g.nodes[v[1]]
            for x in ([c.recv] if c.get("recv") is not None else []) + list(c.args) + list(c.kw.values()):
                if deep(g, x, c, pred, depth + 1, seen): return True
        if k in ("list", "comp", "tuple", "set") or (k == "bin" and v[1] == "+"):
            for a, x in elements(g, v, d):
                if deep(g, x, a, pred, depth + 1, seen): return True
        if k == "comp":
            for h in g.comps[v[2]]["heads"]:
                if deep(g, g.nodes[h].iter, g.nodes[h], pred, depth + 1, seen): return True
        if k == "elem":
            h = g.nodes[v[2]]
            if deep(g, h.iter if h.get("iter") is not None else v[1], h, pred, depth + 1, seen): return True
            continue
        for x in (v[2] if k == "bool" else v[1:]):
            if isinstance(x, tuple) and x and isinstance(x[0], str) and deep(g, x, d, pred, depth + 1, seen): return True
    return False


def ctor(g, v, *names):
    return v[0] == "call" and g.nodes[v[1]].name in names


def ctor_args(ck, g, c, cname):
    fn = ck.p.cls("prodsys.simulation.request." + cname).find_method("__init__")
    return argmap(c, fn)


def kinds_of(g, t, node):
    """isinstance guards under which the elements a term stands for were collected"""
    out = set()
    for d, v in leaves(g, t, node):
        if v[0] != "elem": continue
        h = g.nodes[v[2]]
        for a, x in elements(g, h.iter, h):
            for b, s, pol in g.guard_atoms(a):
                if pol and s.startswith("isinstance(") and g.r(x, a) in s: out.add(s.rsplit(", ", 1)[1].rstrip(")"))
            out |= kinds_of(g, x, a)
        # guard directly on the loop variable
        for b, s, pol in g.guard_atoms(node):
            if pol and s.startswith("isinstance(" + g.r(t, node) + ","): out.add(s.rsplit(", ", 1)[1].rstrip(")"))
    return out


def match_guard(g, a, c):
    """the matches_request call that guards adding the request c (constructor call) at a"""
    txt = g.render(("call", c.id))
    for b, s, pol in g.guard_atoms(a):
        t = g.resolve(b.term, b); p = pol
        while t[0] == "not": t = t[1]; p = not p
        if p and t[0] == "call" and g.nodes[t[1]].name == "matches_request":
            m = g.nodes[t[1]]
            for x in list(m.args) + list(m.kw.values()):
                if any(v == ("call", c.id) for _, v in leaves(g, x, m)) or g.r(x, m) == txt: return b, m
    return None


def process_of_resource(g, m, res):
    """the matching process is one of the processes of the resource the request is directed to"""
    for d, v in leaves(g, m.recv, m):
        if v[0] == "elem":
            h = g.nodes[v[2]]
            if g.r(h.iter, h) == res + ".processes": return True
    return g.r(m.recv, m) == f"elem({res}.processes)"


def set_after(g, c, a, m, res):
    """the concrete process is written into the request on every path from the match to its addition (or right after it)"""
    txt = g.render(("call", c.id))
    for s in g.calls("set_process"):
        if s.recv is None or g.r(s.recv, s) != txt or not s.args and "process" not in s.kw: continue
        v = s.args[0] if s.args else s.kw["process"]
        ok = m is not None and g.r(v, s) == g.r(m.recv, m) if m is not None else g.r(v, s) == f"elem({res}.processes)"
        if not ok: continue
        if g.dominates(s, a): return True
        h = innermost(g, a)
        if h is not None and g.dominates(a, s) and g.path_avoiding(a, [h, g.exit], [s]) is None: return True
    for s in g.nodes:
        if s.kind == "store" and s.attr == "process" and s.id in g.live() and g.r(s.base, s) == txt and (g.dominates(s, a)):
            if m is not None and g.r(s.value, s) == g.r(m.recv, m): return True
    return False


def full_sweep(ck, rule, name, g, a, what):
    """every loop around the addition a visits all of its elements"""
    for e0 in g.guards(a):
        h = g.nodes[e0.of]
        if h.kind != "loophead" or e0.label != "iter" or h.iter is None: continue
        inside = g.reaches(a, h)
        e = visits_all(g, h) if inside else a
        own = g.r(h.iter, h).endswith(".processes")       # one matching process is enough
        if e is not None and own and (not inside and False or g.dominates(a, e) and e is not a): continue
        if e is not None:
            ck.ob(rule, name, False, f"the search for {what} may stop before all of {g.r(h.iter, h)[:120]} have been considered", e.loc); return
    ck.ob(rule, name, True, "", a.loc)


def production(ck):
    name = "Router.route_product_to_production_resource"
    g = ck.graph(R + "route_product_to_production_resource", stop=STOP)
    n = 0; adds_seen = set(); chosen = 0
    gates = {e.id for e, h, v in gate_elements(g)}
    ck.ob("gate-applied", name, bool(gates), "candidates are not filtered by free places", g.fn.loc)
    for rn in returns(g):
        for d, v in leaves(g, rn.value, rn):
            if v == ("const", None): continue
            chosen += 1
            os = origins(g, v, d)
            ck.ob("routed-provenance", name, bool(os), "the routed request does not come out of the collected candidates", rn.loc)
            for od, ov, chain in os:
                n += 1
                if not ctor(g, ov, "Request"):
                    ck.ob("routed-provenance", name, False, f"a routed request is {g.r(ov, od)[:120]} instead of one of the collected candidates", rn.loc); continue
                c = g.nodes[ov[1]]; m = ctor_args(ck, g, c, "Request")
                for p, want in (("product", "product"), ("process", "product.next_prodution_process")):
                    got = g.r(m[p], c) if p in m else "nothing"
                    ck.ob("request-content", f"{name}/{p}", got == want, f"the candidate request carries {got[:120]} instead of {want}", c.loc)
                res = g.r(m["resource"], c) if "resource" in m else "?"
                ks = kinds_of(g, m["resource"], c) if "resource" in m else set()
                ck.ob("production-resources-only", name, "ProductionResource" in ks, "candidates are not restricted to production resources", c.loc)
                a = next((x for x in reversed(chain) if x.kind in ("compelt", "call") and match_guard(g, x, c)), None)
                ck.ob("capable", name, a is not None, "a resource becomes a candidate without one of its processes matching the requested one", c.loc)
                if a is not None:
                    b, mm = match_guard(g, a, c)
                    ck.ob("capable", name + "/own-process", process_of_resource(g, mm, res), f"the matching process is not one of the resource's own ({g.r(mm.recv, mm)[:100]})", mm.loc)
                    ck.ob("process-set", name, set_after(g, c, a, mm, res), "the request does not get the matching process of the resource", a.loc)
                    full_sweep(ck, "all-considered", name, g, a, "capable resources")
                    extra = [s for b2, s, pol in g.guard_atoms(a) if b2.id != b.id and any(g.dominates(iter_edge(g, h), b2) for h in g.loops_of(a) if h.iter is not None) and not s.startswith("isinstance(") and res in s]
                    ck.ob("all-considered", name + "/conditions", not extra, f"capable resources are left out by the condition {extra[0][:120] if extra else ''}", a.loc)
                # reachability
                reach = [x for x in chain if x.kind in ("compelt", "call") and any(reach_guard(g, b2, pol, x) for b2, s, pol in g.guard_atoms(x))]
                ck.ob("reachable", name, bool(reach), "candidates are not restricted to resources that a transport can reach", c.loc)
                ck.ob("gate-passed", name, any(x.id in gates for x in chain), "the routed request is not taken out of the candidates found to have free places", rn.loc)
    ck.need("routed production requests", n)
    # nothing possible -> error
    for cname, what in (("Request", "no resource can perform the process"), ("TransportResquest", "no transport can reach a resource")):
        ok = False
        for x in g.nodes:
            if x.kind != "raise" or x.id not in g.live(): continue
            for e in g.guards(x):
                b = g.nodes[e.of]
                if b.kind != "branch": continue
                t = b.term; pol = e.label
                while t[0] == "not": t = t[1]; pol = not pol
                t = emptiness(g, t, b, pol)
                if t is not None and any(ctor(g, ov, cname) for od, ov, ch in members(g, *t)): ok = True
        ck.ob("error-if-impossible", f"{name}/{cname}", ok, f"if {what} the product waits for ever instead of an error being raised", g.fn.loc)
    return g


def emptiness(g, t, b, pol):
    """the list that is empty when the branch term t has truth value pol"""
    for d, v in leaves(g, t, b):
        while v[0] == "not": v = v[1]; pol = not pol
        if v[0] == "call" and g.nodes[v[1]].name in ("len", "bool") and g.nodes[v[1]].args: return (g.nodes[v[1]].args[0], g.nodes[v[1]]) if not pol else None
        if v[0] == "cmp":
            a, c = v[2], v[3]; op = v[1]
            if a[0] == "const": a, c = c, a; op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
            if a[0] != "call" or g.nodes[a[1]].name != "len" or c[0] != "const": return None
            empty = {("==", 0): True, ("!=", 0): False, (">", 0): False, ("<", 1): True, (">=", 1): False, ("<=", 0): True}.get((op, c[1]))
            return (g.nodes[a[1]].args[0], g.nodes[a[1]]) if empty is not None and empty == pol else None
        if pol is False: return v, d
    return None


def reach_guard(g, b, pol, x):
    """guard `candidate.resource... in {targets of possible transports}`"""
    if not pol: return False
    t = g.resolve(b.term, b)
    if t[0] == "not" or t[0] != "cmp" or t[1] not in ("in", "=="): return False
    return deep(g, b.term, b, lambda d, v: ctor(g, v, "TransportResquest"))


def choice(ck, fname, what):
    """gate -> heuristic -> first element; fresh decision after every wait; no candidates -> error"""
    name = f"Router.{fname}"
    g = ck.graph(R + fname, stop=STOP)
    live = g.live()
    check_gate(ck, "non-blocked", name, g) if what != "plain" else None
    gates = gate_elements(g)
    heads = [h for e, h, v in gates]
    heur = [n for n in g.nodes if n.kind == "call" and n.id in live and (n.name == "routing_heuristic" or (n.func is not None and g.r(n.func, n).endswith("routing_heuristic")))]
    rets = [(rn, d, v) for rn in returns(g) for d, v in leaves(g, rn.value, rn) if v != ("const", None)]
    if what in ("choose",):
        ck.ob("heuristic-consulted", name, bool(heur), "the routing heuristic is not consulted", g.fn.loc)
        for rn, d, v in rets:
            c = g.nodes[v[1]] if v[0] == "call" else None
            first = (c is not None and c.name in ("pop", "popleft") and c.recv is not None and (c.name == "popleft" or (len(c.args) == 1 and c.args[0] == ("const", 0)))) or (v[0] == "item" and v[2] == ("const", 0))
            ck.ob("first-chosen", name, first, f"the chosen request is {g.r(v, d)[-80:]} instead of the first one after ordering", rn.loc)
            if not first: continue
            lst = c.recv if c is not None else v[1]; at = c if c is not None else d
            ck.ob("gate-passed", name, any(x.id in {e.id for e, _, _ in gates} for _, _, ch in members(g, lst, at) for x in ch), "the chosen request does not come out of the candidates found to be free", rn.loc)
            own = [h for h in heur if h.args and g.r(h.args[0], h) == g.r(lst, at)]
            passed = {x.id for _, _, ch in members(g, lst, at) for x in ch}
            made = [h for e, h, _ in gates if e.id in passed] or heads
            ck.ob("heuristic-consulted", name + "/order", bool(own) and all(g.path_avoiding(x, at, own) is None for x in made), "the request is chosen without the heuristic having ordered the free candidates", rn.loc)
    for y in g.nodes:
        if y.kind != "yield" or y.id not in live: continue
        t = g.resolve(y.value, y)
        ev = g.nodes[t[1]] if t[0] == "call" and g.nodes[t[1]].name in ("AnyOf", "any_of", "AllOf", "all_of") else None
        if ev is None: continue
        la = ev.kw.get("events") or (ev.args[-1] if ev.args else None)
        if la is None: continue
        els = [(a, x) for a, x in elements(g, la, ev)]
        if not any("state_change" in g.r(x, a) for a, x in els): continue
        ck.ob("wait-any", name, ev.name in ("AnyOf", "any_of"), "the waiting item only wakes up when all queues have changed", y.loc)
        want = {"get_routed_production_request": "queues", "route_product_to_storage": "stores", "route_auxiliary_to_store": "stores"}.get(fname)
        if want and any(g.reaches(y, r) for r in g.calls("reserve") if r.id in live): wait_complete(ck, name, g, y, els, gates, want)
        for rn, d, v in rets:
            for h in heads[:1] or [None]:
                ck.ob("decide-anew", name, h is not None and g.path_avoiding(y, d, heads) is None, "after waiting the item is routed without looking again which targets are free", y.loc)
        # nothing possible -> error instead of waiting
        src = {x for h in heads if g.reaches(y, h) for x in unfiltered(g, h.iter, h)}
        certain = any(s.startswith("[") and s != "[]" for s in src)
        raised = False
        for b in g.nodes:
            if b.kind != "branch" or b.id not in live or not g.dominates(b, y): continue
            for e in g.nodes:
                if e.kind == "edge" and e.of == b.id:
                    fal = e
                    if not g.dominates(fal, y) and not g.reaches(fal, y):
                        if any(x.kind == "raise" and x.id in live and g.dominates(fal, x) for x in g.nodes): raised = raised or empties(g, b, e.label, src)
        ck.ob("error-if-impossible", name, raised or certain or fname in ("get_routed_production_request",), "if nothing can ever match the item waits for ever instead of an error being raised", y.loc)


def empties(g, b, label, src):
    """taking `label` at b means that the candidate list is empty"""
    t = g.resolve(b.term, b); pol = label
    while t[0] == "not": t = t[1]; pol = not pol
    s = g.render(t)
    if s in src: return pol is False
    l = lin_atom(g, b.term if label else ("not", b.term), b)
    for x in src:
        if l and any(str(k).startswith("len(" + x[:40]) for k, v in l[1] if k != 1): return True
    return False


def unfiltered(g, t, node, depth=0):
    """renderings of the list and of the lists it is an unfiltered image of"""
    out = {g.r(t, node)}
    for d, v in leaves(g, t, node):
        if v[0] == "comp" and depth < 6 and len(g.comps[v[2]]["heads"]) == 1:
            h = g.nodes[g.comps[v[2]]["heads"][0]]; e = g.nodes[g.comps[v[2]]["elt"]]
            if not [1 for b, s, pol in g.guard_atoms(e) if g.dominates(h, b)]: out |= unfiltered(g, h.iter, h, depth + 1)
    return out


def wait_complete(ck, name, g, y, els, gates, want):
    srcs = {g.r(h.iter, h) for e, h, v in gates if g.reaches(y, h)}
    got = {"queues": False, "stores": False}
    for a, x in els:
        s = g.r(x, a)
        if not s.endswith(".state_change"): continue
        kind = "queues" if ".input_queues)" in s else "stores"
        ok = True; why = ""
        # everything the event was collected through
        chain = [a] + [z for z in chain_nodes(g, x, a)]
        for z in chain:
            for h in g.loops_of(z):
                if h.iter is None: continue
                e = visits_all(g, h)
                if e is not None and not g.reaches(y, h): ok, why = False, f"the search for queues stops early at {e.loc}"
                elif e is not None and g.dominates(h, y) is False and e.id not in {n.id for n in g.nodes if n.kind == "edge"}: ok, why = False, f"the search for queues stops early at {e.loc}"
                for l in loop_guards(g, z, h):
                    if "isinstance(" in l and ("ProductionResource)" in l or "Store)" in l): continue
                    if " in " in l and l.startswith("!"): continue
                    ok, why = False, f"queues are left out by the condition {l[:120]}"
        src = base_iter(g, x, a)
        if src and srcs and not (src & srcs): ok, why = False, "the awaited queues are not those of the possible targets"
        if kind != want: continue
        if ok: got[kind] = True
        else: ck.ob("wait-complete", name, False, why, a.loc)
    for k, v in got.items():
        if k == want: ck.ob("wait-complete", f"{name}/{k}", v, f"a waiting item is not woken up by changes of the {'input queues of possible resources' if k == 'queues' else 'possible stores'}", y.loc)


def chain_nodes(g, x, a):
    out = []
    t = x
    while t[0] == "attr": t = t[1]
    for d, v in leaves(g, t, a):
        if v[0] == "elem":
            h = g.nodes[v[2]]; out.append(h)
            it = h.iter
            while it[0] == "attr": it = it[1]
            for dd, vv in leaves(g, it, h):
                if vv[0] == "elem":
                    h2 = g.nodes[vv[2]]
                    for a2, x2 in elements(g, h2.iter, h2): out.append(a2); out += chain_nodes(g, x2, a2)
            for a2, x2 in elements(g, h.iter, h): out.append(a2); out += chain_nodes(g, x2, a2)
    return out


def base_iter(g, x, a, depth=0):
    """renderings of the request lists that a collected queue event ultimately comes from"""
    out = set()
    if depth > 8: return out
    t = x
    while t[0] == "attr": t = t[1]
    for d, v in leaves(g, t, a):
        while v[0] == "attr": v = v[1]
        if v[0] == "elem":
            h = g.nodes[v[2]]
            el = elements(g, h.iter, h)
            if el:
                for a2, x2 in el: out |= base_iter(g, x2, a2, depth + 1)
                if not out: out.add(g.r(h.iter, h))
            else:
                it = h.iter; q = False
                while it[0] == "attr": it = it[1]; q = True
                if q or it[0] == "var": 
                    sub = base_iter(g, it, h, depth + 1) if it[0] != "param" else set()
                    out |= sub or {g.r(h.iter, h)}
                else: out.add(g.r(h.iter, h))
        elif v[0] == "var": out |= base_iter(g, v, d, depth + 1)
    return out


def transports(ck, fname, target):
    """what a transport request that is handed out looks like and how it was matched"""
    name = f"Router.{fname}"
    g = ck.graph(R + fname, stop=STOP)
    n = 0; sig = set()
    for rn in returns(g):
        for d, v in leaves(g, rn.value, rn):
            if v == ("const", None): continue
            for od, ov, chain in origins(g, v, d):
                if not ctor(g, ov, "TransportResquest"):
                    ck.ob("transport-provenance", name, False, f"the routed transport is {g.r(ov, od)[:100]}", rn.loc); continue
                c = g.nodes[ov[1]]; m = ctor_args(ck, g, c, "TransportResquest")
                n += 1
                item = g.r(m["product"], c) if "product" in m else "?"
                for p, want in (("origin", item + ".current_locatable"), ("process", item + ".transport_process")):
                    got = g.r(m[p], c) if p in m else "nothing"
                    ck.ob("transport-content", f"{name}/{p}", got == want, f"the transport request has {p} {got[:100]} instead of {want[:100]}", c.loc)
                tgt = g.r(m["target"], c) if "target" in m else "nothing"
                ck.ob("transport-content", f"{name}/target", target(tgt, g, m.get("target"), c), f"the transport is directed to {tgt[:140]}", c.loc)
                ks = kinds_of(g, m["resource"], c) if "resource" in m else set()
                ck.ob("transport-resources-only", name, "TransportResource" in ks, "transports are not restricted to transport resources", c.loc)
                res = g.r(m["resource"], c) if "resource" in m else "?"
                a = next((x for x in reversed(chain) if x.kind in ("compelt", "call") and x.name_is_add), None) if False else None
                for x in chain:
                    if x.kind not in ("compelt", "call") or not any(any(vv == ("call", c.id) for _, vv in leaves(g, u, x)) for u in ([x.value] if x.kind == "compelt" else x.args)): continue
                    mg = match_guard(g, x, c)
                    cached = cached_ok(g, x, c, res, m)
                    ck.ob("transport-matched", name, mg is not None or cached is True, (cached if isinstance(cached, str) else None) or "a transport is used without its process matching the one the item needs", x.loc)
                    if mg is not None:
                        ck.ob("transport-matched", name + "/own-process", process_of_resource(g, mg[1], res), "the matching process is not one of the transport resource's own", x.loc)
                    ck.ob("process-set", name, set_after(g, c, x, mg[1] if mg else None, res), "the transport request does not get the matching process of the resource", x.loc)
                    full_sweep(ck, "all-considered", name, g, x, "transports")
                cache_stores(ck, name, g, c, m, res)
    ck.need(f"routed transports in {fname}", n)


def key_of(g, t, node): return g.r(t, node)


def cached_ok(g, x, c, res, m):
    """the request copies the route of a cached request with the same target and process"""
    txt = g.render(("call", c.id))
    cp = [s for s in g.calls("copy_cached_routes") if s.recv is not None and g.r(s.recv, s) == txt and g.dominates(s, x)]
    if not cp: return None
    want = f"({g.r(m['target'], c)}.data.ID, elem({res}.processes).process_data.ID)"
    for s in cp:
        v = g.resolve(s.args[0], s) if s.args else None
        if v is None: return "nothing is copied"
        ks = [g.render(v[2])] if v[0] in ("item", "sub") and len(v) > 2 else [g.r(a, g.nodes[v[1]]) for a in g.nodes[v[1]].args[:1]] if v[0] == "call" else []
        if ks != [want]: return f"the cached route is looked up under {ks and ks[0][-120:]} instead of the transport's own target and process"
        # the cache entry must be known to exist under the same key
        gs = [g.render(g.resolve(b.term, b)) for b, sx, pol in g.guard_atoms(s) if pol]
        if not any(want in q for q in gs): return "a cached route is used without one existing for this target and process"
    return True


def cache_stores(ck, name, g, c, m, res):
    want = f"({g.r(m['target'], c)}.data.ID, elem({res}.processes).process_data.ID)"
    txt = g.render(("call", c.id))
    for s in g.nodes:
        if s.kind != "substore" or s.id not in g.live(): continue
        if g.r(s.value, s) != txt: continue
        k = g.r(s.index, s) if s.get("index") is not None else ""
        ck.ob("route-cache-key", name, k == want, f"a found route is cached under {k[-120:]} instead of its target and process", s.loc)
        ck.ob("route-cache-value", name, match_guard(g, s, c) is not None, "a route is cached although the process did not match", s.loc)


# ---- matching predicates --------------------------------------------------------------
ID = "(request.process.process_data.ID == self.process_data.ID)"
CAP = "(request.process.process_data.capability == self.process_data.capability)"
IN = "(self.process_data.ID in request.process.process_data.process_ids)"
MEMB = "(request.process.process_data.ID in self.process_data.process_ids)"
RCAP = "request.process.process_data.capability"
KINDS = ("ProductionProcess", "CapabilityProcess", "TransportProcess", "CompoundProcess", "RequiredCapabilityProcess", "ReworkProcess", "LinkTransportProcess")
# (offered, requested) -> alternatives: facts of which one must be established when the request is accepted; refusing must refute one fact of every alternative
ROUTE = "find_route"
EXPECT = {
 ("ProductionProcess", "ProductionProcess"): [{ID}], ("ProductionProcess", "CompoundProcess"): [{IN}],
 ("CapabilityProcess", "CapabilityProcess"): [{CAP}], ("CapabilityProcess", "RequiredCapabilityProcess"): [{CAP}],
 ("CapabilityProcess", "LinkTransportProcess"): [{CAP, RCAP}], ("CapabilityProcess", "CompoundProcess"): "witness",
 ("TransportProcess", "TransportProcess"): [{ID}], ("TransportProcess", "LinkTransportProcess"): [{ID}], ("TransportProcess", "CompoundProcess"): [{IN}],
 ("CompoundProcess", "ProductionProcess"): [{MEMB}], ("CompoundProcess", "TransportProcess"): [{MEMB}], ("CompoundProcess", "LinkTransportProcess"): [{MEMB}],
 ("CompoundProcess", "CapabilityProcess"): "witness", ("CompoundProcess", "RequiredCapabilityProcess"): "witness", ("CompoundProcess", "CompoundProcess"): "witness",
 ("ReworkProcess", "ReworkProcess"): [{ID}],
 ("LinkTransportProcess", "LinkTransportProcess"): [{ID, ROUTE}], ("LinkTransportProcess", "RequiredCapabilityProcess"): [{CAP, ROUTE}], ("LinkTransportProcess", "CompoundProcess"): "witness",
}


def isinst(p, s, kind, subj):
    """truth of an isinstance test on the requested process under the assumption that it is exactly of class `kind`"""
    if not s.startswith(f"isinstance({subj}, "): return None
    names = [x.strip().split(".")[-1] for x in s[len(f"isinstance({subj}, "):].rstrip(")").lstrip("(").split(",")]
    mro = {c.name for c in p.cls(PR + kind).mro()}
    return any(n in mro for n in names)


def matching(ck, cname, kind, rework=False):
    ci = ck.p.cls(PR + cname); fn = ci.find_method("matches_request")
    if fn is None: return
    g = ck.graph(fn, mode="cond", selfcls=ci, stop=("find_route", "set_route"))
    exp = EXPECT.get((cname, kind))
    name = f"{cname}.matches_request/{kind}"
    subj = "request.process"
    def edge(x, n, s, lab, st):
        if s.kind == "edge" and g.nodes[s.of].kind == "branch" and lab != "exc":
            b = g.nodes[s.of]; t = g.resolve(b.term, b); pol = s.label
            while t[0] == "not": t = t[1]; pol = not pol
            txt = g.render(t)
            v = isinst(ck.p, txt, kind, subj)
            if v is not None: return st if v == pol else None
            if txt == "isinstance(request, ReworkRequest)": return st if pol == rework else None
            if txt == RCAP and kind not in ("LinkTransportProcess", "CapabilityProcess", "RequiredCapabilityProcess"): return st if not pol else None
            d = dict(st)
            if t[0] == "call" and g.nodes[t[1]].name == "find_route": txt = ROUTE
            if txt == "hasattr(request, 'auxiliary')":
                if pol: d[ROUTE] = True
                return tuple(sorted(d.items()))
            if t[0] == "list" and not t[1] or t[0] == "var":
                if d.get("added", False) != pol: return None
                return st
            w = witness(g, b, t, cname, kind)
            if w is not None:
                if pol: d["W"] = "ok" if w is True else w
                elif "in listcomp" in txt and d.get("W") is None: d["W"] = False
                return tuple(sorted(d.items()))
            if txt in (ID, CAP, IN, MEMB, RCAP, ROUTE):
                if d.get(txt, pol) != pol: return None
                d[txt] = pol
            return tuple(sorted(d.items()))
        if s.kind == "loophead" or (s.kind == "edge" and s.label == "iter"):
            d = dict(st)
            if kind == "CompoundProcess" and s.kind == "edge" and g.nodes[s.of].kind == "loophead":
                if not d.get("added"): d.pop("W", None)
            return tuple(sorted(d.items()))
        return st
    def step(x, n, st):
        d = dict(st)
        if n.kind == "call" and n.name in ("append", "add") and n.recv is not None:
            if d.get("W") != "ok": x.bad("matching", n, f"a contained process is taken for a match without {'its capability or identifier having been compared' if not d.get('W') else d['W']}")
            d["added"] = True
            return tuple(sorted(d.items()))
        if n is g.texit:
            if exp is None: x.bad("matching", n, f"a request for a {kind} is accepted by a {cname}")
            elif exp == "witness":
                if d.get("W") != "ok": x.bad("matching", n, f"a request for a {kind} is accepted by a {cname} without a contained process matching" + (f" ({d['W']})" if d.get("W") else ""))
                if cname == "LinkTransportProcess" and d.get(ROUTE) is not True: x.bad("matching", n, "a transport over links is accepted without a route having been found")
            elif not any(all(d.get(f) is True for f in alt) or (cname == "LinkTransportProcess" and kind == "LinkTransportProcess" and d.get(CAP) and d.get(ROUTE)) for alt in exp):
                x.bad("matching", n, f"a request for a {kind} is accepted by a {cname} without {' and '.join(sorted(pretty(f) for f in exp[0]))} having been established")
        if n is g.fexit and exp is not None:
            if exp == "witness":
                if d.get("W") == "ok" and d.get(ROUTE) is not False: x.bad("matching-refused", n, f"a request for a {kind} is refused by a {cname} although a contained process matches")
            elif not all(any(d.get(f) is False for f in alt) for alt in exp) and not (cname == "LinkTransportProcess" and (d.get(CAP) is False or d.get(ROUTE) is False)):
                x.bad("matching-refused", n, f"a request for a {kind} is refused by a {cname} although nothing speaks against it")
        return st
    x = Explore(g, (), step, edge)
    report(ck, x, name, g, ["matching", "matching-refused"])
    if exp is not None: ck.ob("matching-possible", name, any(k[0] == g.texit.id for k in x.seen), f"a request for a {kind} is never accepted by a {cname}", fn.loc)
    return g


def pretty(f):
    return {ID: "equal identifiers", CAP: "equal capabilities", IN: "the process being part of the requested one", MEMB: "the requested process being part of it", RCAP: "the requested capability being given", ROUTE: "a route"}.get(f, f)


def witness(g, b, t, cname, kind):
    """a comparison of contained processes: True (right) / text (wrong) / None (not one)"""
    if EXPECT.get((cname, kind)) != "witness" or t[0] != "cmp" or t[1] not in ("in", "=="): return None
    s = g.render(t)
    if "contained_processes_data" not in s: return None
    if "contained_processes_data).capability" not in s and "contained_processes_data).ID" not in s: return "the wrong attribute is compared"
    if (".capability" in s) and (".ID" in s): return "identifiers are compared with capabilities"
    # elements must be addressed as configuration data, not as simulation objects
    if ".process_data." in s.replace("self.process_data.", "").replace("request.process.process_data.", ""): return "the contained processes are read like simulation objects"
    return True


def classes_tested(ck):
    """isinstance tests on contained process data name data classes"""
    n = 0
    datas = {c.name for c in ck.p.all_classes() if c.mod.name == "prodsys.models.processes_data"}
    for cname in KINDS:
        ci = ck.p.cls(PR + cname); fn = ci.find_method("matches_request")
        if fn is None: continue
        g = ck.graph(fn, mode="cond", selfcls=ci, stop=("find_route", "set_route"))
        for b in g.nodes:
            if b.kind != "branch" or b.id not in g.live(): continue
            s = g.r(b.term, b)
            if s.startswith("isinstance(elem(") and "contained_processes_data)" in s:
                n += 1
                nm = s.rsplit(", ", 1)[1].rstrip(")").split(".")[-1]
                ck.ob("contained-class", f"{cname}.matches_request", nm in datas, f"contained process data is tested for being a {nm}, which it never is", b.loc)
    return n


def routes(ck):
    """accepting a transport request fixes its route: origin to target, or the route found over the links"""
    ci = ck.p.cls(PR + "TransportProcess")
    g = ck.graph(ci.find_method("matches_request"), mode="cond", selfcls=ci, stop=("set_route",))
    calls = [n for n in g.calls("set_route") if n.recv is not None and g.r(n.recv, n) == "request"]
    ok = bool(calls) and g.path_avoiding(g.entry, g.texit, calls) is None
    ck.ob("route-set", "TransportProcess.matches_request", ok, "a transport request is accepted without its route being set", g.fn.loc)
    for n in calls:
        v = g.arg(n, 0, "route")
        ck.ob("route-set", "TransportProcess.matches_request/route", v is not None and g.r(v, n) == "[request.origin, request.target]", f"the direct route is {g.r(v, n) if v else 'missing'}", n.loc)


def factories(ck):
    for m, cls in (("get_production_resources", "ProductionResource"), ("get_transport_resources", "TransportResource")):
        fn = ck.p.func(f"prodsys.factories.resource_factory.ResourceFactory.{m}")
        g = ck.graph(fn)
        for rn in returns(g):
            es = [e for e in elements(g, rn.value, rn)]
            ok = bool(es)
            for a, v in es:
                gs = g.guard_set(a); s = g.r(v, a)
                ok = ok and s == "elem(self.resources)" and f"isinstance({s}, {cls})" in gs and not [x for x in gs if not x.startswith("isinstance(")]
            ck.ob("kind-listing", f"ResourceFactory.{m}", ok, f"does not list exactly the {cls}s", rn.loc)


def storage(ck):
    """candidates for storing are the stores among the output queues; the transport goes where the place was promised"""
    g = ck.graph(R + "route_product_to_storage", stop=STOP)
    rs = [n for n in g.calls("reserve") if n.id in g.live()]
    tr = [n for n in g.calls("TransportResquest") if n.id in g.live()]
    for c in tr:
        m = ctor_args(ck, g, c, "TransportResquest")
        for r in rs:
            ck.ob("promise-where-routed", "Router.route_product_to_storage", g.r(m["target"], c) == g.r(r.recv, r), "the product is transported to another store than the one in which a place was promised", c.loc)
    ck.need("storage promises", len(rs)); ck.need("storage transports", len(tr))
    for r in rs:
        for od, ov, chain in origins(g, base_of(r.recv), r):
            if ctor(g, ov, "ToTransportRequest"):
                c = g.nodes[ov[1]]; m = ctor_args(ck, g, c, "ToTransportRequest")
                ck.ob("storage-candidates", "Router.route_product_to_storage", "Store" in kinds_of(g, m["target"], c) and "product.current_locatable.output_queues" in g.r(m["target"], c), "candidates for storing are not the stores among the output queues of the resource", c.loc)
                ck.ob("storage-candidates", "Router.route_product_to_storage/product", g.r(m["product"], c) == "product", "another product is stored", c.loc)
    g = ck.graph(R + "route_auxiliary_to_store", stop=STOP)
    hs = [h for e, h, v in gate_elements(g)]
    for r in [n for n in g.calls("reserve") if n.id in g.live()]:
        ok = any(g.dominates(h, r) and g.path_avoiding(g.entry, r, [h]) is None for h in hs)
        ck.ob("gate-applied", "Router.route_auxiliary_to_store", ok, "a place in the store is promised without it having been found free", r.loc)
    for c in [n for n in g.calls("TransportResquest") if n.id in g.live()]:
        m = ctor_args(ck, g, c, "TransportResquest")
        for r in [n for n in g.calls("reserve") if n.id in g.live()]:
            a, b = g.r(m["target"], c), g.r(r.recv, r)
            ck.ob("promise-where-routed", "Router.route_auxiliary_to_store", a == b or a.endswith(".resource") and f"resource={b}" in a, f"the auxiliary is transported to {a[-80:]}, but a place was promised in {b[-80:]}", c.loc)
    g = ck.graph(R + "route_product_to_sink", stop=STOP)
    for c in [n for n in g.calls("TransportResquest") if n.id in g.live()]:
        m = ctor_args(ck, g, c, "TransportResquest")


def base_of(t):
    while t[0] == "attr": t = t[1]
    return t


def check(ck):
    production(ck)
    choice(ck, "get_routed_production_request", "choose")
    choice(ck, "route_transport_resource_for_item", "choose")
    choice(ck, "route_product_to_sink", "choose")
    choice(ck, "route_product_to_storage", "any")
    choice(ck, "route_auxiliary_to_store", "any")
    transports(ck, "route_transport_resource_for_item", lambda s, g, t, c: s == "routed_production_request.resource" or s.endswith(".resource") and s.startswith(g.fn.params()[1]))
    transports(ck, "route_product_to_sink", lambda s, g, t, c: deep(g, t, c, lambda d, v: v[0] == "call" and g.nodes[v[1]].name in ("get_sink", "ToTransportRequest", "choice")))
    for c in KINDS:
        if c == "RequiredCapabilityProcess": continue
        for k in KINDS: matching(ck, c, k)
    ck.need("class tests on contained processes", classes_tested(ck), 3)
    routes(ck); factories(ck); storage(ck)
    # the place is promised in the moment of choice
    g = ck.graph(R + "get_routed_production_request", stop=STOP)
    rs = [n for n in g.calls("reserve", "reserve_internal_input_queues") if n.id in g.live() and not n.get("inlined")]
    heads = [h for e, h, v in gate_elements(g)]
    ys = [n for n in g.nodes if n.kind == "yield" and n.id in g.live()]
    for rn in returns(g):
        for d, v in leaves(g, rn.value, rn):
            if v == ("const", None): continue
            ck.ob("promised-at-choice", "Router.get_routed_production_request", bool(rs) and g.path_avoiding(d, g.exit, rs) is None or (bool(rs) and all(g.dominates(r, rn) for r in rs)), "a resource is chosen without a place being promised in its input queue", rn.loc)
    for r in rs:
        for y in ys:
            ck.ob("promised-at-choice", f"Router.get_routed_production_request/{y.loc.split(':')[-1]}" if False else "Router.get_routed_production_request/atomic", g.path_avoiding(y, r, heads) is None, "time may pass between the choice of a free resource and the promise of its place", r.loc)
