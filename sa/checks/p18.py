"""P18 Auxiliaries are held by one product and given back."""
TECHNIQUE = "provenance tracing of the auxiliary handed to a product through the filters it has passed, path queries between test, wait and reservation, typestate exploration of the auxiliary over the product's life, ownership scan of the holding fields"
NOTE = "Decides for all paths which conditions an assigned auxiliary has met and that it is located, carried back and released once; that a free transport and a free place in the storage are found in the end is not decided (P41)."
from ..lib import *
from .steps import elements
from .p15 import origins, deep, ctor, ctor_args
from .p14 import src_names, P, RSTOP

R = "prodsys.simulation.router.Router."
A = "prodsys.simulation.auxiliary.Auxiliary"


def atoms(g, a):
    out = []
    for b, s, pol in g.guard_atoms(a):
        t = g.resolve(b.term, b); q = pol
        while t[0] == "not": t = t[1]; q = not q
        out.append((b, t, q))
    return out


def isnone(g, t, q, txt):
    """the literal states that txt is None / falsy"""
    if g.render(t) == txt: return not q
    if t[0] == "cmp" and ("const", None) in (t[2], t[3]) and txt in (g.render(t[2]), g.render(t[3])): return (t[1] in ("is", "==")) == q
    return None


def given(ck):
    name = "Router.route_auxiliary_to_product"
    f = ck.p.func(R + "route_auxiliary_to_product"); par = [x for x in f.params() if x != "self"][0]
    g = ck.graph(f, stop=("matches_request", "info", "debug", "log_start_auxiliary_usage"))
    live = g.live()
    reqs = [c for c in g.calls("AuxiliaryRequest") if c.id in live]
    for c in reqs:
        m = ctor_args(ck, g, c, "AuxiliaryRequest")
        ck.ob("request-content", name, g.r(m.get("product", ("const", None)), c) == par and g.r(m.get("process", ("const", None)), c) == par + ".transport_process", "the auxiliary is requested for another product or transport process", c.loc)
    sets = [s for s in g.stores("auxiliary") if s.id in live and s.value != ("param", "auxiliary") and any(g.r(s.base, s) == g.render(("call", c.id)) for c in reqs)]
    ck.ob("given", name, bool(sets) and g.path_avoiding(g.entry, g.exit, sets) is None, "the product can continue without having been given an auxiliary", f.loc)
    res = [s for s in g.stores("reserved") if s.id in live and g.r(s.value, s) == "True"]
    cur = [s for s in g.stores("current_product") if s.id in live]
    for s in sets:
        rq = g.r(s.base, s); x = g.r(s.value, s)
        os = [(od, ov, ch) for d, v in leaves(g, s.value, s) for od, ov, ch in origins(g, v, d)]
        ck.ob("from-factory", name, bool(os), "the auxiliary handed over is not one of the auxiliaries of the system", s.loc)
        for od, ov, chain in os:
            e = ov
            src = g.r(e, od)
            ck.ob("from-factory", name + "/source", e[0] == "elem" and src.endswith("auxiliary_factory.auxiliaries)"), f"the auxiliary handed over is {src[:100]}", s.loc)
            adds = [n for n in chain if n.kind in ("compelt", "call", "edge")]
            kind = match = free = unheld = None; fhead = []
            for n in adds:
                for b, t, q in atoms(g, n):
                    s1 = g.render(t)
                    if t[0] == "cmp" and t[1] in ("in", "==") and q and s1.find(".auxiliary_type") >= 0 and s1.rstrip(")").endswith("product.product_data.auxiliaries"): kind = b
                    if t[0] == "call" and g.nodes[t[1]].name == "matches_request" and q:
                        m = g.nodes[t[1]]
                        if any(g.r(y, m) == rq for y in list(m.args) + list(m.kw.values())) and "relevant_" in g.r(m.recv, m): match = b
                    v = val(g, n)
                    if v is not None and isnone(g, t, q, v + ".reserved") is True: free = b; fhead += [h for h in g.loops_of(n)[:1]] + [g.nodes[i.of] for i in g.guards(n) if g.nodes[i.of].kind == "loophead"]
                    if v is not None and isnone(g, t, q, v + ".current_product") is True: unheld = b
            ck.ob("kind-required", name, kind is not None, "an auxiliary is handed over without its kind being required by the product", s.loc)
            ck.ob("supports", name, match is not None, "an auxiliary is handed over without supporting the request", s.loc)
            ck.ob("not-reserved", name, free is not None, "an auxiliary is handed over although it may be reserved", s.loc)
            ck.ob("not-held", name, unheld is not None or free is not None and held_implies_reserved(ck), "an auxiliary is handed over although another product may hold it", s.loc)
            for n in adds:
                for h in {h.id: h for h in g.loops_of(n) + [g.nodes[i.of] for i in g.guards(n) if i.label == "iter"] if h.iter is not None}.values():
                    if "relevant_" in g.r(h.iter, h): continue
                    sliced(ck, g, h, "all-considered", name)
                    e = visits_all(g, h)
                    ck.ob("all-considered", name, e is None, f"the search for auxiliaries may stop before all of {g.r(h.iter, h)[:80]} have been considered", (e or h).loc)
            if free is not None:
                heads = [h for h in fhead if h.iter is not None and g.reaches(h, free)] + free_heads(g)
                for what, ss in (("reserved", res), ("given to the product", cur), ("handed over", sets)):
                    mine = [z for z in ss if what == "handed over" or g.r(z.base, z) == x]
                    ck.ob("reserved-at-once", f"{name}/{what}", bool(mine) and g.path_avoiding(g.entry, g.exit, mine) is None, f"the auxiliary is not {what} on every path", s.loc)
                    for z in mine:
                        ys = [y for y in g.nodes if y.kind == "yield" and y.id in live and g.reaches(y, z) and g.path_avoiding(y, z, heads) is not None]
                        for y in ys:
                            ck.ob("reserved-at-once", f"{name}/{what}-no-wait", not g.reaches(free, y), f"time passes between finding the auxiliary free and it being {what}, so two products can get it", y.loc)
                        if not ys: ck.ob("reserved-at-once", f"{name}/{what}-no-wait", True, "", z.loc)
                        if what == "given to the product": ck.ob("held-by", name, g.r(z.value, z) in (f"{rq}.product", par), f"the auxiliary is noted as held by {g.r(z.value, z)[:80]}", z.loc)
    # the auxiliary goes to where the product is
    for s in g.stores("resource"):
        if s.id in live and any(g.r(s.base, s) == g.render(("call", c.id)) for c in reqs) and s.value != ("param", "resource"):
            ck.ob("to-product", name, g.r(s.value, s).endswith(("product.current_locatable", par + ".current_locatable")), f"the auxiliary is directed to {g.r(s.value, s)[:80]} instead of where the product is", s.loc)
    # waiting
    n = 0
    for y in g.nodes:
        if y.kind != "yield" or y.id not in live: continue
        t = g.resolve(y.value, y)
        if t[0] != "call" or g.nodes[t[1]].name not in ("AnyOf", "any_of", "AllOf", "all_of"): continue
        c = g.nodes[t[1]]; la = c.kw.get("events") or c.args[-1]
        els = elements(g, la, c)
        if not any(g.r(v, a).endswith(".got_free") for a, v in els): continue
        n += 1
        ck.ob("wait-any", name, c.name in ("AnyOf", "any_of"), "a waiting product only goes on when all auxiliaries have become free", y.loc)
        for a, v in els:
            for h in g.loops_of(a):
                if h.iter is None or g.reaches(y, h) and not g.reaches(h, c): continue
                if g.dominates(h, c) and not g.dominates(h, a): continue
                if g.reaches(a, h):
                    e = visits_all(g, h)
                    own = h.id in [q for q in (g.comps[a.comp]["heads"] if a.kind == "compelt" else [innermost(g, a).id])]
                    if own:
                        gs = [l for l in loop_guards(g, a, h)]
                        sliced(ck, g, h, "wait-all-candidates", name)
                        ck.ob("wait-all-candidates", name, e is None and not gs, f"a waiting product is not woken up by every auxiliary it could use{' (' + sorted(gs)[0][:60] + ')' if gs else ''}", a.loc)
        # nothing suitable at all: no waiting
        ok = False
        for b in g.nodes:
            if b.kind == "branch" and b.id in live and any(x.kind == "raise" and x.id in live and any(e.of == b.id for e in g.guards(x)) for x in g.nodes):
                e = [x for x in g.nodes if x.kind == "edge" and x.of == b.id and g.reaches(x, y)]
                if g.dominates(b, y) and len(e) == 1: ok = True
        ck.ob("error-if-impossible", name, ok, "if no auxiliary can ever serve the product it asks again for ever without time passing instead of an error being raised", y.loc)
    ck.ob("waits", name, n > 0, "a product that finds no free auxiliary does not wait for one", f.loc)


def sliced(ck, g, h, rule, name):
    t = g.resolve(h.iter, h)
    ck.ob(rule, name, t[0] not in ("slice", "item"), f"only a part of the list is looked at: {g.render(t)[:80]}", h.loc)


def free_heads(g):
    """the loops that look for auxiliaries that are free"""
    out = []
    for h in g.nodes:
        if h.kind != "loophead" or h.iter is None: continue
        for b in g.nodes:
            if b.kind == "branch" and g.reaches(h, b) and any(x.id == h.id for x in g.loops_of(b)):
                if g.r(b.term, b).rstrip(")").endswith(".reserved"): out.append(h)
    return out


def val(g, n):
    """text of the element a filter addition adds (or the loop variable an edge guards)"""
    if n.kind == "compelt": return g.r(n.value, n)
    if n.kind == "call" and n.args: return g.r(n.args[-1], n)
    return None


def held_implies_reserved(ck):
    g = ck.graph(A + ".release_auxiliary_from_product")
    r = [s for s in g.stores("reserved")]; c = [s for s in g.stores("current_product")]
    return bool(r) and bool(c) and not any(y.kind == "yield" for y in g.nodes)


def held(ck):
    # fields that say who holds an auxiliary are only written where it is given and released
    for fld in ("reserved", "current_product", "got_free"):
        for f in list(ck.p.all_funcs("prodsys.simulation")) + list(ck.p.all_funcs("prodsys.factories")):
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and n.attr == fld and isinstance(n.ctx, ast.Store):
                    own = f.cls is not None and (f.cls.qual == A or (f.cls.name == "Router" and fld != "reserved"))
                    if fld == "got_free" and f.cls is not None and f.cls.qual != A and f.cls.name != "Router": continue
                    ck.ob("holding-owner", f"{f.short}/{fld}", own, "who holds an auxiliary is changed outside its reservation and release", f.loc)
    g = ck.graph(A + ".reserve", stop=("log_start_auxiliary_usage",)); nm = "Auxiliary.reserve"
    r = [s for s in g.stores("reserved") if g.r(s.value, s) == "True"]
    ck.ob("reserve", nm, bool(r) and g.path_avoiding(g.entry, g.exit, r) is None and not [s for s in g.stores("reserved") if g.r(s.value, s) != "True"], "a reserved auxiliary is not marked as reserved", g.fn.loc)
    ev = [s for s in g.stores("got_free") if "Event(" in g.r(s.value, s)]
    gr = ck.graph(R + "route_auxiliary_to_product", stop=("matches_request", "info", "debug", "log_start_auxiliary_usage"))
    ev2 = [s for s in gr.stores("got_free") if s.id in gr.live() and "Event(" in gr.r(s.value, s)]
    ck.ob("reserve", nm + "/fresh-event", (bool(ev) and g.path_avoiding(g.entry, g.exit, ev) is None) or (bool(ev2) and gr.path_avoiding(gr.entry, gr.exit, ev2) is None), "those waiting for a reserved auxiliary would find the event of its last release", g.fn.loc)
    g = ck.graph(A + ".release_auxiliary_from_product", stop=("log_end_auxiliary_usage",)); nm = "Auxiliary.release_auxiliary_from_product"
    for fld, want in (("reserved", "False"), ("current_product", "None")):
        ss = [s for s in g.stores(fld) if s.id in g.live()]
        ck.ob("release", f"{nm}/{fld}", bool(ss) and all(g.r(s.value, s) == want for s in ss) and g.path_avoiding(g.entry, g.exit, ss) is None, f"a released auxiliary stays {'reserved' if fld == 'reserved' else 'held by its product'}", g.fn.loc)
    su = [c for c in g.calls("succeed") if c.id in g.live() and g.r(c.recv, c) == "self.got_free"]
    ck.ob("release", nm + "/wakes", bool(su) and g.path_avoiding(g.entry, g.exit, su) is None and not any(g.reaches(a, b) for a in su for b in su), "those waiting for the auxiliary are not woken up exactly once", g.fn.loc)
    for s in g.stores("got_free"):
        if s.id in g.live(): ck.ob("release", nm + "/event", not any(g.reaches(s, c) for c in su), "the event the waiting products listen to is replaced before it is triggered", s.loc)
    g = ck.graph(A + ".init_got_free"); nm = "Auxiliary.init_got_free"
    ck.ob("initial", nm, bool(g.stores("got_free")), "a new auxiliary has no event to wait for", g.fn.loc)
    rs = ck.p.cls(A).find_field("reserved")
    g = ck.graph(A + ".request_process", stop=("request_process_of_resource", "log_end_process", "debug")); nm = "Auxiliary.request_process"
    req = [x for x in g.fn.params() if x != "self"][0]
    rq = [c for c in g.calls("request_process_of_resource") if c.id in g.live()]
    ys = [y for y in g.nodes if y.kind == "yield" and y.id in g.live() and g.r(y.value, y) == "self.finished_process" or y.kind == "yield" and g.r(y.value, y).startswith("simpy.events.Event(")]
    ck.ob("carried", nm, bool(rq) and g.path_avoiding(g.entry, g.exit, rq) is None and not any(g.reaches(a, b) for a in rq for b in rq) and all(req in [g.r(x, c) for x in list(c.args) + list(c.kw.values())] for c in rq), "the transport of an auxiliary is not requested exactly once", g.fn.loc)
    ck.ob("carried", nm + "/awaited", bool(ys) and all(g.path_avoiding(c, g.exit, ys) is None for c in rq), "the transport of an auxiliary is not waited for", g.fn.loc)
    fr = [s for s in g.stores("finished_process") if s.id in g.live()]
    ck.ob("carried", nm + "/fresh-event", any(all(g.dominates(s, c) for c in rq) for s in fr) or bool(fr) and all(g.path_avoiding(y, g.exit, fr) is None for y in ys), "a transport would find the completion event of the auxiliary's last transport", g.fn.loc)


def life(ck):
    name = "Product.process_product"
    g = ck.graph(P + ".process_product", stop=RSTOP + ("Product.request_process", "Auxiliary.request_process", "request_process", "set_next_production_process", "release_auxiliary_from_product"))
    live = g.live()
    G, S, T = "route_auxiliary_to_product", "route_auxiliary_to_store", "route_transport_resource_for_item"
    own = {}; sink = {}
    for n in g.nodes:
        if n.kind in ("call", "spawn") and n.id in live and n.name == "request_process" and n.recv is not None:
            k = src_names(g, (list(n.args) + list(n.kw.values()))[0], n)
            if g.r(n.recv, n) == "self": sink[n.id] = k
            else: own[n.id] = (k, g.r(n.recv, n))
    ev = {}
    for y in g.nodes:
        if y.kind != "yield" or y.id not in live: continue
        for d, v in leaves(g, y.value, y):
            if v[0] not in ("call", "spawn"): continue
            i = v[1]
            if g.nodes[i].name == "process" and g.nodes[i].args:
                for d2, v2 in leaves(g, g.nodes[i].args[0], g.nodes[i]):
                    if v2[0] in ("call", "spawn"): i = v2[1]
            if i in own:
                ev[y.id] = ("back" if S in own[i][0] else "deliver", g.nodes[i])
            elif i in sink: ev[y.id] = ("own:" + "/".join(sorted(sink[i])), g.nodes[i])
            elif g.nodes[i].name in (G, S): ev[y.id] = (g.nodes[i].name, g.nodes[i])
    rel = [n for n in g.calls("release_auxiliary_from_product") if n.id in live]
    loc = [s for s in g.stores("current_locatable") if s.id in live and g.r(s.base, s) != "self"]
    ck.ob("given-back", name, bool(rel), "an auxiliary is never released", g.fn.loc)
    COND = "self.product_data.auxiliaries"
    def step(x, n, st):
        d = dict(st)
        if n.kind == "edge" and g.nodes[n.of].kind == "branch":
            t = g.resolve(g.nodes[n.of].term, g.nodes[n.of]); pol = bool(n.label)
            while t[0] == "not": t = t[1]; pol = not pol
            if g.render(t) == COND or (t[0] == "call" and g.nodes[t[1]].name in ("len", "bool") and g.r(g.nodes[t[1]].args[0], g.nodes[t[1]]) == COND):
                if d["need"] is not None and d["need"] != pol: return None
                d["need"] = pol
        if n.id in ev:
            k, c = ev[n.id]
            if k == G:
                if d["a"] not in ("none", "given0"): x.bad("one-auxiliary", n, "a product that holds an auxiliary is given another one")
                d["a"] = "given0"
            elif k == "deliver":
                if d["a"] != "given0": x.bad("delivered", n, "an auxiliary is carried to the product that it has not been given to")
                d["a"] = "held"
            elif k == S:
                if not d["fin"]: x.bad("given-back", n, "the auxiliary is taken away before the product is finished")
                if not d["loc"]: x.bad("follows", n, "the auxiliary is fetched without its position having been set to where the product ended")
                if d["a"] not in ("held", "routed"): x.bad("given-back", n, "an auxiliary is sent back that the product does not hold")
                d["a"] = "routed"
            elif k == "back":
                if d["a"] != "routed": x.bad("given-back", n, "an auxiliary is sent back that the product does not hold")
                d["a"] = "back"
            elif k.startswith("own:"):
                if d["need"] is not False and d["a"] != "held" and not d["fin"]: x.bad("delivered", n, "the product goes on before the auxiliary it needs has been delivered")
                if "sink" in k: d["fin"] = True
        if n in loc:
            if g.r(n.value, n) == "self.current_locatable" and d["fin"]: d["loc"] = True
            elif not d["fin"]: x.bad("follows", n, "the position of the auxiliary is set before the product has ended")
            else: x.bad("follows", n, "the position of the auxiliary is set to another place than where the product ended")
        if n in rel:
            if d["a"] == "free": x.bad("released-once", n, "an auxiliary is released twice")
            elif d["a"] != "back": x.bad("released-after-return", n, "an auxiliary is released before it is back in its storage")
            d["a"] = "free"
        if n is g.exit:
            if d["need"] is None: x.bad("given", n, "whether the product needs an auxiliary is not asked")
            elif d["need"] and d["a"] != "free": x.bad("given-back", n, "a product's life can end without its auxiliary being released")
        return upd(d)
    def edge(x, n, s, lab, st): return None if lab == "exc" and n.kind != "raise" else st
    x = Explore(g, mkstate(need=None, a="none", fin=False, loc=False), step, edge)
    report(ck, x, name, g, ("one-auxiliary", "delivered", "given-back", "follows", "released-once", "released-after-return", "given"))
    # it is always the auxiliary that the product was given
    AUX = None
    for what, nodes in (("transported", [g.nodes[i] for i in own]), ("released", rel), ("located", loc)):
        for n in nodes:
            t = n.base if n.kind == "store" else n.recv
            ok = g.r(t, n).endswith(".auxiliary") and G in g.r(t, n)
            ck.ob("same-auxiliary", f"{name}/{what}", ok, f"another auxiliary is {what} than the one given to the product ({g.r(t, n)[:80]})", n.loc)
    for n in g.nodes:
        if n.kind in ("call", "spawn") and n.id in live and n.name == S:
            a = list(n.args) + list(n.kw.values())
            ck.ob("same-auxiliary", f"{name}/returned", bool(a) and g.r(a[0], n).endswith(".auxiliary") and G in g.r(a[0], n), "another auxiliary is sent back than the one given to the product", n.loc)
        if n.kind in ("call", "spawn") and n.id in live and n.name == T:
            a = list(n.args) + list(n.kw.values())
    used = [own[i] for i in own]
    ck.ob("carried", name, any(T in k for k, _ in used) and any(S in k for k, _ in used), "the auxiliary is not carried both to the product and back to its storage", g.fn.loc)


def back(ck):
    name = "Router.route_auxiliary_to_store"
    f = ck.p.func(R + "route_auxiliary_to_store"); par = [x for x in f.params() if x != "self"][0]
    g = ck.graph(f, stop=("route_transport_resource_for_item", "get_requests_with_non_blocked_resources", "get_input_queue_state_change_events"))
    rs = [c for c in g.nodes if c.kind in ("call", "spawn") and c.name == "route_transport_resource_for_item" and c.id in g.live()]
    ck.ob("to-storage", name, bool(rs), "no transport is requested for the way back", f.loc)
    for c in rs:
        for d, v in leaves(g, (list(c.args) + list(c.kw.values()))[0], c):
            ok = False
            if ctor(g, v, "AuxiliaryRequest"):
                m = ctor_args(ck, g, g.nodes[v[1]], "AuxiliaryRequest"); n = g.nodes[v[1]]
                ok = g.r(m.get("auxiliary", ("const", None)), n) == par and g.r(m.get("resource", ("const", None)), n) == par + ".storage" and g.r(m.get("process", ("const", None)), n) == par + ".transport_process"
                ch = [s for s in g.nodes if s.kind == "store" and s.id in g.live() and s.attr in ("auxiliary", "resource", "process") and g.r(s.base, s) == g.render(v) and s.ctx is g.root]
                ok = ok and not ch
            ck.ob("to-storage", name + "/target", ok, "the auxiliary is not sent back to its own storage with its own transport process", c.loc)
    # the storage of an auxiliary never changes
    for fn in list(ck.p.all_funcs("prodsys.simulation")) + list(ck.p.all_funcs("prodsys.factories")):
        for n in ast.walk(fn.node):
            if isinstance(n, ast.Attribute) and n.attr == "storage" and isinstance(n.ctx, ast.Store): ck.ob("to-storage", fn.short, False, "the storage of an auxiliary is changed", fn.loc)
    # an auxiliary request moves the auxiliary, not the product
    g = ck.graph(R + "route_transport_resource_for_item", stop=("matches_request", "Queue.full", "Resource.full", "find_route", "set_process", "copy_cached_routes", "debug"))
    n = 0; rp = [x for x in g.fn.params() if x != "self"][0]
    for c in g.calls("TransportResquest"):
        if c.id not in g.live(): continue
        m = ctor_args(ck, g, c, "TransportResquest"); n += 1
        ls = leaves(g, m["product"], c)
        ok = len(ls) >= 2
        for d, v in ls:
            s = g.r(v, d); at = {(g.render(g.resolve(b.term, b)), pol) for b, x, pol in g.guard_atoms(d)}
            isaux = [pol for s2, pol in at if s2.startswith(f"isinstance({rp},") and "AuxiliaryRequest" in s2]
            ok = ok and ((s == rp + ".auxiliary" and isaux == [True]) or (s == rp + ".product" and isaux in ([False], [])))
        ck.ob("moves-auxiliary", "Router.route_transport_resource_for_item", ok, "a transport for an auxiliary does not move the auxiliary", c.loc)
    ck.ob("moves-auxiliary", "Router.route_transport_resource_for_item/any", n > 0, "no transport is requested", g.fn.loc)


def created(ck):
    name = "AuxiliaryFactory"
    f = ck.p.func("prodsys.factories.auxiliary_factory.AuxiliaryFactory.create_auxiliary")
    g = ck.graph(f, stop=("add_auxiliary", "log_create_auxiliary"))
    adds = [c for c in g.calls("add_auxiliary") if c.id in g.live()]
    ck.ob("created", name + ".create_auxiliary", bool(adds), "no auxiliary is created", f.loc)
    for c in adds:
        hs = [h for h in g.loops_of(c) if h.iter is not None]
        for h in hs:
            e = visits_all(g, h); gs = loop_guards(g, c, h)
            ck.ob("created", name + ".create_auxiliary/all", e is None and not gs, f"not every configured auxiliary is created", (e or h).loc)
        its = [g.r(h.iter, h) for h in hs]
        for h in hs:
            t = g.resolve(h.iter, h); s1 = g.render(t)
            ck.ob("created", name + ".create_auxiliary/all", "[:" not in s1 and not any(x in s1.split("(") or x + "(" in s1 for x in ("min", "islice")) and "slice(" not in s1 and ":]" not in s1, f"not every configured auxiliary is created ({s1[:80]})", h.loc)
        ck.ob("created", name + ".create_auxiliary/quantity", any("range(" in i and "quantity_in_storages" in i for i in its), "the number of auxiliaries created is not the configured quantity of each storage", c.loc)
        sp = list(c.args)[1:] + [v for k, v in c.kw.items() if k != "auxiliary_data"]
        q = next((i[6:-1] for h, i in zip(hs, its) if i.startswith("range(") and "quantity_in_storages" in i), "")
        want = {q.replace("quantity_in_storages", "storages")}
        L = q[5:-len(".quantity_in_storages)")] if q.startswith("elem(") and q.endswith(".quantity_in_storages)") else None
        if L is None:
            i = q.find(".quantity_in_storages["); L = q[:i] if i > 0 else None
        if L: want |= {f"{L}.storages[index({L}.quantity_in_storages)]", f"elem({L}.storages)"}
        ok = False
        for a in sp[:1]:
            for od, ov, ch in origins(g, a, c):
                lits = [t for n in ch for b, t, pol in atoms(g, n) if pol] + [t for b, t, pol in atoms(g, od) if pol] + [ov]
                if any(t[0] == "cmp" and t[1] == "==" and {g.render(t[2]), g.render(t[3])} & want for t in lits) or any(w in g.render(ov) for w in want): ok = True
        ck.ob("created", name + ".create_auxiliary/storage", ok, "an auxiliary is not created in the storage its quantity is configured for", c.loc)
    g = ck.graph("prodsys.factories.auxiliary_factory.AuxiliaryFactory.add_auxiliary", stop=("get_process", "get_queue", "get_router", "observe_terminal_auxiliary_states", "model_copy"))
    ap = [s for s in g.calls("append") if s.id in g.live() and g.r(s.recv, s) == "self.auxiliaries"]
    ck.ob("created", name + ".add_auxiliary/listed", bool(ap) and g.path_avoiding(g.entry, g.exit, ap) is None, "a created auxiliary is not registered", g.fn.loc)
    lc = [s for s in g.stores("current_locatable") if s.id in g.live()]
    ck.ob("created", name + ".add_auxiliary/place", bool(lc) and all("get_queue(" in g.r(s.value, s) or g.r(s.value, s).endswith(".storage") for s in lc), "a created auxiliary does not start in its storage", g.fn.loc)
    it = [c for c in g.calls("init_got_free") if c.id in g.live()]
    st = [s for s in g.stores("got_free") if s.id in g.live()]
    ck.ob("created", name + ".add_auxiliary/free", bool(it or st), "a created auxiliary has no event to wait for", g.fn.loc)
    for t in ("relevant_processes", "relevant_transport_processes"):
        ok = False
        for n in g.nodes:
            if n.kind in ("call",) and n.id in g.live() and n.name == "update" and n.args and n.args[0][0] == "dict":
                for k, v in n.args[0][1]:
                    if k == ("const", t):
                        for a, x in elements(g, v, n):
                            hs = [h for h in g.loops_of(a) if h.iter is not None and g.r(h.iter, h).endswith("." + t)]
                            ok = bool(hs) and visits_all(g, hs[0]) is None and not loop_guards(g, a, hs[0]) and "get_process(elem(" in g.r(x, a)
        if not ok:
            ok = any(t in "".join(g.r(v, n) for v in list(n.kw.values()) + list(n.args)) for n in g.nodes if n.kind == "call" and n.name in ("Auxiliary", "model_validate")) and _supports(g, t)
        ck.ob("created", f"{name}.add_auxiliary/{t}", ok, f"the {t.replace('_', ' ')} of a created auxiliary are not the configured ones", g.fn.loc)


def _supports(g, t):
    for n in g.nodes:
        if n.kind == "substore" and n.id in g.live() and g.r(n.index, n) in (f"'{t}'", t): v = n.value
        elif n.kind == "call" and t in n.kw and n.id in g.live(): v = n.kw[t]
        else: continue
        for a, x in elements(g, v, n):
            hs = [h for h in g.loops_of(a) if h.iter is not None and g.r(h.iter, h).endswith("." + t)]
            if hs and visits_all(g, hs[0]) is None and not loop_guards(g, a, hs[0]) and "get_process(elem(" in g.r(x, a): return True
    return False


def check(ck):
    given(ck); held(ck); life(ck); back(ck); created(ck)
