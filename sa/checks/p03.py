"""P03 Items are moved, never lost or duplicated."""
TECHNIQUE = "typestate exploration of the work steps (retrieve, operate, deliver, announce) over inlined control-flow graphs"
NOTE = "All paths of every controller's work step, of the source and of the product's request are covered; simpy's FilterStore is trusted to move the item when its event fires."
import re
from .steps import *

RULES = ("retrieved-first", "retrieval-waited", "empty-before-pickup", "operation-waited", "delivered", "delivery-after-operation", "delivery-waited", "delivered-once", "location-carried", "location-delivered", "announced-after-delivery", "announced-once", "retrieved-once")


def const_of(g, t, node):
    vs = {g.r(v, d) for d, v in leaves(g, t, node)}
    return {"True": True, "False": False}.get(next(iter(vs))) if len(vs) == 1 else None


def filter_ok(g, n, it):
    t = g.arg(n, 0, "filter")
    if t is None: return False, "no filter"
    s = g.r(t, n)
    own = {x + ".product_data" for x in it.single} | {x.replace(".product", ".get_product()") + ".product_data" for x in it.single}
    m = re.fullmatch(r"lambda \((.*)\)", s)
    if not m: return False, s
    for op in (" is ", " == "):
        if op in m[1]:
            a, b = m[1].split(op, 1)
            for x, y in ((a, b), (b, a)):
                if it.batch:
                    if x == "$0.product_type" and y in {o + ".product_type" for o in own}: return True, s
                else:
                    if x == "$0" and y in own: return True, s
                    if x == "$0.ID" and y in {o + ".ID" for o in own}: return True, s
    return False, s


def step_check(ck, ci):
    g = step_graph(ck, ci); name = f"{ci.name}.{g.fn.name}"; it = Items(ck, g, ci)
    transport = ci.name.startswith("Transport") or any("empty_transport" in n.kw for n in g.calls("process_state"))
    gs, ps = gets(g), puts(g)
    ops = [n for n in g.calls("process_state") if n.id in g.live()]
    sc = [n for n in g.calls("succeed") if n.id in g.live() and g.resolve(n.recv, n)[0] == "attr" and g.resolve(n.recv, n)[2] == "finished_process"]
    waited = set()
    for y in g.nodes:
        if y.kind == "yield" and y.id in g.live(): waited |= call_ids(g, y.value, y)
    loose = [n for n in g.nodes if n.kind == "spawn" and n.id in g.live() and n.id not in waited and ci.find_method(n.name) is not None and n.recv is not None and g.r(n.recv, n) == "self"]
    for n in loose: ck.ob("operation-waited", f"{name}/{n.name}", False, f"the step starts {n.name} without waiting for its end", n.loc)
    if loose and not ops: return
    ck.need(f"retrievals of {ci.name}", len(gs), 1); ck.need(f"operations of {ci.name}", len(ops), 1)
    R = sorted(it.req)
    # what is retrieved and from where
    for n in gs:
        ok, s = filter_ok(g, n, it)
        ck.ob("takes-requested-item", name, ok, f"the retrieval takes {s} instead of the requested item", n.loc)
        src = g.r(n.recv, n)
        want = ".origin" if transport else ".resource"
        lists = ".output_queues" if transport else ".input_queues"
        lv = [(d, v) for d, v in leaves(g, n.recv, n) if v != ("const", None)]
        good = bool(lv)
        for d, v in lv:
            txt = g.r(v, d)
            here = any((r + want + lists) in txt for r in it.req) or ("self.resource" + lists in txt and not transport)
            if transport and any(txt == r + want for r in it.req):
                here = any("isinstance(" in x and not x.startswith("!") and ("Store" in x or "Queue" in x) for x in g.guard_set(n))
            if any(w in txt for w in ((".output_queues",) if lists == ".input_queues" else (".input_queues", ".target"))): here = False
            if here and not it.batch and lists in txt:
                known = txt + " ".join(x for z in [n, d] + def_chain(g, n.recv, n) for x in g.guard_set(z))
                if not re.search(r"product_data in [^&]*items", known):
                    ck.ob("origin-holds-item", name, False, "the queue the item is retrieved from is not the one that holds it", n.loc)
            good &= here
        ck.ob("from-origin", name, good, f"the item is retrieved from {src}", n.loc)
    for n in ps:
        v = g.arg(n, 0, "item")
        ck.ob("puts-same-item", name, v is not None and it.attr(v, n, ("product_data", "data")), f"{g.r(v, n) if v is not None else 'nothing'} is put into the target queue instead of the item that was processed", n.loc)
        dst = " ".join(g.r(v, d) for d, v in leaves(g, n.recv, n))
        if transport: good = all(any(r + ".target" in g.r(v, d) for r in it.req) and ".output_queues" not in g.r(v, d) for d, v in leaves(g, n.recv, n))
        else: good = all((".output_queues" in g.r(v, d)) and ".input_queues" not in g.r(v, d) and (any(r + ".resource.output_queues" in g.r(v, d) for r in it.req) or "self.resource.output_queues" in g.r(v, d)) for d, v in leaves(g, n.recv, n))
        ck.ob("to-target", name, good, f"the item is put into {dst[:200]}", n.loc)
        extra = it.guards_in_loop(n)
        ck.ob("every-item-delivered", name, not extra, f"an item is only delivered if {sorted(extra)}", n.loc)
    for n in sc:
        ck.ob("announces-same-item", name, it.attr(n.recv, n, ("finished_process",)), f"{g.r(n.recv, n)} is announced as finished instead of the processed item", n.loc)
        extra = it.guards_in_loop(n)
        ck.ob("every-item-announced", name, not extra, f"an item is only announced if {sorted(extra)}", n.loc)
    # containers whose truth shows that something was retrieved
    events = {n.id for n in gs + ps + ops}
    marks = {}
    def mark(n, tag):
        m, prob = it.marks(n)
        if prob: ck.ob("all-items", name, False, prob, n.loc)
        marks.setdefault(m.id, []).append((tag, n))
    for n in ps: mark(n, "put")
    for n in ops: mark(n, "op")
    for n in sc: mark(n, "fin")
    aw = {y.id: awaited(g, y, events) for y in g.nodes if y.kind == "yield" and y.id in g.live()}
    getids = {n.id for n in gs}; putids = {n.id for n in ps}; opids = {n.id for n in ops}
    empty = {n.id: (const_of(g, n.kw["empty_transport"], n) if "empty_transport" in n.kw else (None if transport else False)) for n in ops}
    if transport:
        for n in ops: ck.ob("empty-known", name, empty[n.id] is not None, "it is not fixed whether this drive is empty or loaded", n.loc)
    nonempty = {}
    for b in g.nodes:
        if b.kind == "branch" and b.id in g.live():
            ids = set()
            for d, x in elements(g, b.term, b):
                ids |= {v[1] for dd, v in leaves(g, x, d) if v[0] == "call"}
            if ids and ids <= getids: nonempty[b.id] = True
    locs = {}
    for n in g.stores("current_locatable"):
        if n.id in g.live() and it.scalar(n.base, n):
            v = g.r(n.value, n)
            locs[n.id] = "carried" if v == "self.resource" or v in {r + ".resource" for r in it.req} else "delivered" if v in {r + ".target" for r in it.req} else "other:" + v
    def step(x, n, st):
        d = dict(st)
        if n.id in getids:
            if d["op"]: x.bad("retrieved-first", n, "the item is taken out of its queue although the operation has already been started")
            if n.id in d["pend"]: d["twice"] = True
            d["got"] = True; d["pend"] = d["pend"] | {n.id}
        for tag, e in marks.get(n.id, ()):
            if tag == "op":
                if empty[e.id]:
                    if d["got"]: x.bad("empty-before-pickup", e, "the resource drives empty although the item has already been taken out of its queue")
                    d["pend"] = d["pend"] | {e.id}
                else:
                    if not d["got"]: x.bad("retrieved-first", e, "the operation starts although the item was not taken out of its origin queue")
                    elif d["pend"] & getids: x.bad("retrieval-waited", e, "the operation starts without the retrieval having taken effect")
                    if transport and d["loc"] != "carried": x.bad("location-carried", e, f"the item is carried while its recorded location is {'unchanged' if d['loc'] is None else d['loc']}")
                    d["op"] = True; d["pend"] = d["pend"] | {e.id}
            elif tag == "put":
                if not d["op"] and not transport: x.bad("delivery-after-operation", e, "the item is delivered before the operation was started")
                if d["pend"] & opids: x.bad("delivery-after-operation", e, "the item is delivered before the operation has ended")
                if d["put"]: x.bad("delivered-once", e, "the item is put into target queues twice")
                d["put"] = True; d["pend"] = d["pend"] | {e.id}
            elif tag == "fin":
                if d["put"] is False: x.bad("delivered", e, "the step is announced as finished although the item was not put into a target queue")
                if d["pend"] & putids: x.bad("delivery-waited", e, "completion is announced before the delivery has taken effect")
                if d["pend"] & opids or (not d["op"] and not transport): x.bad("announced-after-delivery", e, "completion is announced before the operation has ended")
                if d["fin"]: x.bad("announced-once", e, "completion is announced twice")
                if transport and d["loc"] != "delivered": x.bad("location-delivered", e, f"the step is announced as finished while the recorded location of the item is {'unchanged' if d['loc'] is None else d['loc']}")
                d["fin"] = True
        if n.kind == "yield":
            d["pend"] = d["pend"] - aw.get(n.id, set())
        if n.id in locs:
            l = locs[n.id]
            if l == "carried" and (not d["got"] or d["pend"] & getids): x.bad("location-carried", n, "the item is recorded as being carried before it has been taken out of its queue")
            if l == "delivered" and (d["put"] is False or d["pend"] & putids): x.bad("location-delivered", n, "the item is recorded at the target before it has been put there")
            if l.startswith("other"): x.bad("location-delivered" if d["put"] else "location-carried", n, f"the recorded location of the item becomes {l[6:]}")
            d["loc"] = l
        if n is g.exit and not d["fin"]: x.bad("announced-once", n, "the work step ends without announcing the completion")
        return upd(d)
    def edge(x, n, s, lab, st):
        if lab == "exc": return None
        d = dict(st)
        if s.kind == "edge" and g.nodes[s.of].kind == "branch":
            b = g.nodes[s.of]; t = g.r(b.term, b)
            if b.id in nonempty and s.label is True: d["got"] = True
            if s.label is True and transport and t.startswith("isinstance("):
                if any(t.startswith(f"isinstance({r}.origin, ") for r in it.req) and "Sink" in t and not any(z in t for z in ("Resource", "Source", "Store", "Queue")): d["got"] = True
                if any(t.startswith(f"isinstance({r}.target, ") for r in it.req) and "Source" in t and "Resource" not in t and "Queue" not in t and "Sink" not in t: d["put"] = None
            if s.label is False and transport and b.id in nonempty and not d["got"]: pass
        return upd(d)
    x = Explore(g, mkstate(got=False, op=False, put=False, fin=False, loc=None, pend=frozenset(), twice=False), step, edge)
    report(ck, x, name, g, RULES)
    # the location changes in nothing but this step
    if not it.batch and not transport:
        ck.ob("location-carried", f"{name}/unchanged", not locs, "a production step changes the recorded location of the item", g.fn.loc)
    if it.batch:
        # the processed items are exactly those that arrived with the retrieval
        adds = [(a, v, t) for a, v, t in additions(g) if a.id in g.live() and it.from_sent(v, a, {y.id for y in it.retrieval_yields})]
        ck.ob("batch-items", name, len(adds) >= 1, "the batch does not consist of the retrieved items", g.fn.loc)
        for a, v, t in adds:
            h = innermost(g, a) if a.kind != "compelt" else g.nodes[g.comps[a.comp]["heads"][0]]
            full = h is not None and "sent(" in g.r(h.iter, h)
            lg = loop_guards(g, a, h) if h is not None else set()
            esc = visits_all(g, h) if h is not None and a.kind != "compelt" else None
            ck.ob("batch-items", f"{name}/all", full and not {l for l in lg if ".products" not in l and "product_data.ID" not in l} and esc is None, "not every retrieved item becomes part of the batch", a.loc)


def touches_queues(fn):
    for n in ast.walk(fn.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("get", "put"):
            if n.func.attr == "get" and (any(k.arg == "filter" for k in n.keywords) or (len(n.args) == 1 and isinstance(n.args[0], ast.Lambda))): yield n
    

def elsewhere(ck):
    """items are taken out of queues in the work steps only, and nobody edits the item list by hand"""
    inside = set()
    for ci in controllers(ck):
        g = step_graph(ck, ci)
        for n in gets(g): inside.add((n.ctx.fn.qual if hasattr(n.ctx, "fn") else None))
    k = 0
    for fn in ck.p.all_funcs("prodsys.simulation"):
        for n in touches_queues(fn):
            k += 1
            if fn.cls is not None and fn.cls.name in ("Queue", "Store"): continue
            ck.ob("retrievals-in-steps", fn.short, fn.qual in inside, "an item is taken out of a queue outside of a work step", fn.mod.loc(n) if hasattr(fn.mod, "loc") else fn.loc)
    ck.need("retrieval sites", k, 3)


def source(ck):
    ci = ck.p.cls("prodsys.simulation.source.Source")
    g = ck.graph(ci.find_method("create_product_loop"), selfcls=ci, stop=("Queue.put", "Queue.reserve", "create_product", "process_product"))
    name = "Source.create_product_loop"
    cr = [n for n in g.calls("create_product") if n.id in g.live()]
    ck.need("creation of products", len(cr), 1)
    new = {g.render(("call", n.id)) for n in cr}
    ps = puts(g); st = [n for n in g.calls("process_product") if n.id in g.live()]
    aw = {y.id: awaited(g, y, {n.id for n in ps}) for y in g.nodes if y.kind == "yield" and y.id in g.live()}
    marks = {}
    for n in ps:
        v = g.arg(n, 0, "item")
        ck.ob("puts-same-item", name, v is not None and g.r(v, n) in {x + ".product_data" for x in new}, "another item than the created product is put into the output queues", n.loc)
        hs = [h for h in g.loops_of(n) if h.iter is not None]
        ck.ob("to-target", name, any("self.output_queues" in g.r(x, n) for x in [n.recv]), "the product is not put into the output queues of the source", n.loc)
        if hs:
            h = hs[-1] if len(hs) == 1 else innermost(g, n)
            ck.ob("every-item-delivered", name, not loop_guards(g, n, h) and visits_all(g, h) is None, "the product is not put into every output queue of the source", n.loc)
            marks.setdefault(done_edge(g, h).id, []).append(n)
        else: marks.setdefault(n.id, []).append(n)
    def step(x, n, s):
        d = dict(s)
        if n in cr:
            if d["new"] and not d["run"]: x.bad("product-starts", n, "a created product is never started")
            d = dict(new=True, put=False, pend=frozenset(), loc=False, run=False)
        for e in marks.get(n.id, ()): d["put"] = True; d["pend"] |= {e.id}
        if n.kind == "yield": d["pend"] = d["pend"] - aw.get(n.id, set())
        if n.kind == "store" and n.attr == "current_locatable" and g.r(n.base, n) in new: d["loc"] = g.r(n.value, n) == "self"
        if n in st:
            if g.r(n.recv, n) not in new: x.bad("product-starts", n, "another product than the created one is started")
            if not d["put"]: x.bad("retrieved-first", n, "the product starts its life although it was not put into an output queue")
            elif d["pend"]: x.bad("delivery-waited", n, "the product starts its life before it lies in the output queue")
            if not d["loc"]: x.bad("location-source", n, "the product starts its life without its location being the source")
            if d["run"]: x.bad("product-starts", n, "the product is started twice")
            d["run"] = True
        return upd(d)
    def edge(x, n, s, lab, st): return None if lab == "exc" else st
    x = Explore(g, mkstate(new=False, put=False, pend=frozenset(), loc=False, run=False), step, edge)
    report(ck, x, name, g, ("product-starts", "retrieved-first", "delivery-waited", "location-source"))


def movers(ck):
    """location bookkeeping and the wait for completion of the moved things"""
    seen = 0
    for cq in ("prodsys.simulation.product.Product", "prodsys.simulation.auxiliary.Auxiliary"):
        ci = ck.p.cls(cq)
        m = ci.find_method("update_location")
        if m is not None:
            g = ck.graph(m); seen += 1
            st = [n for n in g.stores("current_locatable") if g.r(n.base, n) == "self" and g.r(n.value, n) == m.params()[1]]
            ck.ob("location-recorded", m.short, bool(st) and g.path_avoiding(g.entry, g.exit, st) is None and len(st) == len(g.stores("current_locatable")), "the new location is not recorded", m.loc)
        m = ci.find_method("request_process")
        g = ck.graph(m, selfcls=ci, stop=("request_process_of_resource", "log_end_process", "register_rework"))
        rq = [n for n in g.calls("request_process_of_resource") if n.id in g.live()]
        cnt = event_counts(g, lambda n: n in rq).get(g.exit.id)
        ck.ob("requested-once", m.short, cnt == frozenset([1]), "the request is not handed over exactly once", m.loc)
        for n in rq:
            v = g.arg(n, 0, "request")
            ck.ob("requested-once", f"{m.short}/request", v is not None and g.r(v, n) == m.params()[1], "another request is handed over", n.loc)
        def fresh(n): return n.kind == "store" and n.attr == "finished_process" and g.r(n.base, n) == "self" and (lambda t: t[0] == "call" and g.nodes[t[1]].name in ("Event", "event"))(g.resolve(n.value, n))
        waits = [y for y in g.nodes if y.kind == "yield" and y.id in g.live() and g.r(y.value, y) == "self.finished_process"]
        p = g.path_avoiding(g.entry, g.exit, waits)
        ck.ob("waits-for-completion", m.short, p is None and all(g.dominates(n, y) for n in rq for y in waits), "the end of the requested step is not waited for", m.loc)
        # the event that is waited for is untriggered: renewed before the request, or after every completion and at the start
        def step(x, n, s):
            d = dict(s)
            if fresh(n): d["f"] = True; 
            if n in rq and d["f"] is None: d["entryneed"] = True
            if n in rq and d["f"] is False: x.bad("fresh-completion-event", n, "the completion event has already been used by the previous step")
            if n.kind == "store" and n.attr == "finished_process" and not fresh(n): d["f"] = False
            if fresh(n) and d.get("req") and not d.get("done"): x.bad("fresh-completion-event", n, "the completion event is replaced while the step is running, so its completion is missed")
            if n in rq: d["req"] = True
            if n in waits: d["done"] = True; d["f"] = False
            if n is g.exit and d["entryneed"] and d["f"] is not True: x.bad("fresh-completion-event", n, "the used completion event is not renewed for the next step")
            return upd(d)
        x = Explore(g, mkstate(f=None, req=False, done=False, entryneed=False), step, lambda x, n, s, lab, st: None if lab == "exc" else st)
        report(ck, x, m.short, g, ("fresh-completion-event",))
    ci = ck.p.cls("prodsys.simulation.product.Product")
    g = ck.graph(ci.find_method("process_product"), selfcls=ci, stop=("request_process", "register_finished_product", "log_create_product", "log_finish_product", "set_next_production_process", "route_product_to_sink", "route_auxiliary_to_product", "route_auxiliary_to_store", "route_transport_resource_for_item", "route_product_to_production_resource", "route_product_to_storage", "check_store_product", "Auxiliary.request_process", "release_auxiliary_from_product", "Auxiliary.update_location"))
    rq = [n for n in g.calls("request_process") if n.id in g.live() and n.recv is not None and g.r(n.recv, n) == "self"]
    first = [n for n in g.stores("finished_process") if g.r(n.base, n) == "self"]
    ck.ob("fresh-completion-event", "Product.process_product", all(any(g.dominates(f, n) for f in first) for n in rq) and bool(rq), "the first step of a product has no completion event", g.fn.loc)
    # every request of the product is waited for before the next one
    for n in rq:
        y = [m for m in g.nodes if m.kind == "yield" and m.id in g.live() and g.resolve(m.value, m) in (("call", n.id), ("spawn", n.id))]
        ck.ob("one-step-at-a-time", "Product.process_product", bool(y) and g.path_avoiding(n, g.exit, y) is None, "a step of the product is not waited for before its next step", n.loc)
    reg = [n for n in g.calls("register_finished_product") if n.id in g.live()]
    cnt = event_counts(g, lambda n: n in reg).get(g.exit.id)
    ck.ob("registered-once", "Product.process_product", cnt == frozenset([1]), "a finished product is not registered exactly once", g.fn.loc)
    for n in reg:
        ck.ob("registered-once", "Product.process_product/at-sink", g.r(n.recv, n) == "self.current_locatable" and n.args and g.r(n.args[0], n) == "self", f"{g.r(n.args[0], n) if n.args else ''} is registered as finished at {g.r(n.recv, n)}", n.loc)
        # last thing done before: transport to the sink
        sinks = [m for m in rq if "route_product_to_sink" in g.r(m.args[0], m)]
        ck.ob("registered-at-sink", "Product.process_product", any(g.dominates(m, n) for m in sinks), "a product is registered as finished without having been transported to a sink", n.loc)


def registry(ck):
    """finished products move from the list of products to the list of finished products"""
    ci = ck.p.cls("prodsys.factories.product_factory.ProductFactory")
    g = ck.graph(ci.find_method("register_finished_product"), selfcls=ci)
    p = g.fn.params()[1]
    ad = [(a, v, t) for a, v, t in additions(g) if a.id in g.live() and t is not None and g.r(t, a) == "self.finished_products"]
    cnt = event_counts(g, lambda n: n in [a for a, _, _ in ad]).get(g.exit.id)
    ck.ob("finished-kept", "ProductFactory.register_finished_product", cnt == frozenset([1]) and all(g.r(v, a) == p for a, v, t in ad), "a finished product is not kept exactly once", g.fn.loc)
    st = [n for n in g.stores("products") if n.id in g.live()]
    rm = [n for n in g.calls("remove") if n.id in g.live() and g.r(n.recv, n) == "self.products"]
    ok = False
    for n in st:
        t = g.resolve(n.value, n)
        if t[0] == "comp":
            info = g.comps[t[2]]; e = g.nodes[info["elt"]]; h = g.nodes[info["heads"][-1]]
            lits = loop_guards(g, e, h)
            E = "elem(self.products)"
            ok = g.r(h.iter, h) == "self.products" and g.r(e.value, e) == E and lits in ({f"!({E}.product_data.ID == {p}.product_data.ID)"}, {f"!({p}.product_data.ID == {E}.product_data.ID)"}, {f"!({E} is {p})"}, {f"!({p} is {E})"}, {f"!({E}.product_data is {p}.product_data)"})
            ck.ob("finished-removed", "ProductFactory.register_finished_product/keeps-others", ok, f"the running products become {g.render(t)[:200]}", n.loc)
    for n in rm: ok = g.r(n.args[0], n) == p
    ck.ob("finished-removed", "ProductFactory.register_finished_product", ok, "a finished product stays among (or other products are removed from) the running products", g.fn.loc)
    g = ck.graph(ci.find_method("create_product"), selfcls=ci, stop=("create_process_model", "get_process", "observe_terminal_product_states"))
    ad = [(a, v) for a, v, t in additions(g) if a.id in g.live() and t is not None and g.r(t, a) == "self.products"]
    cnt = event_counts(g, lambda n: n in [a for a, _ in ad]).get(g.exit.id)
    ret = {g.r(r.value, r) for r in returns(g)}
    ck.ob("created-kept", "ProductFactory.create_product", cnt == frozenset([1]) and {g.r(v, a) for a, v in ad} == ret, "a created product is not kept exactly once among the running products", g.fn.loc)
    up = attr_deltas(g, "product_counter").get(g.exit.id)
    ck.ob("unique-id", "ProductFactory.create_product", up is not None and 0 not in up and all(x > 0 for x in up), f"the number that makes product IDs unique changes by {sorted(up) if up else 'an unknown amount'}", g.fn.loc)
    ids = [n for n in g.stores("ID") if n.id in g.live()]
    ck.ob("unique-id", "ProductFactory.create_product/used", any("self.product_counter" in g.r(n.value, n) for n in ids), "product IDs are not made unique", g.fn.loc)
    # counter is never reset or shared elsewhere
    for fn in ck.p.all_funcs("prodsys"):
        for n in ast.walk(fn.node):
            for t in (n.targets if isinstance(n, ast.Assign) else []):
                if isinstance(t, ast.Attribute) and t.attr == "product_counter" and fn.name != "__init__":
                    ck.ob("unique-id", fn.short, fn.qual == g.fn.qual, "the product counter is changed", fn.loc)


def check(ck):
    for ci in controllers(ck): step_check(ck, ci)
    elsewhere(ck); source(ck); movers(ck); registry(ck)
