"""P31 Batches are complete and processed together."""
TECHNIQUE = "guard analysis of the dispatch of a batch, counting of what is retrieved, started, delivered and announced per product of the batch on the inlined control-flow graph of a work step, and data flow of the drawn duration into every started process"
NOTE = "That a batch of the same product type becomes complete at all is a liveness question and not decided."
import re
from ..lib import *
from ..index import FuncInfo
from .. import peval
from .p23 import complete, only, per_pass
from .steps import CT, STOP, work_step, step_graph, gets, puts, awaited, call_ids, elements, homes, Items, request_text

SIZE = ".data.batch_size"


def is_size(g, t, n):
    """is a term the batch size of the resource?"""
    ls = leaves(g, t, n)
    return bool(ls) and all(size_text(g, v, d) for d, v in ls)


def size_text(g, v, d):
    t = g.r(v, d)
    if t.endswith((SIZE, ".resource.batch_size", "resource.batch_size")): return True
    if v[0] == "call":
        c = g.nodes[v[1]]
        for f in c.get("cands") or ():
            if isinstance(f, FuncInfo) and f.name == "get_batch_size": return True
    return v[0] == "pcall" and t.endswith(")") and re.match(r"[\w.]*get_batch_size\([^()]*\)$", t) is not None


def check(ck):
    p = ck.p; C = p.cls(CT + "BatchController")
    size(ck, C); dispatch(ck, C); work(ck, C); validator(ck)


def size(ck, C):
    f = C.find_method("get_batch_size")
    if f is None: return
    g = ck.graph(f, selfcls=C)
    r = f.params()[1] if len(f.params()) > 1 else "self.resource"
    for n in returns(g):
        ck.ob("batch-size", "get_batch_size", all(g.r(v, d) == r + SIZE for d, v in leaves(g, n.value, n)), "the size of a batch is not the batch size of the resource", n.loc)
    ck.ob("batch-size", "get_batch_size/always", bool(returns(g)), "there is no batch size", f.loc)


def spawns(ck, C, g):
    w = work_step(ck, C)
    return [n for n in g.nodes if n.kind in ("spawn", "call") and n.id in g.live() and any(isinstance(x, FuncInfo) and x.qual == w.qual for x in n.get("cands") or ()) or n.kind in ("spawn", "call") and n.id in g.live() and n.name == w.name and (n.recv is None or g.r(n.recv, n) == "self")]


def dispatch(ck, C):
    f = C.find_method("control_loop"); w = work_step(ck, C)
    g = ck.graph(f, selfcls=C, stop=STOP + (w.name, "get_batch_size"))
    ss = spawns(ck, C, g)
    ck.ob("full-batch", "control_loop/starts", bool(ss), "batches are never started", f.loc)
    ys = [y for y in g.nodes if y.kind == "yield" and y.id in g.live()]
    good = []
    for e in g.nodes:
        if e.kind != "edge" or g.nodes[e.of].kind != "branch" or e.id not in g.live(): continue
        b = g.nodes[e.of]; t = b.term; pol = e.label
        while t[0] == "not": t = t[1]; pol = not pol
        if t[0] != "cmp": continue
        op, l, r = t[1], t[2], t[3]
        def reqs(x): return any(v[0] == "call" and g.nodes[v[1]].name == "len" and g.r(g.nodes[v[1]].args[0], g.nodes[v[1]]) == "self.requests" for d, v in leaves(g, x, b)) or g.r(x, b) in ("len(self.requests)", "(len(self.requests) - self.reserved_requests_count)")
        if op == "<" and reqs(l) and is_size(g, r, b) and not pol: good.append(e)
        if op == "<=" and is_size(g, l, b) and reqs(r) and pol: good.append(e)
        if op == ">=" and reqs(l) and is_size(g, r, b) and pol: good.append(e)
        if op == ">" and is_size(g, l, b) and reqs(r) and not pol: good.append(e)
    for s in ss:
        bad = [y for y in ys if g.path_avoiding(y, s, good + [z for z in ys if z is not y])]
        ck.ob("full-batch", "control_loop/requests", bool(good) and not bad, "a batch is started although fewer requests are waiting than belong to a batch", s.loc)
    # how many requests a batch takes
    gw = ck.graph(w, selfcls=C, stop=STOP + ("get_batch_size",))
    ps = request_text(gw)
    ck.ob("full-batch", "start/request", bool(ps), "a batch takes no request", w.loc)
    ok = False
    for n in ps:
        for h in lex(gw, n):
            for d, v in leaves(gw, h.iter, h) if h.iter is not None else []:
                if v[0] == "call" and gw.nodes[v[1]].name == "range" and len(gw.nodes[v[1]].args) == 1 and is_size(gw, gw.nodes[v[1]].args[0], gw.nodes[v[1]]): ok = True
    ck.ob("requests-taken", "batch start/requests", ok, "a batch takes one of the requests that are waiting for it, the others stay and let further batches start although fewer requests than a batch are waiting", (ps or [gw.entry])[0].loc if ps else w.loc)


def lex(g, n):
    out = {h.id: h for h in g.loops_of(n)}
    for e in g.guards(n):
        h = g.nodes[e.of]
        if h.kind == "loophead" and e.label == "iter": out[h.id] = h
    return list(out.values())


def work(ck, C):
    p = ck.p; w = work_step(ck, C)
    g = step_graph(ck, C, extra=("get_batch_size", "get_free_processes"), drop=("wait_for_free_process",))
    it = Items(ck, g, C)
    # ---- retrieval
    gs = gets(g)
    ck.ob("complete", "retrieval", bool(gs), "no products are taken from the input", w.loc)
    lists = {}
    for n in gs:
        lim = False
        for e in g.guards(n):
            b = g.nodes[e.of]
            if b.kind == "loophead":
                if b.iter is not None and any(v[0] == "call" and g.nodes[v[1]].name == "range" and len(g.nodes[v[1]].args) == 1 and is_size(g, g.nodes[v[1]].args[0], g.nodes[v[1]]) for d, v in leaves(g, b.iter, b)) and len([x for x in lex(g, n) if x.iter is not None]) == 1: lim = True
                continue
            t = b.term; pol = e.label
            if t is None: continue
            while t[0] == "not": t = t[1]; pol = not pol
            if t[0] == "cmp" and t[1] == "<" and pol and is_size(g, t[3], b):
                for d, v in leaves(g, t[2], b):
                    if v[0] == "call" and g.nodes[v[1]].name == "len": lim = True; lists[n.id] = (g.nodes[v[1]].args[0], g.nodes[v[1]])
        ck.ob("complete", "retrieval/limit", lim, "more or fewer products are taken than belong to a batch", n.loc)
        # counted where it is limited
        for d, v in leaves(g, ("call", n.id), n): pass
        adds = [a for a, val, tgt in additions(g) if a.id in g.live() and n.id in call_ids(g, val, a)]
        hs = [h for h in g.loops_of(n)]
        # what no product is got for (a queue that hands out nothing) need not be added
        none = [e for e in g.nodes if e.kind == "edge" and g.nodes[e.of].kind == "branch" and nothing(g, e, n)]
        nxt = [h for h in hs] + [y for y in g.nodes if y.kind == "yield"]
        ck.ob("complete", "retrieval/counted", bool(adds) and not any(g.path_avoiding(n, x, adds + none) for x in nxt + [n]), "a product that is taken is not counted as part of the batch", n.loc)
        fl = n.kw.get("filter") or (n.args[0] if n.args else None)
        ck.ob("complete", "retrieval/type", fl is not None and same_type(g, fl, n), "products of another type are taken into a batch", n.loc)
        ys = [y for y in g.nodes if y.kind == "yield" and y.id in g.live() and n.id in awaited(g, y, {n.id})]
        runs = [m for m in g.nodes if m.kind in ("spawn", "call") and m.id in g.live() and m.name == "process_state"]
        ck.ob("complete", "retrieval/awaited", bool(ys) and bool(runs) and not any(g.path_avoiding(n, r, ys) for r in runs), "a batch starts before its products have arrived", n.loc)
    # ---- the operation
    runs = [m for m in g.nodes if m.kind in ("spawn", "call") and m.id in g.live() and m.name == "process_state"]
    ck.ob("together", "operation", bool(runs), "nothing is processed", w.loc)
    draws = [n for n in g.calls("get_next_time") if n.id in g.live()]
    ck.ob("together", "duration/drawn", bool(draws) and all(not lex(g, n) for n in draws) and not any(g.path_avoiding(a, b, []) for a in draws for b in draws), "the duration of a batch is not drawn exactly once", (draws or runs or [g.entry])[0].loc)
    for r in runs:
        a = list(r.args) + list(r.kw.values())
        ok = bool(a) and all(v[0] == "call" and v[1] in {n.id for n in draws} for d, v in leaves(g, a[0], r))
        ck.ob("together", "duration/common", ok, "the products of a batch are not processed for the common duration", r.loc)
        hs = lex(g, r)
        ok = len(hs) == 1 and it.loop_over_items(hs[0]) == "list" and complete(g, hs[0])
        ck.ob("together", "every product", ok, "not every product of a batch is processed", r.loc)
        if len(hs) != 1: continue
        h = hs[0]
        ck.ob("together", "every product/once", per_pass(g, h, {m.id for m in runs}) == {1}, "a product of a batch is not processed exactly once", r.loc)
        for nm, what in (("prepare_for_run", "prepared"), ("log_product", "recorded at the resource"), ("log_start_process", "recorded at the product"), ("handle_rework_required", "judged for rework")):
            ns = [n for n in g.calls(nm) if n.id in g.live()]
            inl = [n for n in ns if any(x.id == h.id for x in lex(g, n))]
            ok = bool(inl) and per_pass(g, h, {n.id for n in inl}) == {1} and not [n for n in ns if n not in inl]
            ck.ob("together", f"every product/{nm}", ok, f"not every product of a batch is {what} once", (ns or [r])[0].loc)
            for n in inl:
                who = n.recv if nm == "log_start_process" else n.args[0] if n.args and nm != "prepare_for_run" else None
                if who is None: continue
                ok = it.attr(who, n, ("product_info",)) if nm == "log_start_process" else it.scalar(who, n)
                ck.ob("together", f"every product/{nm}/own", bool(ok), f"another product of the batch is {what}", n.loc)
        late = [y for y in g.nodes if y.kind == "yield" and y.id in g.live() and any(x.id == h.id for x in lex(g, y)) and direct(g, y)]
        ck.ob("together", "every product/at once", not late, "time passes between starting the products of a batch", (late or [r])[0].loc)
        # waits for all
        lists = [a for a, val, tgt in additions(g) if a.id in g.live() and r.id in refs(g, val, a)]
        ys = [y for y in g.nodes if y.kind == "yield" and y.id in g.live() and g.path_avoiding(done(g, h), y, []) and y.value is not None and r.id in awaited_of(g, y, r)]
        pl = [n for n in puts(g)]
        ck.ob("together", "awaited", bool(ys) and bool(pl) and not any(g.path_avoiding(r, n, ys) for n in pl), "products are delivered before the batch is finished", r.loc)
        # a free process for each of them
        own_slot(ck, C, g, it, h, r)
    # ---- slots are released
    for n in g.stores("process"):
        if n.id not in g.live() or g.r(n.value, n) != "None": continue
        b = g.r(n.base, n); at = g.guard_set(n)
        ck.ob("own-process", "released", any(x == f"!{b}.process.is_alive" for x in at), "the process another batch has started meanwhile is forgotten", n.loc)
    # ---- delivery and announcement
    ns = puts(g)
    ck.ob("delivered", "put", bool(ns), "products of a batch are not delivered", w.loc)
    allp = {n.id for n in ns}
    for n in ns:
        hs = lex(g, n)
        ok = len(hs) == 1 and it.loop_over_items(hs[0]) == "list" and complete(g, hs[0]) and per_pass(g, hs[0], allp) == {1}
        ck.ob("delivered", "put/every product", ok, "not every product of a batch is delivered exactly once", n.loc)
        x = (list(n.args) + list(n.kw.values()))[0]
        ck.ob("delivered", "put/own", it.attr(x, n, ("product_data", "data")), "another product than the processed one is delivered", n.loc)
    fin = [n for n in g.calls("succeed") if n.id in g.live() and n.recv is not None and g.r(n.recv, n).endswith(".finished_process")]
    ck.ob("announced", "finished", bool(fin), "products of a batch are never announced as finished", w.loc)
    for n in fin:
        hs = [h for h in lex(g, n) if it.loop_over_items(h) == "list"]
        ok = len(hs) == 1 and complete(g, hs[0]) and all(single(g, it, h) or h is hs[0] for h in lex(g, n)) and per_pass(g, hs[0], {m.id for m in fin}) == {1} and it.attr(n.recv, n, ("finished_process",)) | inner(g, it, n)
        ck.ob("announced", "finished/every product", ok, "not every product of a batch is announced as finished exactly once", n.loc)
        ys = [y for y in g.nodes if y.kind == "yield" and y.id in g.live() and awaited(g, y, allp)]
        ck.ob("announced", "finished/delivered", bool(ys) and all(not g.path_avoiding(m, n, ys) for m in ns), "a product is announced as finished before it has been delivered", n.loc)


def inner(g, it, n):
    """the item of an inner loop over [item]"""
    r = g.resolve(n.recv, n)
    if r[0] != "attr": return False
    x = r[1]
    for _ in range(3):
        while x[0] == "index": x = x[1]
        if it._scalar(x): return True
        if x[0] != "elem": return False
        h = g.nodes[x[2]]
        ls = leaves(g, h.iter, h)
        if len(ls) != 1 or ls[0][1][0] not in ("list", "tuple") or len(ls[0][1][1]) != 1: return False
        x = g.resolve(ls[0][1][1][0], ls[0][0])
    return False


def single(g, it, h):
    ls = leaves(g, h.iter, h) if h.iter is not None else []
    return len(ls) == 1 and ls[0][1][0] in ("list", "tuple") and len(ls[0][1][1]) == 1


def nothing(g, e, n):
    b = g.nodes[e.of]; t = b.term; pol = e.label
    if t is None: return False
    while t[0] == "not": t = t[1]; pol = not pol
    if t[0] == "cmp" and ("const", None) in t[2:4]:
        x = t[2] if t[3] == ("const", None) else t[3]
        return n.id in call_ids(g, x, b) and pol == (t[1] in ("is", "=="))
    return n.id in call_ids(g, t, b) and not pol


def done(g, h):
    return next((e for e in g.nodes if e.kind == "edge" and e.of == h.id and e.label == "done"), h)


def refs(g, t, n):
    out = call_ids(g, t, n)
    for d, v in leaves(g, t, n):
        if v[0] == "attr":
            for s in g.stores(v[2]):
                if s.id in g.live() and g.r(s.base, s) == g.r(v[1], d): out |= refs(g, s.value, s)
        if v[0] == "call" and g.nodes[v[1]].name == "process":
            for a in g.nodes[v[1]].args: out |= call_ids(g, a, g.nodes[v[1]])
    return out


def awaited_of(g, y, r):
    """is the process r among those a yield waits for (all of them)?"""
    ids = {r.id} | {n.id for n in g.nodes if n.kind == "call" and n.name == "process" and n.id in g.live() and any(r.id in call_ids(g, a, n) for a in n.args)}
    return {r.id} if awaited(g, y, ids) else set()


def same_type(g, fl, n):
    """does a filter accept the items of the batch's product type only?"""
    import ast as A
    for d, v in leaves(g, fl, n):
        if v[0] != "lambda": return None
        e = g.lams[v[1]][0]
        b = e.body; ps = [a.arg for a in e.args.args]
        if not isinstance(b, A.Compare) or len(b.ops) != 1 or not isinstance(b.ops[0], A.Eq): return False
        s = {A.unparse(b.left), A.unparse(b.comparators[0])}
        own = [x for x in s if x == f"{ps[0]}.product_type"]
        oth = [x for x in s if x not in own]
        if len(own) != 1 or len(oth) != 1 or ps[0] + "." in oth[0]: return False
        if not oth[0].endswith("product_type") and "type" not in oth[0]: return False
    return True


def own_slot(ck, C, g, it, h, r):
    """the states the products are paired with are free and as many as products"""
    its = h.iter[1] if h.iter is not None and h.iter[0] == "tuple" else ()
    if h.iter is not None and not its:
        for d, v in leaves(g, h.iter, h):
            if v[0] == "call" and g.nodes[v[1]].name == "zip": its = g.nodes[v[1]].args
    st = [x for x in its if not (homes(g, x, h) and homes(g, x, h) <= it.list_homes)]
    ck.ob("own-process", "paired", len(st) >= 1 or recv_indexed(g, r), "products are not paired with processes of the resource", r.loc)
    frees = [n for n in g.calls("get_free_processes") if n.id in g.live()]
    ck.ob("own-process", "free", bool(frees), "a batch is started on processes that are not free", r.loc)
    for n in frees:
        enough = []
        for e in g.nodes:
            if e.kind != "edge" or g.nodes[e.of].kind != "branch" or e.id not in g.live(): continue
            b = g.nodes[e.of]; t = b.term; pol = e.label
            while t[0] == "not": t = t[1]; pol = not pol
            if t[0] != "cmp" or t[1] not in ("<", "<=", ">", ">="): continue
            l, rr = t[2], t[3]
            if t[1] in (">", ">="): l, rr = rr, l
            def ln(x, pred): return any(v[0] == "call" and g.nodes[v[1]].name == "len" and pred(g.nodes[v[1]].args[0], g.nodes[v[1]]) for d, v in leaves(g, x, b))
            free = lambda x: ln(x, lambda a, c: n.id in call_ids(g, a, c))
            prods = lambda x: ln(x, lambda a, c: bool(homes(g, a, c)) and homes(g, a, c) <= it.list_homes) or is_size(g, x, b)
            strict = t[1] in ("<", ">")
            if free(l) and prods(rr) and strict and not pol: enough.append(e)
            if prods(l) and free(rr) and not strict and pol: enough.append(e)
        ck.ob("own-process", "enough", bool(enough) and not g.path_avoiding(n, r, enough), "fewer processes than products are free when a batch starts: products without a process are announced as finished without having been processed", n.loc)
        ys = [y for y in g.nodes if y.kind == "yield" and y.id in g.live()]
        sp = [y for y in ys for d, v in (leaves(g, y.value, y) if y.value is not None else []) if v[0] == "proc" and only_looks(ck, C, v[1])]
        ck.ob("own-process", "claimed", not sp and all(not between(g, e, r, ys) for e in enough), "free processes are looked up some time before the batch starts on them", n.loc)


def only_looks(ck, C, name):
    """does a process of its own look for free processes without starting the batch?"""
    f = C.find_method(name)
    if f is None: return False
    q = ck.graph(f, selfcls=C, stop=STOP + ("get_free_processes",))
    return any(n.id in q.live() for n in q.calls("get_free_processes")) and not any(n.name == "process_state" and n.id in q.live() for n in q.nodes if n.kind in ("call", "spawn"))


def between(g, e, r, ys):
    """is there a wait between finding the processes free and the start?"""
    for y in ys:
        if g.path_avoiding(e, y, [r]) and g.path_avoiding(y, r, []):
            # waits on the way to r that do not look again
            again = [n for n in g.calls("get_free_processes") if n.id in g.live()]
            if g.path_avoiding(y, r, again) and g.path_avoiding(e, y, [r] + again) and direct(g, y): return True
    return False


def direct(g, y):
    """a yield of a process that was spawned and spliced in does not let time pass by itself"""
    return y.value is None or not all(v[0] == "proc" for d, v in leaves(g, y.value, y))


def recv_indexed(g, r):
    return r.recv is not None and g.resolve(r.recv, r)[0] in ("item", "index", "elem")


def validator(ck):
    """a batch fits into the resource"""
    p = ck.p
    for c in [c for c in p.all_classes() if c.mod.name.startswith("prodsys.models") and "batch_size" in c.fields]:
        if c.mod.name.endswith("time_model_data"): continue
        ok = False; loc = c.loc
        for m in [m for k in c.mro() for m in k.methods.values()]:
            import ast as A
            if not any(isinstance(x, A.Constant) and x.value == "batch_size" or isinstance(x, A.Attribute) and x.attr == "batch_size" for x in A.walk(m.node)): continue
            g = ck.graph(m, selfcls=c); loc = m.loc
            for n in g.nodes:
                if n.kind == "raise" and n.id in g.live():
                    for x in g.guard_set(n):
                        if re.search(r"^\((?:.*)capacity(?:'\]|\"\])? < (?:.*)batch_size(?:'\]|\"\])?\)$", x): ok = True
        ck.ob("fits", f"{c.name}/batch size", ok, "a batch may be larger than the capacity of its resource", loc)
