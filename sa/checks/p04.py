"""P04 Every request is served once within the resource's capacity."""
TECHNIQUE = "typestate exploration of the dispatch loops and work steps over inlined control-flow graphs, linear normal form of the capacity test"
NOTE = "All paths of every dispatch loop and work step are covered by finite abstractions (waiting requests, capacity, wake-up event, claimed slot); simpy's event order (process starts before other events of the same time) is trusted."
from .steps import *

REQ = "self.requests"; RES = "self.reserved_requests_count"; RUN = "self.running_processes"


def lin_facts(g, e):
    """facts of a branch edge about the number of waiting requests"""
    b = g.nodes[e.of]; f = {}
    if b.kind != "branch": return f
    s = g.r(b.term, b); lab = e.label
    if s == REQ: f["has"] = lab; return f
    if s == "self.resource.full": f["full"] = lab; return f
    if s in ("self.requested.triggered",): f["trig"] = lab; return f
    q = edge_ineq(g, b, lab)
    if not q: return f
    op, items = q; d = dict(items); L = f"len({REQ})"
    if L not in d: return f
    k = d.pop(L); c = d.pop(1, 0)
    if op == "<=":
        if not d:
            if k == -1 and c >= 1: f["has"] = True          # 1 - len <= 0
            if k == 1 and c >= 0: f["has"] = False
        elif set(d) == {RES}:
            if k == -1 and d[RES] == 1 and c >= 1: f["free"] = True; f["has"] = True
            if k == 1 and d[RES] == -1 and c >= 0: f["free"] = False
        elif len(d) == 1 and next(iter(d)).endswith("batch_size"):
            if k == -1 and next(iter(d.values())) == 1 and c >= 0: f["has"] = True; f["free"] = True; f["few"] = False
            if k == 1 and next(iter(d.values())) == -1 and c >= 1: f["few"] = True
    else:
        eq = op == "=="
        if not d and c == 0: f["has"] = not eq
        elif set(d) == {RES} and c == 0 and k == -d[RES]: f["free"] = not eq
    return f


def flat_fact(g, e):
    """is the battery of the resource exhausted behind an edge? (that it is charged as soon as nothing runs is P32)"""
    b = g.nodes[e.of]
    if b.kind != "branch" or e.label not in (True, False): return None
    t = b.term; pol = e.label
    while t[0] == "not": t = t[1]; pol = not pol
    return pol if g.r(t, b) == "self.resource.requires_charging" else None


def plain(s):
    """renderings of copies of the running work"""
    for c in (RUN + "[::]", f"list({RUN})", f"tuple({RUN})", RUN + ".copy()", f"copy.copy({RUN})", f"reversed({RUN})"): s = s.replace(c, RUN)
    return s


def sweeps(ck, g, name):
    """(nodes after which no finished work step is remembered, problems)"""
    marks = []; n_all = 0
    for n in g.calls("remove"):
        if n.id not in g.live() or n.recv is None or g.r(n.recv, n) != RUN: continue
        n_all += 1
        h = innermost(g, n)
        if h is None or not n.args or plain(g.r(n.args[0], n)) != f"elem({RUN})": ck.ob("forget-finished", name, False, f"{g.r(n.args[0], n) if n.args else '?'} is removed from the running work", n.loc); continue
        gs = {plain(z) for z in loop_guards(g, n, h)}
        ck.ob("forget-finished", f"{name}/which", gs and all(x in (f"!elem({RUN}).is_alive", f"elem({RUN}).processed", f"elem({RUN}).triggered") for x in gs) and len(gs) == 1, f"work is forgotten under the condition {sorted(gs)} instead of when it has ended", n.loc)
        it = h.iterast
        copied = isinstance(it, ast.Call) or isinstance(it, (ast.ListComp,)) or (isinstance(it, ast.Subscript) and isinstance(it.slice, ast.Slice)) or other_list(g, h)
        ck.ob("forget-finished", f"{name}/copy", copied, "the list of running work is changed while it is being walked through, so finished work is skipped", n.loc)
        esc = visits_all(g, h)
        ck.ob("forget-finished", f"{name}/all", esc is None, "the search for finished work stops early", esc.loc if esc is not None else n.loc)
        marks.append(done_edge(g, h))
    for n in g.stores(RUN[5:]):
        if n.id not in g.live() or g.r(n.base, n) != "self": continue
        t = g.resolve(n.value, n)
        if t[0] == "comp":
            n_all += 1
            parts = g.r(n.value, n)
            ok = parts in (f"listcomp(elem({RUN}) for {RUN} if elem({RUN}).is_alive)", f"listcomp(elem({RUN}) for {RUN} if !elem({RUN}).processed)", f"listcomp(elem({RUN}) for {RUN} if !elem({RUN}).triggered)")
            ck.ob("forget-finished", f"{name}/which", ok, f"the running work becomes {parts}", n.loc); marks.append(n)
        else: ck.ob("forget-finished", f"{name}/owner", False, f"the list of running work is replaced by {g.r(n.value, n)}", n.loc)
    if not n_all: ck.ob("forget-finished", name, False, "finished work is never forgotten, so the resource stays full", g.fn.loc)
    return marks


def other_list(g, h):
    """the loop runs over another list object than the remembered one (a copy bound to a name)"""
    if h.iter is None: return False
    ls = leaves(g, h.iter, h)
    return bool(ls) and all(v[0] in ("call", "comp", "list") or (v[0] == "sub") for d, v in ls)


def loop_check(ck, ci):
    step = work_step(ck, ci)
    stops = tuple(s for s in STOP) + (step.name, "full", "requires_charging", "update_location", "set_location")
    g = ck.graph(ci.find_method("control_loop"), selfcls=ci, stop=stops); name = f"{ci.name}.control_loop"
    live = g.live()
    starts = [n for n in g.nodes if n.id in live and n.kind == "spawn" and n.name == step.name] or [n for n in g.calls("process") if n.id in live and any(g.nodes[i].name == step.name for a in n.args for i in call_ids(g, a, n))]
    ck.need(f"start of work in {ci.name}", len(starts))
    sid = {n.id for n in starts} | {i for n in starts for a in (n.get("args") or ()) for i in call_ids(g, a, n)}
    marks = {n.id for n in sweeps(ck, g, name)}
    waits = {}
    for y in g.nodes:
        if y.kind != "yield" or y.id not in live: continue
        for d, v in leaves(g, y.value, y):
            if v[0] == "call" and g.nodes[v[1]].name in ("AnyOf", "any_of"):
                c = g.nodes[v[1]]; ev = c.kw.get("events") or (c.args[1] if len(c.args) > 1 else c.args[0] if c.args else None)
                parts = list_parts(g, ev, c) if ev is not None else set()
                ok = parts == {RUN, "[self.requested]"}
                ck.ob("waits-for-both", name, ok, f"the dispatch loop waits for {sorted(parts)} instead of a new request or the end of running work", y.loc); waits[y.id] = ok
            elif v[0] == "call" and g.nodes[v[1]].name in ("AllOf", "all_of"):
                ck.ob("waits-for-both", name, False, "the dispatch loop waits for all running work and a request together", y.loc)
            elif "self.requested" in g.r(v, d):
                waits[y.id] = False; ck.ob("waits-for-both", name, False, f"the dispatch loop only waits for {g.r(v, d)}", y.loc)
            elif v[0] == "bin" and v[1] == "|": waits[y.id] = True
    if not waits:
        ck.ob("waits-for-both", name, False, "the dispatch loop never waits for a request or the end of running work", g.fn.loc); return
    counts = [n for n in g.stores(RES[5:]) if n.id in live and g.r(n.base, n) == "self"]
    inc = sum(lin(g, n.value, n).get(1, 99) if lin(g, n.value, n).get(RES) == 1 and set(lin(g, n.value, n)) <= {RES, 1} else 99 for n in counts) if counts else 0
    uses_counter = bool(counts)

    def step_(x, n, st):
        d = dict(st)
        if n.id in marks: d["swept"] = True
        if n.kind == "edge":
            f = lin_facts(g, n)
            fl = flat_fact(g, n)
            if fl is not None: d["flat"] = fl
            if "trig" in f and not f["trig"]: renew(d)
            if "full" in f:
                if not d["swept"] and not d["started"]: x.bad("swept-first", n, "whether the resource is full is judged before finished work has been forgotten")
                d["full"] = f["full"]
            for k in ("has", "free", "few"):
                if k in f:
                    if d[k] is not None and d[k] != f[k] and not d["aged"]: return None
                    d[k] = f[k]
        elif n.kind == "store" and n.attr == "requested" and g.r(n.base, n) == "self":
            t = g.resolve(n.value, n)
            if t[0] == "call" and g.nodes[t[1]].name in ("Event", "event"): renew(d)
            else: x.bad("requested-renewed", n, f"the wake-up event is replaced by {g.r(n.value, n)}")
        elif n.kind == "call" and n.name == "control_policy":
            if n.args and g.r(n.args[0], n) == REQ: d["sorted"] = True
        elif n.id in sid and n.kind == "spawn" or (n.id in {s.id for s in starts} and n.kind == "call"):
            if d["aged"]: x.bad("start-when-free", n, "work is started on the basis of capacity and requests as they were before time passed")
            if d["full"] is not False: x.bad("start-when-free", n, "work is started although it has not been established that the resource is not full")
            if not (d["has"] is True): x.bad("start-needs-request", n, "work is started although it has not been established that a request is waiting")
            if uses_counter and not d["free"]: x.bad("start-needs-free-request", n, "work is started although all waiting requests may already be taken")
            if not d["sorted"]: x.bad("policy-applied", n, "the request is taken without the control policy having ordered the waiting requests")
            if d["started"]: x.bad("remembered", n, "a second work step is started in the same round before the first is remembered")
            d.update(started=True, appended=0, full=None, has=None, free=None, few=None, sorted=False)
        elif n.kind == "call" and n.name == "append" and n.recv is not None and g.r(n.recv, n) == RUN:
            ok = n.args and bool(call_ids(g, n.args[0], n) & (sid | {s.id for s in starts}))
            if not ok: x.bad("remembered", n, f"{g.r(n.args[0], n) if n.args else '?'} is remembered as running work")
            else:
                d["appended"] = min(2, d["appended"] + 1)
                if d["appended"] == 2: x.bad("remembered", n, "the started work is remembered twice")
        elif n.kind == "call" and n.name == "succeed" and n.recv is not None and g.r(n.recv, n) == "self.requested":
            if not d["clean"]: x.bad("wake-once", n, "the wake-up event is triggered although it may have been triggered already")
            d["woke"] = True; d["clean"] = False
        elif n.kind == "yield":
            if n.id in waits:
                if not d["first"]:
                    if d["stale"]: x.bad("requested-renewed", n, "the loop waits again for a wake-up event that has already been triggered")
                    if d["started"]:
                        if d["appended"] != 1: x.bad("remembered", n, "started work is not remembered as running")
                        if not (d["woke"] or d["full"]): x.bad("keeps-going", n, "after starting work the loop sleeps without the resource being full and without waking itself, so waiting requests are left behind")
                    elif not (d["woke"] or d["full"] or d["has"] is False or d["free"] is False or d["few"] or d["flat"]):
                        x.bad("keeps-going", n, "the loop goes to sleep although requests may be waiting and capacity may be free")
                d.update(first=False, stale=True, swept=False, started=False, appended=0, woke=False, full=None, has=None, free=None, few=None, flat=None, sorted=False, aged=False)
            else:
                d["swept"] = False; d["aged"] = True; d["flat"] = None
            d["clean"] = False
        return upd(d)

    def renew(d):
        d["stale"] = False; d["clean"] = True; d["woke"] = False
        if d["aged"]: d.update(full=None, has=None, free=None, few=None, aged=False, sorted=False)

    def edge(x, n, s, lab, st):
        if lab == "exc": return None
        return st
    init = mkstate(first=True, stale=False, clean=False, swept=False, started=False, appended=0, woke=False, full=None, has=None, free=None, few=None, flat=None, sorted=False, aged=False)
    x = Explore(g, init, step_, edge)
    report(ck, x, name, g, ("requested-renewed", "swept-first", "start-when-free", "start-needs-request", "start-needs-free-request", "policy-applied", "remembered", "keeps-going", "wake-once"))
    ends = g.exit.id in nonexc_live(g)
    ck.ob("loop-for-ever", name, not ends, "the dispatch loop can end", g.fn.loc)
    return inc, uses_counter


def step_check(ck, ci, inc):
    FREE = ("get_free_process", "get_free_processes", "get_processes")
    g = step_graph(ck, ci, extra=FREE, drop=("wait_for_free_process",)); name = f"{ci.name}.{g.fn.name}"; live = g.live()
    # the request is taken exactly once
    pops = [n for n in g.calls("pop", "popleft") if n.id in live and n.recv is not None and g.r(n.recv, n).endswith(REQ)]
    if not pops:
        ck.ob("taken-once", name, False, "the work step takes no request out of the waiting list", g.fn.loc); return
    cnt = event_counts(g, lambda n: n in pops)
    c = cnt.get(g.exit.id, frozenset())
    ck.ob("taken-once", name, c == frozenset([1]), f"a work step takes {sorted(c)} requests from the waiting list", pops[0].loc)
    for n in pops:
        a = g.arg(n, 0, "index")
        ck.ob("taken-first", name, n.name == "popleft" or (a is not None and g.r(a, n) == "0"), "the request taken is not the first of the ordered waiting list", n.loc)
    # booking counter
    ds = attr_deltas(g, RES[5:]).get(g.exit.id)
    ck.ob("counter-balanced", name, ds is not None and {d + inc for d in ds} == {0}, f"starting changes the booking counter by {inc}, the work step by {sorted(ds) if ds else ds}: it does not return to its old value", g.fn.loc)
    if inc:
        dec = {n.id for n in g.stores(RES[5:])}
        for p in pops:
            bad = [y for y in g.nodes if y.kind == "yield" and y.id in live and (
                (g.path_avoiding(p, y, [g.nodes[i] for i in dec]) is not None and any(g.reaches(y, g.nodes[i]) for i in dec) and not any(g.dominates(g.nodes[i], p) for i in dec))
                or any(g.dominates(g.nodes[i], y) and g.dominates(y, p) for i in dec))]
            ck.ob("counter-with-request", name, not bad, "time passes between taking the request and releasing its booking, so other requests are judged as taken", bad[0].loc if bad else p.loc)
    # capacity is held during every operation
    ops = [n for n in g.nodes if n.id in live and n.kind in ("spawn", "call") and n.name == "process_state"]
    ck.need(f"operations of {ci.name}", len(ops))
    rq = [n for n in g.calls("request") if n.id in live and not n.args and n.recv is not None]
    rid = {n.id for n in rq}; opid = {n.id for n in ops}
    owner = {g.r(n.recv, n) for n in rq}
    ck.ob("capacity-requested", name, bool(rq) and all(o == "self.resource" or o.endswith(".resource") for o in owner), f"the work step does not request a unit of the resource's capacity ({sorted(owner)})", g.fn.loc)
    wy = [y for y in g.nodes if y.kind == "yield" and y.id in live and call_ids(g, y.value, y) & rid]
    rel = [n for n in g.nodes if n.id in live and (n.kind == "withexit" or (n.kind == "call" and n.name in ("release", "cancel")))]

    def st_(x, n, st):
        d = dict(st)
        if n.id in {y.id for y in wy}: d["held"] = True
        elif n.id in {r.id for r in rel} and (n.kind == "call" or (n.get("term") is not None and call_ids(g, n.term, n) & rid)): d["held"] = False
        elif n.id in opid and not d["held"]: x.bad("capacity-held", n, "an operation is carried out without holding a unit of the resource's capacity")
        elif n is g.exit and d["held"]: x.bad("capacity-released", n, "the work step ends without giving its unit of capacity back")
        return upd(d)
    x = Explore(g, mkstate(held=False), st_, lambda x, n, s, lab, st: None if lab == "exc" and n.kind != "yield" else st)
    report(ck, x, name, g, ("capacity-held", "capacity-released"))
    # a free slot is claimed in the moment it is found
    finds = [n for n in g.calls(*FREE[:2]) if n.id in live]
    ck.need(f"slots chosen by {ci.name}", len(finds))
    fid = {n.id for n in finds}
    claims = {n.id for n in g.stores("process") if n.id in live and flows_from(g, n.base, n, lambda t: t[0] == "call" and t[1] in fid) and g.resolve(n.value, n)[0] in ("spawn", "call")}
    for o in ops:
        got = flows_from(g, o.recv, o, lambda t: t[0] == "call" and t[1] in fid)
        ck.ob("slot-free", f"{name}/operation", got, f"the operation is not run by a slot found to be free ({g.r(o.recv, o)[:120]})", o.loc)
    ck.ob("slot-claimed", f"{name}/store", bool(claims), "the slot found to be free is never marked as used", g.fn.loc)
    hosted = set()
    for n in g.nodes:
        if n.kind == "callend":
            c = g.nodes[n.of]
            if any(g.nodes[p].kind == "yield" and g.r(g.nodes[p].value, g.nodes[p]).startswith("<proc:") for p, l in c.pred): hosted.add(n.id)

    def sl(x, n, st):
        d = dict(st)
        if n.id in fid: d["found"] = True; d["late"] = False
        elif n.id in claims:
            if d["found"] and d["late"]: x.bad("slot-claimed", n, "time passes between finding a free slot and marking it as used, so two work steps can get the same slot")
            d["found"] = False
        elif n.kind == "edge" and g.nodes[n.of].kind == "branch":
            b = g.nodes[n.of]; s = g.r(b.term, b)
            for f in finds:
                t = g.r(("call", f.id), b)
                if (s == f"(None is {t})" and n.label) or (s == t and not n.label): d["found"] = False
        elif (n.kind == "yield" and not g.r(n.value, n).startswith("<proc:")) or n.id in hosted:
            if d["found"]: d["late"] = True
        return upd(d)
    x = Explore(g, mkstate(found=False, late=False), sl, lambda x, n, s, lab, st: None if lab == "exc" else st)
    report(ck, x, name, g, ("slot-claimed",))
    # completion
    sc = [n for n in g.calls("succeed") if n.id in live and n.recv is not None and g.r(n.recv, n).endswith(".finished_process")]
    ck.ob("answered", name, bool(sc), "the request is never answered with a completion notice", g.fn.loc)


def queueing(ck):
    base = ck.p.cls(CT + "Controller")
    for ci in [base] + [c for c in ck.p.subclasses(base) if "request" in c.methods]:
        g = ck.graph(ci.find_method("request"), selfcls=ci); name = f"{ci.name}.request"; live = g.live()
        par = g.fn.params()[1]
        adds = [n for n in g.calls("append", "insert", "appendleft") if n.id in live and g.r(n.recv, n) == REQ]
        c = event_counts(g, lambda n: n in adds).get(g.exit.id, frozenset())
        ck.ob("queued-once", name, c == frozenset([1]), f"an accepted request is queued {sorted(c)} times", g.fn.loc)
        for n in adds:
            ck.ob("queued-once", f"{name}/what", n.name == "append" and g.r(n.args[0], n) == par, f"{g.r(n.args[-1], n)} is put into the waiting list by {n.name} instead of appending the request", n.loc)
        wake = [n for n in g.calls("succeed") if n.id in live and g.r(n.recv, n) == "self.requested"]
        known = [e for e in g.nodes if e.kind == "edge" and e.id in live and g.nodes[e.of].kind == "branch" and g.r(g.nodes[e.of].term, g.nodes[e.of]) == "self.requested.triggered"]
        p = g.path_avoiding(g.entry, g.exit, wake + [e for e in known if e.label])
        ck.ob("wakes-up", name, p is None, "a request can be queued without the dispatch loop being woken", g.fn.loc, p and [z.loc for z in p if z.kind == "edge"])
        for w in wake:
            ck.ob("wakes-up", f"{name}/once", any(g.dominates(e, w) for e in known if not e.label), "the wake-up event is triggered although it may have been triggered already", w.loc)
    f = ck.p.func("prodsys.simulation.sim.Environment.request_process_of_resource")
    g = ck.graph(f, stop=("Controller.request", "request"))
    par = f.params()[1]
    calls = [n for n in g.calls("request") if n.id in g.live()]
    c = event_counts(g, lambda n: n in calls).get(g.exit.id, frozenset())
    ck.ob("forwarded-once", "Environment.request_process_of_resource", c == frozenset([1]), f"a request is forwarded to the controller {sorted(c)} times", f.loc)
    for n in calls:
        r = g.r(n.recv, n); a = g.r(n.args[0], n) if n.args else ""
        ck.ob("forwarded-once", "Environment.request_process_of_resource/to", a == par and r in (f"{par}.resource.controller", f"{par}.get_resource().get_controller()", f"{par}.resource.get_controller()", f"{par}.get_resource().controller"),
              f"{a} is forwarded to {r}", n.loc)
    # nobody else changes the waiting lists
    own = set(); sites = 0
    MUT = {"append", "insert", "pop", "remove", "clear", "extend", "popleft", "appendleft"}
    for ci in [base] + list(ck.p.subclasses(base)):
        own |= {m.qual for m in ci.methods.values()}
    for fn in ck.p.all_funcs("prodsys.simulation"):
        for n in ast.walk(fn.node):
            t = None
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT: t = n.func.value
            elif isinstance(n, (ast.Assign, ast.AugAssign)): t = n.targets[0] if isinstance(n, ast.Assign) else n.target
            elif isinstance(n, ast.Delete): t = n.targets[0]
            if isinstance(t, ast.Subscript): t = t.value
            if isinstance(t, ast.Attribute) and t.attr in ("requests", "running_processes", "reserved_requests_count"):
                sites += 1
                ck.ob("list-owner", f"{fn.short}/{t.attr}", fn.qual in own, f"{t.attr} of a controller is changed outside the controllers", f"{fn.mod.rel}:{n.lineno}")
    ck.need("changes of the waiting lists", sites, 8)


def full_check(ck):
    f = ck.p.func("prodsys.simulation.resources.Resource.full")
    g = ck.graph(f, mode="cond", stop=("capacity_current_setup", "in_setup"))
    name = "Resource.full"
    cap, run, res = "self.capacity_current_setup", "len(self.controller.running_processes)", "self.controller.reserved_requests_count"
    setup = {"self.in_setup": True, "self.reserved_setup": True, "(None is self.reserved_setup)": False}
    def ed(b, lab, want):
        n = g.nodes[b]
        return n
    es = [e for e in g.nodes if e.kind == "edge" and g.nodes[e.of].kind == "branch"]
    nosetup = [e for e in es if setup.get(g.r(g.nodes[e.of].term, g.nodes[e.of])) is (not e.label)]
    room = [e for e in es if room_left(g, g.nodes[e.of], e.label, cap, run, res)]
    ck.ob("full", f"{name}/setup", bool(nosetup) and g.path_avoiding(g.entry, g.fexit, nosetup) is None, "a resource that is being set up does not count as full", f.loc)
    ck.ob("full", f"{name}/capacity", bool(room) and g.path_avoiding(g.entry, g.fexit, room) is None, "a resource can count as not full although running and booked work take up its whole capacity", f.loc)
    noroom = [e for e in es if e.of in {x.of for x in room} and e not in room]
    insetup = [e for e in es if e.of in {x.of for x in nosetup} and e not in nosetup]
    ck.ob("full", f"{name}/only", g.path_avoiding(g.entry, g.texit, noroom + insetup) is None, "a resource can count as full although capacity is left", f.loc)


def room_left(g, b, lab, cap, run, res):
    q = edge_ineq(g, b, lab)
    if not q or q[0] != "<=": return False
    d = dict(q[1])
    return d in ({run: 1, res: 1, cap: -1, 1: 1}, {run: 1, cap: -1, 1: 1})  # booked work is remembered as running, too


def counted_once(ck, booking):
    """Started work takes one place only: where it is both remembered as running and booked, the loop has to be woken when the booking ends."""
    g = ck.graph("prodsys.simulation.resources.Resource.full", mode="cond", stop=("capacity_current_setup", "in_setup"))
    run, res = "len(self.controller.running_processes)", "self.controller.reserved_requests_count"
    both = False
    for e in g.nodes:
        if e.kind == "edge" and g.nodes[e.of].kind == "branch":
            q = edge_ineq(g, g.nodes[e.of], e.label); d = dict(q[1]) if q else {}
            both = both or (run in d and res in d)
    for ci, inc in booking:
        if not inc: continue
        s = step_graph(ck, ci); live = s.live()
        wakes = [n for n in s.calls("succeed") if n.id in live and n.recv is not None and s.r(n.recv, n) == "self.requested"]
        ends = [n for n in s.stores(RES[5:]) if n.id in live]
        ys = [n for n in s.nodes if n.kind == "yield" and n.id in live]
        ok = not both or (bool(ends) and all(any(s.path_avoiding(n, w, ys) for w in wakes) for n in ends))
        ck.ob("counted-once", f"{ci.name}.control_loop", ok, "started work is counted twice until it has taken up its request and nothing wakes the loop afterwards, so a free place is left idle although requests wait", ci.find_method("control_loop").loc)


def slots(ck):
    for m, many in (("get_free_process", False), ("get_free_processes", True)):
        g = ck.graph(f"prodsys.simulation.resources.Resource.{m}"); name = f"Resource.{m}"; par = g.fn.params()[1]
        E = "elem(self.production_states)"
        nodes = []
        if many:
            for a, v, t in additions(g):
                if a.id in g.live(): nodes.append((a, v))
        else:
            for n in returns(g):
                for d, v in leaves(g, n.value, n):
                    if v == ("const", None): continue
                    if v[0] == "call" and g.nodes[v[1]].name == "next":
                        c = g.nodes[v[1]]
                        for dd, vv in leaves(g, c.args[0], c):
                            if vv[0] == "comp": e = g.nodes[g.comps[vv[2]]["elt"]]; nodes.append((e, e.value))
                    else:
                        ch = [c for c in def_chain(g, n.value, n) if c.value != ("const", None) and c.value[0] != "elem"]
                        nodes += [(c, v) for c in ch] or [(n, n.value)]
        ck.need(f"slots returned by {m}", len(nodes))
        for n, v in nodes:
            ck.ob("free-slot", f"{name}/which", g.r(v, n) == E, f"{m} yields {g.r(v, n)} instead of a slot of the resource", n.loc)
            # every way to get here: identifier equal and not running
            same = [e for e in g.nodes if e.kind == "edge" and e.label and g.nodes[e.of].kind == "branch" and g.r(g.nodes[e.of].term, g.nodes[e.of]) in (f"({E}.state_data.ID == {par}.process_data.ID)", f"({par}.process_data.ID == {E}.state_data.ID)")]
            idle = [e for e in g.nodes if e.kind == "edge" and g.nodes[e.of].kind == "branch" and (g.r(g.nodes[e.of].term, g.nodes[e.of]), e.label) in ((f"(None is {E}.process)", True), (f"{E}.process.is_alive", False), (f"{E}.process", False))]
            hs = [h for h in g.nodes if h.kind == "loophead" and h.iter is not None and g.r(h.iter, h) == "self.production_states"]
            for what, es in (("the identifier of the process", same), ("that nothing runs in the slot", idle)):
                bad = None
                for h in hs:
                    bad = bad or g.path_avoiding(iter_edge(g, h), n, es)
                ck.ob("free-slot", f"{name}/{what}", bool(es) and bad is None, f"a slot is chosen without checking {what}", n.loc, bad and [z.loc for z in bad if z.kind == "edge"])


def starting(ck):
    g = ck.graph("prodsys.factories.resource_factory.ResourceFactory.start_resources", stop=("start_states", "control_loop")); name = "ResourceFactory.start_resources"
    for what, coll in (("start_states", "resources"), ("control_loop", "controllers")):
        ns = [n for n in g.nodes if n.id in g.live() and n.kind in ("call", "spawn") and n.name == what]
        ck.ob("started", f"{name}/{what}", len(ns) == 1, f"{what} is started at {len(ns)} places", g.fn.loc)
        for n in ns:
            r = g.r(n.recv, n); h = innermost(g, n)
            ok = h is not None and not loop_guards(g, n, h) and visits_all(g, h) is None and r in (f"elem(self.{coll})", "elem(self.resources).controller", "elem(self.resources).get_controller()")
            ck.ob("started", f"{name}/{what}/all", ok, f"{what} is not started for every element ({r})", n.loc)
            if n.name == "control_loop": ck.ob("started", f"{name}/{what}/process", n.kind == "spawn" or any(n.id in call_ids(g, a, c) for c in g.calls("process") for a in c.args), "the dispatch loop is called but not run as a process", n.loc)


def check(ck):
    queueing(ck)
    booking = []
    for ci in controllers(ck):
        r = loop_check(ck, ci)
        step_check(ck, ci, r[0] if r else 0); booking.append((ci, r[0] if r else 0))
    full_check(ck); counted_once(ck, booking); slots(ck); starting(ck)
