"""P17 Set-ups precede work on a differently set-up resource."""
TECHNIQUE = "path queries and reservation typestate over the inlined set-up routine, completeness analysis of the awaited process lists, dominance of set-up over every work start"
NOTE = "Decides for every path of Resource.setup, SetupState.process_state and all work steps that changes happen in the right order with the reservation held; interleavings of two work steps within the same simulated instant are not enumerated."
from ..lib import *
from .steps import controllers, step_graph, awaited, elements
from .p06 import alive_only

RES = "prodsys.simulation.resources."
ST = "prodsys.simulation.state."
RENDER_PROC = "process_data.ID"


def waits(g, y):
    """(attribute list, problem) if the yield waits until all running processes of a list of states have ended"""
    for d, v in leaves(g, y.value, y):
        if v[0] != "call" or g.nodes[v[1]].name not in ("AllOf", "all_of", "AnyOf", "any_of"): continue
        c = g.nodes[v[1]]
        la = c.kw.get("events") or (c.args[-1] if c.args else None)
        if la is None: continue
        for a, x in elements(g, la, c):
            t = g.resolve(x, a)
            if t[0] == "attr" and t[2] == "process" and t[1][0] == "elem":
                h = g.nodes[t[1][2]]
                src = g.r(h.iter, h)
                if not src.endswith("_states"): continue
                if c.name in ("AnyOf", "any_of"): return src, "only one of them is waited for"
                extra = alive_only(g, a, h)
                if extra: return src, f"only those are waited for with {sorted(extra)[0][:100]}"
                e = visits_all(g, h)
                if e is not None: return src, f"the search stops early ({e.loc})"
                return src, None
    return None, None


def wait_nodes(ck, rule, name, g, src):
    """yields that wait for all running processes of src; reports incomplete ones"""
    out = []
    for y in g.nodes:
        if y.kind != "yield" or y.id not in g.live(): continue
        s, why = waits(g, y)
        if s != src: continue
        ck.ob(rule, name, why is None, f"running {'set-ups' if 'setup' in src else 'work'} is not waited for completely: {why}", y.loc)
        out.append(y)
    return out


def same(g, b, lab, procs):
    """the branch edge states that the set-up to be changed equals the one the process needs"""
    t = g.resolve(b.term, b); pol = lab
    while t[0] == "not": t = t[1]; pol = not pol
    if t[0] != "cmp" or t[1] not in ("==", "!="): return None
    eq = (t[1] == "==") == pol
    a, c = g.render(t[2]), g.render(t[3])
    for x, o in ((a, c), (c, a)):
        if x in procs and any(z in o for z in ("current_setup", "reserved_setup")) and "state_data" not in o: return eq
    return None


def setup(ck):
    ci = ck.p.cls(RES + "Resource")
    fn = ci.find_method("setup"); name = "Resource.setup"
    g = ck.graph(fn, selfcls=ci, stop=("SetupState.process_state", "State.process_state", "process_state", "prepare_for_run"))
    live = g.live()
    p = fn.params()[1]
    pid = {f"{p}.process_data.ID"}
    ends = [n for n in returns(g)] or [g.exit]
    runs = [n for n in g.nodes if n.kind in ("call", "spawn") and n.id in live and n.name == "process_state"]
    ck.ob("setup-carried-out", name, bool(runs), "no set-up change is ever carried out", fn.loc)
    stores = lambda attr: [n for n in g.stores(attr) if n.id in live and g.r(n.base, n) == "self"]
    cur = stores("current_setup"); res = stores("reserved_setup")
    take = [n for n in res if g.resolve(n.value, n) != ("const", None)]
    give = [n for n in res if g.resolve(n.value, n) == ("const", None)]
    for n in cur: ck.ob("setup-updated", name + "/value", g.r(n.value, n) == p, f"the set-up of the resource becomes {g.r(n.value, n)[:80]} instead of the one of the process", n.loc)
    for n in take: ck.ob("reserved-for", name, g.r(n.value, n) == p, f"the set-up is reserved for {g.r(n.value, n)[:80]}", n.loc)
    free = wait_nodes(ck, "waits-for-setups", name, g, "self.setup_states")
    for r in runs:
        # the state belongs to the resource and leads from the present set-up to the needed one
        gs = [(g.resolve(b.term, b), pol) for b, s, pol in g.guard_atoms(r)]
        recv = g.r(r.recv, r) if r.recv is not None else "?"
        ck.ob("matching-change", name + "/own", recv == "elem(self.setup_states)", f"the set-up change {recv[:80]} is not one of the resource's", r.loc)
        def eqs(attr):
            out = []
            for t, pol in gs:
                while t[0] == "not": t = t[1]; pol = not pol
                if t[0] == "cmp" and ((t[1] == "==" and pol) or (t[1] == "!=" and not pol)):
                    a, c = g.render(t[2]), g.render(t[3])
                    for x, y in ((a, c), (c, a)):
                        if x == f"elem(self.setup_states).state_data.{attr}": out.append(y)
            return out
        ck.ob("matching-change", name + "/target", any(y in pid for y in eqs("target_setup")), "a set-up change is carried out that does not lead to the set-up the process needs", r.loc)
        og = eqs("origin_setup")
        ck.ob("matching-change", name + "/origin", any("current_setup" in y for y in og), "a set-up change is carried out that does not start from the present set-up of the resource", r.loc)
        ck.ob("pending-change-counts", name, any("reserved_setup" in y for y in og), "a set-up that is still being carried out is not taken as the starting point of the next change", r.loc)
        # awaited
        ys = [y for y in g.nodes if y.kind == "yield" and y.id in live and (r.id in awaited(g, y, {r.id}) or r.kind == "call" and g.dominates(r, y))]
        done = [y for y in ys if g.dominates(r, y)]
        esc = g.path_avoiding(r, [g.exit] + cur + give, done)
        ck.ob("setup-awaited", name, bool(done) and esc is None, "the end of the set-up change is not waited for before the resource counts as set up", r.loc)
        # reservation held during the change and released afterwards
        # earlier changes have ended
        wf = [y for y in free if g.dominates(y, r) and any(g.dominates(t, y) for t in take)]
        ck.ob("waits-for-setups", name + "/before", bool([y for y in free if g.dominates(y, r)]), "the change is started without waiting for other set-ups of the resource", r.loc)
        for y in done:
            bad = g.path_avoiding(y, [g.exit], [n for n in cur])
            ck.ob("setup-updated", name, bad is None, "after the change the set-up of the resource is not updated", y.loc)
            bad = g.path_avoiding(y, [g.exit], [n for n in give])
            ck.ob("reservation-released", name, bad is None, "the reservation is not released after the change", y.loc)
        prep = [n for n in g.calls("prepare_for_run") if n.id in live and n.recv is not None and g.r(n.recv, n) == recv]
        # the process of the state is known to everybody who waits for it or interrupts it
        st = [n for n in g.stores("process") if n.id in live and g.r(n.base, n) == recv and g.resolve(n.value, n) != ("const", None)]
        ck.ob("change-visible", name, bool(st) and (r.kind == "spawn" or any(g.dominates(n, r) for n in st)) and all(not [y for y in g.nodes if y.kind == "yield" and g.dominates(r, y) and g.dominates(y, n)] for n in st), "the running change is not recorded in its state", r.loc)
    # the reservation is held when the change starts and until it has ended
    rid = {r.id for r in runs}; tid = {n.id for n in take}; gid = {n.id for n in give}; cid = {n.id for n in cur}
    def step(x, n, st):
        if n.id in tid: return upd(st, held=True)
        if n.id in gid:
            if dict(st).get("on"): x.bad("reserved-during", n, "the reservation is given up before the set-up of the resource has been updated")
            return upd(st, held=False)
        if n.id in rid:
            if not dict(st).get("held"): x.bad("reserved-during", n, "the change is started without the reservation being held")
            return upd(st, on=True)
        if n.id in cid: return upd(st, on=False)
        return st
    report(ck, Explore(g, mkstate(held=False, on=False), step), name, g, ["reserved-during"])
    # reservation is released whenever it was taken
    for n in take:
        bad = g.path_avoiding(n, [g.exit], give)
        ck.ob("reservation-released", name + "/always", bad is None, "the reservation of the set-up is not released on every path", n.loc, bad and [x.loc for x in bad])
    # updated only after a change or at the very first set-up
    for n in cur:
        first = any(("current_setup" in s) and (s.startswith("(None is ") and pol or s == "self.current_setup" and not pol) for b, s, pol in g.guard_atoms(n))
        ck.ob("setup-updated", name + "/only-after", first or any(g.dominates(r, n) for r in runs), "the set-up of the resource is changed without a change having been carried out", n.loc)
    fe = [e for e in g.nodes if e.kind == "edge" and g.nodes[e.of].kind == "branch" and e.id in live and ((g.r(g.nodes[e.of].term, g.nodes[e.of]) == "(None is self.current_setup)" and e.label) or (g.r(g.nodes[e.of].term, g.nodes[e.of]) == "self.current_setup" and not e.label))]
    ck.ob("first-setup", name, bool(fe) and all(g.path_avoiding(e, [g.exit], cur) is None for e in fe), "the first process does not determine the set-up of the resource", fn.loc)
    # no other way around the change than: first set-up, already set up, none configured
    okedges = list(fe)
    for e in g.nodes:
        if e.kind != "edge" or e.id not in live: continue
        b = g.nodes[e.of]
        if b.kind == "branch" and same(g, b, e.label, pid): okedges.append(e)
        if b.kind == "loophead" and e.label == "done" and b.iter is not None and g.r(b.iter, b) == "self.setup_states" and any(g.dominates(iter_edge(g, b), r) for r in runs): okedges.append(e)
    bad = g.path_avoiding(g.entry, [g.exit], okedges + runs)
    ck.ob("setup-not-skipped", name, bad is None, "work may start without a configured set-up change having been carried out", fn.loc, bad and [x.loc for x in bad if x.kind == "edge"])
    # within the search a matching change is not passed over
    for r in runs:
        for h in g.loops_of(r) or [g.nodes[e.of] for e in g.guards(r) if g.nodes[e.of].kind == "loophead" and e.label == "iter"]:
            if h.iter is None or g.r(h.iter, h) != "self.setup_states": continue
            it = iter_edge(g, h)
            for p_ in paths_to(g, h, start=it):
                if r in p_: continue
                if any(e.kind == "edge" and g.nodes[e.of].kind == "branch" and refutes(g, g.nodes[e.of], e.label) for e in p_): continue
                ck.ob("setup-not-skipped", name + "/search", False, "a matching set-up change is passed over", h.loc); break
            else: ck.ob("setup-not-skipped", name + "/search", True, "", h.loc)
    # whoever is not changing anything waits for running changes
    sm = [e for e in g.nodes if e.kind == "edge" and e.id in live and g.nodes[e.of].kind == "branch" and same(g, g.nodes[e.of], e.label, pid)]
    for e in sm:
        if any(g.reaches(e, r) for r in runs): continue
        ck.ob("waits-for-setups", name + "/same", g.path_avoiding(e, [g.exit], free) is None, "work for the same set-up starts while the set-up is still going on", e.loc)


def refutes(g, b, lab):
    t = g.resolve(b.term, b); pol = lab
    while t[0] == "not": t = t[1]; pol = not pol
    if t[0] != "cmp" or t[1] not in ("==", "!="): return False
    s = g.render(t)
    return ((t[1] == "==") != pol) and ("target_setup" in s or "origin_setup" in s)


def setup_state(ck):
    ci = ck.p.cls(ST + "SetupState"); name = "SetupState.process_state"
    g = ck.graph(ci.find_method("process_state"), selfcls=ci, stop=("get_next_time",))
    w = wait_nodes(ck, "waits-for-work", name, g, "self.resource.production_states")
    tm = [y for y in g.nodes if y.kind == "yield" and y.id in g.live() and g.resolve(y.value, y)[0] == "call" and g.nodes[g.resolve(y.value, y)[1]].name == "timeout"]
    ck.ob("waits-for-work", name + "/present", bool(w), "a set-up does not wait for the running work of the resource", g.fn.loc)
    for y in tm:
        ck.ob("waits-for-work", name + "/before", g.path_avoiding(g.entry, y, w) is None, "the set-up starts while work is still running", y.loc)


def capacity(ck):
    """while a change is pending the resource counts as full, and its capacity is the one of the set-up it will have"""
    base = ck.p.cls(RES + "Resource")
    for ci in [base] + list(ck.p.subclasses(base)):
        fn = ci.find_method("full")
        if fn is None: continue
        g = ck.graph(fn, selfcls=ci, mode="cond", stop=("capacity_current_setup",))
        def pending(e):
            b = g.nodes[e.of]
            if b.kind != "branch": return False
            s = g.r(b.term, b)
            return s == "(None is self.reserved_setup)" and e.label is True or s == "self.reserved_setup" and e.label is False
        free = [e for e in g.nodes if e.kind == "edge" and e.id in g.live() and pending(e)]
        bad = g.path_avoiding(g.entry, [g.fexit], free)
        ck.ob("full-while-setup", f"{ci.name}.full", bad is None, "the resource counts as free while its set-up is being changed", fn.loc)
    fn = base.find_method("capacity_current_setup")
    g = ck.graph(fn, selfcls=base)
    n = 0
    for rn in returns(g):
        for d, v in leaves(g, rn.value, rn):
            s = g.r(v, d)
            if s == "self.capacity":
                gs = g.guard_set(d) | g.guard_set(rn)
                ok = {"!self.current_setup", "!self.reserved_setup"} <= gs or {"(None is self.current_setup)", "(None is self.reserved_setup)"} <= gs
                ck.ob("capacity-of-setup", "Resource.capacity_current_setup/initial", ok, "the full capacity is assumed although the resource is set up for a process", rn.loc)
                continue
            n += 1
            if "production_states" in s:
                okc = "state_data.ID" in s and "reserved_setup" in s and "current_setup" in s
                ck.ob("capacity-of-setup", "Resource.capacity_current_setup", okc, f"the capacity is {s[:160]} instead of the number of states for the pending or present set-up", rn.loc)
    ck.ob("capacity-of-setup", "Resource.capacity_current_setup/counted", n > 0, "the capacity never depends on the set-up", fn.loc)


def writers(ck):
    """nobody else touches the set-up of a resource"""
    base = ck.p.cls(RES + "Resource")
    own = {base} | set(ck.p.subclasses(base)); n = 0
    import ast
    allowed = set()
    for ci in own:
        for f in ci.methods.values(): allowed.add(id(f.node))
    for fn in ck.p.all_funcs():
        for x in ast.walk(fn.node):
            ts = x.targets if isinstance(x, ast.Assign) else [x.target] if isinstance(x, (ast.AugAssign, ast.AnnAssign)) else []
            for t in ts:
                if isinstance(t, ast.Attribute) and t.attr in ("current_setup", "reserved_setup"):
                    n += 1
                    ck.ob("setup-writers", fn.short, id(fn.node) in allowed, f"{t.attr} of a resource is changed from outside", f"{fn.loc.split(':')[0]}:{x.lineno}")
    ck.need("writes of the set-up", n)


def work(ck):
    """every work step sets the resource up for the process of its request before the work starts"""
    for ci in controllers(ck):
        g = step_graph(ck, ci)
        live = g.live()
        name = ci.name
        sets = [n for n in g.nodes if n.kind in ("call", "spawn") and n.id in live and n.name == "setup" and n.recv is not None]
        starts = [n for n in g.nodes if n.kind in ("call", "spawn") and n.id in live and n.name == "process_state"]
        ck.need(f"work starts of {name}", len(starts))
        ok = [n for n in sets if len(n.args) == 1 and proc_of_request(g, n)]
        ck.ob("setup-before-work", name + "/process", bool(ok), "the resource is not set up for the process of the request", (sets or starts)[0].loc)
        ys = [y for y in g.nodes if y.kind == "yield" and y.id in live and any(s.id in awaited(g, y, {s.id}) for s in ok)]
        ys += [s for s in ok if s.kind == "call" and any(x.kind == "yield" for x in g.nodes) and s.get("delegated")]
        for s in starts:
            bad = g.path_avoiding(g.entry, s, ys)
            ck.ob("setup-before-work", name, bool(ys) and bad is None, "work starts without the resource having been set up for it", s.loc)


def proc_of_request(g, n):
    s = g.r(n.args[0], n)
    return s.endswith(".process") and "self.requests" in s and "resource" not in s.split(".process")[0].split("self.requests")[-1]


def check(ck):
    setup(ck); setup_state(ck); capacity(ck); writers(ck); work(ck)
