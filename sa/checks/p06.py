"""P06 A failed resource or process does no work until repaired."""
TECHNIQUE = "typestate exploration of failure processes and loop/set coverage analysis"
NOTE = "All paths of the failure processes and availability functions are covered; times themselves are not."
from ..lib import *
from .states import interruptible

S = "prodsys.simulation.state."
RES = "prodsys.simulation.resources."
STOP = ("get_next_time", "interrupt_states", "Resource.activate", "log_start_state", "log_end_state", "interrupt_process", "State.deactivate", "State.activate")
ALIVE = {"process", "alive", "interrupted"}


def timeout_of(g, y):
    """('wait'|'repair'|'other') for a yield"""
    t = g.resolve(y.value, y)
    if t[0] == "proc": return None
    if t[0] == "call" and g.nodes[t[1]].name == "timeout" and g.nodes[t[1]].args:
        c = g.nodes[t[1]]; a = g.resolve(c.args[0], c)
        s = g.render(a)
        if s == "self.time_model.get_next_time()": return "wait"
        if s == "self.repair_time_model.get_next_time()": return "repair"
        return "other:" + s
    return "other:" + g.render(t)


def breakdown(ck):
    ci = ck.p.cls(S + "BreakDownState")
    g = ck.graph(ci.find_method("process_state"), selfcls=ci, stop=STOP)
    name = "BreakDownState.process_state"
    ck.ob("fails-again", name, g.exit.id not in nonexc_live(g), "the failure process ends, so the resource never fails again (or is never repaired)", g.fn.loc)
    kinds = {y.id: timeout_of(g, y) for y in g.nodes if y.kind == "yield" and y.id in g.live()}
    ck.need("timed waits of a failure", sum(v in ("wait", "repair") for v in kinds.values()), 1)
    for k in ("wait", "repair"): ck.ob("failure-cycle", f"{name}/{k}", k in kinds.values(), f"no {'time to failure' if k == 'wait' else 'repair time'} is waited", g.fn.loc)

    def step(x, n, st):
        d = dict(st)
        if n.kind == "store" and n.attr == "active_breakdown" and g.r(n.base, n) == "self": d["flag"] = g.r(n.value, n) == "True"
        elif n.kind == "call" and n.recv is not None and g.r(n.recv, n) == "self.resource":
            if n.name == "interrupt_states":
                if not d["waited"]: x.bad("interrupt-at-failure", n, "running work is interrupted although no failure has occurred")
                d["intr"] = True
            elif n.name == "activate":
                if not d["rep"]: x.bad("repair-first", n, "the resource is made available before the repair time has passed")
                if d["flag"]: x.bad("repair-flag", n, "the resource is made available while this failure is still marked as being under repair")
                d["act"] = True
        elif n.kind == "call" and n.name == "get_next_time" and n.recv is not None and g.r(n.recv, n) == "self.repair_time_model":
            if d["samples"]: x.bad("one-repair-sample", n, "more than one repair time is drawn for a failure")
            d["samples"] = 1
        elif n.kind == "yield":
            k = kinds.get(n.id)
            if k == "wait":
                if d["down"]:
                    if not d["rep"]: x.bad("repair-missing", n, "the failure ends without a repair time")
                    if not d["act"]: x.bad("reactivated", n, "after the repair the resource is never made available again")
                    if d["flag"]: x.bad("flag-stuck", n, "the failure stays marked as being under repair")
                d = dict(waited=True, down=False, flag=d["flag"], intr=False, rep=False, act=False, samples=0)
                # the failure occurs when the wait ends
                d["down"] = True
            elif k == "repair":
                if not d["down"]: x.bad("repair-without-failure", n, "a repair starts although nothing failed")
                if not d["intr"]: x.bad("work-interrupted", n, "running work is not interrupted when the failure occurs")
                if not d["flag"]: x.bad("marked-under-repair", n, "the failure is not marked as being under repair, so an overlapping failure can bring the resource back")
                d["rep"] = True
            elif k is not None:
                x.bad("immediate", n, f"an additional wait ({k[6:] if k.startswith('other:') else k}) separates the steps of a failure")
        return upd(d)
    def edge(x, n, s, lab, st): return None if lab == "exc" else st
    x = Explore(g, mkstate(waited=False, down=False, flag=False, intr=False, rep=False, act=False, samples=0), step, edge)
    report(ck, x, name, g, ("interrupt-at-failure", "repair-first", "repair-flag", "one-repair-sample", "repair-missing", "reactivated", "flag-stuck", "repair-without-failure", "work-interrupted", "marked-under-repair", "immediate"))
    # calls must be unconditional: checked by the walk since every path is explored
    f = ci.find_field("active_breakdown")
    ck.ob("flag-initial", "BreakDownState.active_breakdown", f is not None and f[1][1] is not None and ast.unparse(f[1][1]) == "False", "a failure starts marked as under repair", ci.loc)


def alive_only(g, n, head):
    """literals guarding an interruption other than 'has a running, not yet interrupted process'"""
    out = set()
    for l in loop_guards(g, n, head):
        b = l.lstrip("!")
        if l.endswith(".process") and not l.startswith("!"): continue
        if l.endswith(".process.is_alive") and not l.startswith("!"): continue
        if l.endswith(".interrupted") and l.startswith("!"): continue
        if l.startswith("!(None is ") and b.endswith(".process)"): continue
        out.add(l)
    return out


def each(ck, g, name, rule, method, want, allowed, msg):
    """`method` is called on every element of exactly the lists `want`"""
    calls = [n for n in g.calls(method) if n.recv is not None and g.resolve(n.recv, n)[0] == "elem"]
    got = set()
    for n in calls:
        h = innermost(g, n)
        if h is None: continue
        parts = list_parts(g, h.iter, h)
        extra = allowed(g, n, h) if allowed else loop_guards(g, n, h)
        t = g.resolve(n.recv, n)
        if extra: ck.ob(rule, f"{name}/{method}", False, f"{msg} only if {sorted(extra)}", n.loc)
        esc = visits_all(g, h)
        if esc is not None: ck.ob(rule, f"{name}/{method}", False, f"the loop over {sorted(parts)} is left before all states have been visited", esc.loc)
        got |= parts
    ck.ob(rule, f"{name}/{method}-set", got == want, f"{msg}: done for {sorted(got)} instead of {sorted(want)}", (calls[0].loc if calls else g.fn.loc))
    return calls


def resource(ck):
    base = ck.p.cls(RES + "Resource")
    classes = [base] + list(ck.p.subclasses(base))
    seen = set()
    for ci in classes:
        m = ci.find_method("interrupt_states")
        if m.qual in seen: continue
        seen.add(m.qual)
        g = ck.graph(m, selfcls=ci, stop=STOP)
        name = m.short
        each(ck, g, name, "interrupts-all", "interrupt_process", {"self.setup_states", "self.production_states"}, alive_only, "running work is interrupted")
        st = [n for n in g.stores("active") if g.r(n.base, n) == "self"]
        fresh = [n for n in st if (lambda t: t[0] == "call" and g.nodes[t[1]].name in ("Event", "event"))(g.resolve(n.value, n))]
        ck.ob("unavailable", name, bool(fresh) and len(fresh) == len(st), "the resource is not made unavailable by a fresh, untriggered event", m.loc)
        notrig = [e for e in g.nodes if e.kind == "edge" and g.nodes[e.of].kind == "branch" and e.label is False and g.r(g.nodes[e.of].term, e) in ("self.active.triggered", "self.active.processed")]
        p = g.path_avoiding(g.entry, g.exit, fresh + notrig)
        ck.ob("unavailable", f"{name}/every-path", p is None, "the resource can stay available while it fails", m.loc, p and [q.loc for q in p if q.kind == "edge"])
        for n in fresh:
            gs = g.guard_set(n)
            ck.ob("waiters-kept", name, bool(gs & {"self.active.triggered", "self.active.processed"}), "a resource that is already failed gets a new availability event, and those waiting for the old one wait for ever", n.loc)
    seen = set()
    for ci in classes:
        m = ci.find_method("activate")
        if m.qual in seen: continue
        seen.add(m.qual); name = m.short
        g = ck.graph(m, selfcls=ci, stop=STOP)
        suc = [n for n in g.calls("succeed") if n.recv is not None and g.r(n.recv, n) == "self.active"]
        ck.ob("reactivates", name, len(suc) >= 1, "the resource is never made available again", m.loc)
        tests = [b for b in g.nodes if b.kind == "branch" and b.id in g.live() and g.r(b.term, b).endswith(".active_breakdown")]
        te = [e for e in g.nodes if e.kind == "edge" and e.of in {b.id for b in tests} and e.label is True]
        # flags computed from the test count as the test
        p = g.path_avoiding(g.entry, g.exit, suc + te)
        ck.ob("reactivates", f"{name}/unless-under-repair", p is None and bool(tests), "the resource stays unavailable although no failure is under repair", m.loc, p and [q.loc for q in p if q.kind == "edge"])
        bad = [(e, s) for e in te for s in suc if g.path_avoiding(e, s, []) is not None and not flag_blocks(g, e, s)]
        ck.ob("overlapping-failures", name, not bad, "the resource becomes available although another failure is still under repair", bad[0][1].loc if bad else m.loc)
        # every failure state is looked at
        good = []
        for b in tests:
            h = innermost(g, b)
            if h is None: continue
            parts = list_parts(g, h.iter, h)
            filt = {l for l in loop_guards(g, b, h) if not ("isinstance(" in l and "BreakDownState" in l and "Process" not in l and not l.startswith("!"))}
            # iterations skip the test only for other kinds of state
            ie = iter_edge(g, h)
            skip = g.path_avoiding(ie, h, [b] + [e for e in g.nodes if e.kind == "edge" and e.label is False and g.nodes[e.of].kind == "branch" and "isinstance(" in g.r(g.nodes[e.of].term, e) and "BreakDownState" in g.r(g.nodes[e.of].term, e)])
            if {x.replace(" if filtered", "") for x in parts} == {"self.states"} and not filt and skip is None: good.append(h)
        ck.ob("overlapping-failures", f"{name}/all-failures", bool(good) and all(any(g.dominates(h, s) for h in good) for s in suc), "not every failure of the resource is considered before it is made available", m.loc)


def flag_blocks(g, e, s):
    """a local flag set on the path of e prevents s"""
    for b, txt, pol in g.guard_atoms(s):
        t = b.term
        if t[0] == "var":
            for d in g.rd((t[1], t[2]), b):
                if d.value == ("const", not pol) and g.dominates(e, d): return True
    return False


def process_breakdown(ck):
    ci = ck.p.cls(S + "ProcessBreakDownState")
    g = ck.graph(ci.find_method("process_state"), selfcls=ci, stop=STOP)
    name = "ProcessBreakDownState.process_state"
    want = {"self.production_states", "self.resource.setup_states"}
    ck.ob("fails-again", name, g.exit.id not in nonexc_live(g), "the failure process ends", g.fn.loc)
    ops = {"deactivate": each(ck, g, name, "process-states", "deactivate", want, None, "states are made unavailable"),
           "interrupt_process": each(ck, g, name, "process-states", "interrupt_process", want, alive_only, "running work is interrupted"),
           "activate": each(ck, g, name, "process-states", "activate", want, None, "states are made available again")}
    kinds = {y.id: timeout_of(g, y) for y in g.nodes if y.kind == "yield" and y.id in g.live()}
    for k in ("wait", "repair"): ck.ob("failure-cycle", f"{name}/{k}", k in kinds.values(), f"no {'time to failure' if k == 'wait' else 'repair time'} is waited", g.fn.loc)
    marks = {}
    for op, calls in ops.items():
        for n in calls:
            h = innermost(g, n)
            if h is not None: marks.setdefault(done_edge(g, h).id, []).append((op, frozenset(list_parts(g, h.iter, h) & want)))
    # loops that look whether every state is available
    for b in g.nodes:
        if b.kind == "branch" and b.id in g.live() and g.r(b.term, b).endswith(".active.triggered"):
            h = innermost(g, b)
            if h is None: continue
            fe = [e for e in g.nodes if e.kind == "edge" and e.of == b.id and e.label is False]
            if all(g.path_avoiding(e, h, [y for y in g.nodes if y.kind == "yield"]) is None for e in fe) and g.path_avoiding(iter_edge(g, h), h, [b]) is None:
                marks.setdefault(done_edge(g, h).id, []).append(("avail", frozenset(list_parts(g, h.iter, h) & want)))
    W = frozenset(want)

    def step(x, n, st):
        d = dict(st)
        if n.id in marks:
            for op, parts in marks[n.id]: d[op] = d[op] | parts
            if any(op == "activate" for op, _ in marks[n.id]) and d["activate"] == W: d["deactivate"] = frozenset()
        if n.kind == "call" and n in ops["deactivate"]:
            if not d["waited"]: x.bad("interrupt-at-failure", n, "states are made unavailable although no failure has occurred")
            if d["avail"] != W: x.bad("failures-do-not-overlap", n, "states that another process failure has made unavailable are made unavailable again: those waiting for them wait for ever, and they are made available twice")
        if n.kind == "call" and n in ops["activate"] and not d["rep"]: x.bad("repair-first", n, "states are made available before the repair time has passed")
        if n.kind == "call" and n.name == "get_next_time" and n.recv is not None and g.r(n.recv, n) == "self.repair_time_model":
            if d["samples"]: x.bad("one-repair-sample", n, "more than one repair time is drawn for a failure")
            d["samples"] = 1
        if n.kind == "yield":
            k = kinds.get(n.id)
            if k == "wait":
                if d["down"] and d["activate"] != W: x.bad("reactivated", n, "after the repair not all states are made available again")
                d = dict(waited=True, down=True, avail=frozenset(), deactivate=frozenset(), interrupt_process=frozenset(), activate=frozenset(), rep=False, samples=0)
            elif k == "repair":
                if d["deactivate"] != W: x.bad("unavailable", n, "not all affected states are unavailable during the repair")
                if d["interrupt_process"] != W: x.bad("work-interrupted", n, "running work of the affected states is not interrupted when the failure occurs")
                d["rep"] = True
            elif k is not None:
                if d["deactivate"]: x.bad("immediate", n, "an additional wait separates the steps of a failure")
                if k.startswith("other:") and "timeout(" in k: x.bad("immediate", n, f"an additional wait ({k[6:]}) delays the failure")
                d["avail"] = frozenset()
        return upd(d)
    def edge(x, n, s, lab, st): return None if lab == "exc" else st
    E = frozenset()
    x = Explore(g, mkstate(waited=False, down=False, avail=E, deactivate=E, interrupt_process=E, activate=E, rep=False, samples=0), step, edge)
    report(ck, x, name, g, ("interrupt-at-failure", "failures-do-not-overlap", "repair-first", "one-repair-sample", "reactivated", "unavailable", "work-interrupted", "immediate"))
    # which states belong to the failed process
    g = ck.graph("prodsys.factories.resource_factory.adjust_process_breakdown_states", stop=("set_production_states",))
    sets = g.calls("set_production_states")
    ck.need("set_production_states calls", len(sets))
    for n in sets:
        t = g.resolve(g.arg(n, 0, "production_states"), n)
        txt = g.render(t)
        rcv = g.r(n.recv, n)
        own = f"{rcv}.state_data.process_id"
        eq = [f"(elem(resource.production_states).state_data.ID == {own})", f"({own} == elem(resource.production_states).state_data.ID)"]
        lits = set()
        if t[0] == "comp":
            info = g.comps[t[2]]; e = g.nodes[info["elt"]]; lits = loop_guards(g, e, g.nodes[info["heads"][-1]])
        else:
            for a, v, tgt in additions(g):
                if tgt is not None and g.r(v, a) == "elem(resource.production_states)":
                    h = innermost(g, a); lits = loop_guards(g, a, h) if h is not None else set()
        own_lits = {l for l in lits if any(l == q for q in eq)}
        rest = {l for l in lits if l not in own_lits}
        kinds_ok = all("isinstance(" in l and "ProductionState" in l and "TransportState" in l for l in rest)
        ck.ob("states-of-process", "adjust_process_breakdown_states", "elem(resource.production_states)" in txt or bool(lits), f"the states of the failed process are {txt}", n.loc)
        ck.ob("states-of-process", "adjust_process_breakdown_states/by-process", bool(own_lits), f"the states of a failed process are not selected by its identifier: {sorted(lits)}", n.loc)
        ck.ob("states-of-process", "adjust_process_breakdown_states/every-kind", kinds_ok, f"states of the failed process are left out: {sorted(rest)}", n.loc)
        ls = [h for h in g.loops_of(n) if h.iter is not None]
        ck.ob("states-of-process", "adjust_process_breakdown_states/every-failure", bool(ls) and "resource.states" in g.r(ls[0].iter, ls[0]) and not {l for l in loop_guards(g, n, ls[0]) if not ("isinstance(" in l and "ProcessBreakDownState" in l)}, "not every process failure of the resource gets its states", n.loc)
    g = ck.graph("prodsys.factories.resource_factory.ResourceFactory.add_resource", stop=("register_states", "register_production_states_for_processes", "adjust_process_breakdown_states", "get_states", "get_processes_in_order", "set_resource", "get_queues_for_resource", "get_class_from_str"))
    order = [g.calls(x) for x in ("register_states", "register_production_states_for_processes", "adjust_process_breakdown_states")]
    ck.ob("states-registered", "ResourceFactory.add_resource", all(len(o) == 1 for o in order) and all(g.dominates(o[0], order[2][0]) for o in order[:2]) and all(g.always_after(g.entry, o) for o in order),
          "states, process states and process failures are not registered once each in this order", g.fn.loc)


def started(ck):
    """all states begin available and every failure process is started"""
    base = ck.p.cls(RES + "Resource")
    for m in {c.find_method("start_states").qual: c.find_method("start_states") for c in [base] + list(ck.p.subclasses(base))}.values():
        g = ck.graph(m, stop=("activate_state", "process_state"))
        each(ck, g, m.short, "starts-available", "activate_state", {"self.states", "self.production_states", "self.setup_states", "self.charging_states"}, None, "states are made available at the start")
        sp = [n for n in g.calls("process_state") if n.recv is not None]
        ok = False
        for n in sp:
            h = innermost(g, n)
            ok |= h is not None and list_parts(g, h.iter, h) == {"self.states"} and not loop_guards(g, n, h) and visits_all(g, h) is None
        ck.ob("failures-start", m.short, ok, "the failure processes of the resource are not all started", m.loc)
        act = [n for n in g.stores("active") if g.r(n.base, n) == "self" and g.r(n.value, n).endswith(".succeed()")]
        act += [n for n in g.calls("succeed") if n.recv is not None and g.r(n.recv, n) == "self.active"]
        ck.ob("starts-available", f"{m.short}/resource", bool(act) and g.always_after(g.entry, act), "the resource does not start available", m.loc)
    g = ck.graph(RES + "Resource.add_state", stop=("set_resource",))
    lists = {}
    for n in g.calls("append"):
        lists[g.r(n.recv, n)] = (g.guard_set(n), n)
        ck.ob("state-kept", f"Resource.add_state/{g.r(n.recv, n)}", g.r(g.arg(n, 0), n) == "input_state", "another object than the state is kept", n.loc)
    for l, cls in (("self.setup_states", "SetupState"), ("self.charging_states", "ChargingState")):
        gs, n = lists.get(l, (set(), None))
        ck.ob("state-lists", f"Resource.add_state/{cls}", n is not None and any("isinstance(" in x and cls in x and not x.startswith("!") for x in gs), f"{cls} is not kept in {l}", n.loc if n else g.fn.loc)
    gs, n = lists.get("self.states", (set(), None))
    ck.ob("state-lists", "Resource.add_state/failures", n is not None and not any(("isinstance(" in x and not x.startswith("!")) and "BreakDown" not in x for x in gs), "failure states are not kept in self.states", g.fn.loc)
    cnt = event_counts(g, lambda n: n.kind == "call" and n.name == "append").get(g.exit.id)
    ck.ob("state-lists", "Resource.add_state/once", cnt == frozenset([1]), f"a state is kept {sorted(cnt or [])} times", g.fn.loc)
    cnt = event_counts(g, lambda n: n.kind == "call" and n.name == "set_resource" and g.r(n.args[0], n) == "self" if n.kind == "call" and n.name == "set_resource" and n.args else False).get(g.exit.id)
    ck.ob("state-lists", "Resource.add_state/resource", bool(cnt) and 0 not in cnt, "a state does not get to know its resource", g.fn.loc)


def check(ck):
    breakdown(ck); resource(ck); process_breakdown(ck); started(ck)
    # deactivate / activate of a state
    base = ck.p.cls(S + "State")
    ms = {c.find_method("deactivate").qual: c.find_method("deactivate") for c in [base] + list(ck.p.subclasses(base))}
    for m in ms.values():
        g = ck.graph(m)
        fresh = [n for n in g.stores("active") if g.r(n.base, n) == "self" and (lambda t: t[0] == "call" and g.nodes[t[1]].name in ("Event", "event"))(g.resolve(n.value, n))]
        ck.ob("deactivates", m.short, bool(fresh) and g.path_avoiding(g.entry, g.exit, fresh) is None, "a state is not made unavailable by a fresh event", m.loc)
    ms = {c.find_method("activate").qual: c.find_method("activate") for c in [base] + list(ck.p.subclasses(base))}
    for m in ms.values():
        g = ck.graph(m)
        suc = [n for n in g.calls("succeed") if n.recv is not None and g.r(n.recv, n) == "self.active"]
        ck.ob("activates", m.short, bool(suc) and g.path_avoiding(g.entry, g.exit, suc) is None, "a state is not made available again", m.loc)
    for ci in interruptible(ck):
        m = ci.find_method("activate_state"); g = ck.graph(m, selfcls=ci)
        st = [n for n in g.stores("active") if g.r(n.base, n) == "self" and g.r(n.value, n).endswith(".succeed()")] + [n for n in g.calls("succeed") if n.recv is not None and g.r(n.recv, n) == "self.active"]
        ck.ob("starts-available", f"{ci.name}.activate_state", bool(st) and g.path_avoiding(g.entry, g.exit, st) is None, "the state does not start available", m.loc)
