"""P07 The event log records every state change truthfully."""
TECHNIQUE = "typestate exploration of logging in the state processes, dataflow from log calls to recorded fields"
NOTE = "All paths of every state process incl. interruptions; the record is composed symbolically from the arguments of the log call to the dictionary that is appended. Numeric values are compared as linear terms."
from ..lib import *
from .states import *
from .p06 import timeout_of

ST = "prodsys.simulation.state."
LOGS = ("log_start_state", "log_start_interrupt_state", "log_end_interrupt_state", "log_end_state")
STOPB = LOGS + ("get_next_time", "interrupt_states", "Resource.activate", "interrupt_process", "State.deactivate", "State.activate")


def kindname(p, ci):
    """StateTypeEnum member that belongs to a state class (ProductionState -> production)"""
    en = p.enum_values(p.cls(ST + "StateTypeEnum"))
    base = ci.name[:-5].lower()
    for m in en:
        if m.replace("_", "").lower() == base: return m
    return None


def is_log(g, n): return n.kind == "call" and n.name in LOGS and n.recv is not None and g.r(n.recv, n) == "self.state_info"


def values(ck, g, n):
    """(time term, expected end term|None, type term) of a log call"""
    fn = ck.p.cls(ST + "StateInfo").find_method(n.name)
    a = argmap(n, fn); ps = fn.params()[1:]
    return a.get(ps[0]), (a.get(ps[1]) if len(ps) == 3 else None), a.get(ps[-1])


def now_ok(g, t, n, start, fresh):
    r = g.r(t, n) if t is not None else "nothing"
    if r == "self.env.now": return True
    return start is not None and r == f"self.{start}" and fresh


def work(ck, ci):
    m = StateModel(ck, ci); g = m.g; name = f"{ci.name}.process_state"
    if not m.rem: ck.ob("remaining-timed", name, False, "the work is not timed by one remaining-duration attribute", g.fn.loc); return
    want = kindname(ck.p, ci)
    for n in g.nodes:
        if is_log(g, n) and n.id in g.live():
            t = values(ck, g, n)[2]
            ck.ob("own-kind", f"{name}/{n.name}", t is not None and g.r(t, n) == f"StateTypeEnum.{want}", f"logged as {g.r(t, n) if t else 'nothing'} instead of {want}", n.loc)

    def expected(x, n, d):
        t, e, _ = values(ck, g, n)
        if not now_ok(g, t, n, m.start, d["fresh"]): x.bad("at-now", n, f"{n.name} is logged at {g.r(t, n) if t else 'nothing'} instead of the current time")
        if e is not None:
            l = lin(g, e, n)
            ok = l == {"self.env.now": 1, f"self.{m.rem}": 1} or (d["fresh"] and l == {f"self.{m.start}": 1, f"self.{m.rem}": 1})
            if not ok: x.bad("expected-end", n, f"the expected end is logged as {g.r(e, n)} instead of now plus the remaining duration")
        elif n.name in ("log_start_state", "log_end_interrupt_state"): x.bad("expected-end", n, "no expected end is logged")

    def step(x, n, st):
        d = dict(st)
        if n.kind == "edge" and g.nodes[n.of].kind == "branch":
            f = edge_facts(m, n)
            if f.get("infeasible"): return None
            if "flag" in f and f["flag"] != d["flag"]: return None
            if "rem0" in f:
                if d["rem0"] and not f["rem0"]: return None
                if f["rem0"] and d["nz"]: return None
                d["rem0"] = f["rem0"] or d["rem0"]; d["nz"] = not f["rem0"]
            return upd(d)
        k = m.kind(n)
        if k == "flag0": d["flag"] = False
        elif k == "start": d["fresh"] = True
        elif k == "start?": d["fresh"] = False
        elif k == "ded":
            d["rem0"] = False; d["nz"] = False
            if d["slog"] or d["elog"]: x.bad("expected-end", n, "the remaining duration changes after the expected end has been logged")
        elif k == "zero": d["rem0"] = True; d["nz"] = False
        elif k == "set" and d["slog"]: x.bad("expected-end", n, "the remaining duration changes after the expected end has been logged")
        elif is_log(g, n):
            expected(x, n, d)
            if n.name == "log_start_state":
                if d["slog"]: x.bad("start-once", n, "the start is logged twice")
                d["slog"] = True
            elif n.name == "log_start_interrupt_state":
                if not d["pend"]: x.bad("interruption-true", n, "an interruption is logged although no running work has been interrupted")
                d["pend"] = False; d["open"] = 1
            elif n.name == "log_end_interrupt_state":
                if not d["open"]: x.bad("resumption-true", n, "a resumption is logged although no interruption has been")
                if d["open"] == 1: x.bad("resumption-true", n, "the resumption is logged before it has been waited for")
                if d["flag"] and False: pass
                d["open"] = 0; d["elog"] = 1
            elif n.name == "log_end_state":
                if d["ended"]: x.bad("end-once", n, "the end is logged twice")
                if not d["ever"]: x.bad("start-logged", n, "the end of work is logged although its start never was")
                if not (d["done"] or d["rem0"]): x.bad("end-true", n, "the end is logged before the full duration has elapsed")
                d["ended"] = True
        elif n.kind == "yield":
            if d["unann"]: return None
            if d["pend"]: x.bad("interruption-logged", n, "an interruption of running work is not logged when it happens")
            if d["done"] and not d["ended"]: x.bad("end-logged", n, "time passes between the end of the work and its record")
            if n.id in m.T:
                if not d["slog"]: x.bad("start-logged", n, "work starts (or resumes) without being logged at that moment")
                d["ever"] = True
                if d["open"]: x.bad("resumption-logged", n, "the resumption of interrupted work is not logged")
            else:
                if d["slog"]: x.bad("start-true", n, "the start is logged although work does not start at that moment")
                if d["elog"]: x.bad("resumption-true", n, "the resumption is logged although work does not resume at that moment")
            if d["open"]: d["open"] = 2
            d["slog"] = False; d["elog"] = 0; d["fresh"] = False
        elif n is g.exit:
            if not d["ended"]: x.bad("end-logged", n, "the work can end without its end being logged")
            if d["pend"] and not d["rem0"]: x.bad("interruption-logged", n, "an interruption of running work is not logged")   # no time left: nothing was interrupted
        return upd(d)

    def edge(x, n, s, lab, st):
        d = dict(st)
        if lab == "exc":
            if n.kind != "yield": return None if n.kind == "call" else st
            if s.kind == "handler" and s.types and not ({"Interrupt", "Exception", "BaseException"} & set(s.types)): return None
            if d["flag"]: return None
            base = upd(d, pend=True, slog=False) if n.id in m.T else st
            return [upd(base, flag=True), upd(base, unann=True)]
        if n.kind == "yield" and n.id in m.T: return upd(d, done=True)
        return st
    x = Explore(g, mkstate(flag=False, fresh=False, done=False, rem0=False, nz=False, unann=False, pend=False, open=0, slog=False, elog=0, ended=False, ever=False), step, edge)
    report(ck, x, name, g, ("at-now", "expected-end", "start-once", "interruption-true", "resumption-true", "end-once", "end-true", "interruption-logged", "end-logged", "start-logged", "resumption-logged", "start-true"))


def failure(ck, cname, stateattr=None):
    ci = ck.p.cls(ST + cname)
    g = ck.graph(ci.find_method("process_state"), selfcls=ci, stop=STOPB); name = f"{cname}.process_state"
    want = kindname(ck.p, ci)
    kinds = {y.id: timeout_of(g, y) for y in g.nodes if y.kind == "yield" and y.id in g.live()}
    repairs = [y for y in g.nodes if kinds.get(y.id) == "repair"]
    ck.need(f"repair wait of {cname}", len(repairs))
    def term(y):
        t = g.resolve(y.value, y); c = g.nodes[t[1]]
        return g.resolve(c.args[0], c)
    def step(x, n, st):
        d = dict(st)
        if is_log(g, n):
            t, e, k = values(ck, g, n)
            if k is None or g.r(k, n) != f"StateTypeEnum.{want}": x.bad("own-kind", n, f"logged as {g.r(k, n) if k else 'nothing'} instead of {want}")
            if t is None or g.r(t, n) != "self.env.now": x.bad("at-now", n, f"{n.name} is logged at {g.r(t, n) if t else 'nothing'} instead of the current time")
            if n.name == "log_start_state":
                if d["slog"]: x.bad("start-once", n, "the failure is logged twice")
                if not d["down"]: x.bad("start-true", n, "a failure is logged that has not occurred")
                d["slog"] = True
                r = g.resolve(e, n) if e is not None else None
                ok = r is not None and r[0] == "bin" and r[1] == "+" and any(g.render(a) == "self.env.now" and any(b == term(y) for y in repairs) for a, b in ((r[2], r[3]), (r[3], r[2])))
                if not ok: x.bad("expected-end", n, f"the expected end is logged as {g.r(e, n) if e is not None else 'nothing'} instead of now plus the repair time that is waited")
            elif n.name == "log_end_state":
                if d["elog"]: x.bad("end-once", n, "the end of the failure is logged twice")
                if not d["rep"]: x.bad("end-true", n, "the end of the failure is logged before the repair has been waited for")
                d["elog"] = True
            else: x.bad("start-true", n, "a failure logs an interruption of itself")
        elif n.kind == "yield":
            k = kinds.get(n.id)
            if k == "wait":
                if d["rep"] and not d["elog"]: x.bad("end-logged", n, "the end of the failure is not logged")
                d = dict(down=True, rep=False, slog=False, elog=False)
            elif k == "repair":
                if not d["slog"]: x.bad("start-logged", n, "the failure is not logged when it occurs")
                d["rep"] = True
            elif k is not None and (d["slog"] or d["rep"]): x.bad("at-once", n, "time passes between a step of the failure and its record")
            elif k is not None: pass
        return upd(d)
    def edge(x, n, s, lab, st): return None if lab == "exc" else st
    x = Explore(g, mkstate(down=False, rep=False, slog=False, elog=False), step, edge)
    report(ck, x, name, g, ("own-kind", "at-now", "start-once", "start-true", "expected-end", "end-once", "end-true", "end-logged", "start-logged", "at-once"))


def final_stores(g, base="self"):
    """attr -> set of (last stored) values on all paths; None in the set if a path does not store"""
    out = {}
    for n in g.stores():
        if g.r(n.base, n) == base and n.id in g.live(): out.setdefault(n.attr, []).append(n)
    res = {}
    for a, ns in out.items():
        vals = set()
        for n in ns:
            if g.path_avoiding(n, g.exit, [m for m in ns if m is not n]) is not None:
                t = g.resolve(n.value, n)
                vals |= {g.render(x) for x in (t[1] if t[0] == "phi" else (t,))}
        if g.path_avoiding(g.entry, g.exit, ns) is not None: vals.add(None)
        res[a] = vals
    return res


def record_keys(ck, fn, recname):
    """key -> attribute of the info object (rendered) appended to the log by a post monitor"""
    g = ck.graph(fn); ps = fn.params()
    data, info = ps[0], ps[1]
    adds = [(n, v) for n, v, t in additions(g) if t is not None and g.r(t, n) == data]
    cnt = event_counts(g, lambda n: any(n is a for a, _ in adds)).get(g.exit.id)
    ck.ob("one-record", fn.short, cnt == frozenset([1]), f"a log call adds {sorted(cnt or [])} records", fn.loc)
    keys = {}
    for n, v in adds:
        t = g.resolve(v, n)
        if t[0] == "dict":
            for k, x in t[1]:
                if k[0] == "const": keys[k[1]] = g.render(x)
        elif t[0] == "call" and g.nodes[t[1]].name == "dict":
            c = g.nodes[t[1]]
            for k, x in c.kw.items(): keys[k] = g.r(x, c)
        # later item[...] = ...
    for n in g.find("substore"):
        k = g.resolve(n.index, n)
        if k[0] == "const": keys[k[1]] = g.r(n.value, n)
    pre = info + "."
    return {k: (v[len(pre):] if v.startswith(pre) else v) for k, v in keys.items()}, g


STATE_ROWS = {"log_start_state": ("start_state", True), "log_start_interrupt_state": ("start_interrupt", False),
              "log_end_interrupt_state": ("end_interrupt", True), "log_end_state": ("end_state", False)}


def columns_read(ck):
    """column names of the raw log that the analysis reads from rows"""
    return {"Time", "Resource", "State", "State Type", "Activity", "Product"}


def records(ck):
    L = "prodsys.simulation.logger."
    keys, g = record_keys(ck, ck.p.func(L + "post_monitor_resource_states"), "state")
    need = ["Time", "Resource", "State", "State Type", "Activity", "Expected End Time", "Product", "Origin location", "Target location", "Empty Transport"]
    for k in need: ck.ob("record-field", f"resource state/{k}", k in keys, f"the record of a resource state has no '{k}'", g.fn.loc)
    SI = ck.p.cls(ST + "StateInfo")
    for mname, (act, exp) in STATE_ROWS.items():
        m = SI.find_method(mname)
        gm = ck.graph(m); fs = final_stores(gm); ps = m.params()[1:]
        def has(key, val):
            a = keys.get(key)
            if a is None: return
            ck.ob("record-value", f"StateInfo.{mname}/{key}", fs.get(a) == {val}, f"'{key}' is recorded as {sorted(map(str, fs.get(a, {'unchanged'})))} instead of {val}", m.loc)
        has("Time", ps[0]); has("Activity", f"StateEnum.{act}"); has("State Type", ps[-1])
        if exp: has("Expected End Time", ps[1])
        other = [k for k in ("Resource", "State", "Product", "Origin location", "Target location", "Empty Transport") if keys.get(k) in fs]
        ck.ob("record-value", f"StateInfo.{mname}/others", not other, f"{other} of the record are changed by a state change", m.loc)
    def setter(cls, mname, expect):
        m = cls.find_method(mname); gm = ck.graph(m); fs = final_stores(gm)
        for key, vals in expect.items():
            a = keys.get(key); got = fs.get(a)
            vals = vals(m.params()[1:])
            ck.ob("record-value", f"{cls.name}.{mname}/{key}", got is not None and got <= vals and len(got) > 0, f"'{key}' is recorded as {sorted(map(str, got or {'unchanged'}))}", m.loc)
    setter(SI, "log_product", {"Product": lambda p: {f"{p[0]}.product_data.ID", f"{p[0]}.data.ID"}})
    setter(SI, "log_auxiliary", {"Product": lambda p: {f"{p[0]}.data.ID", f"{p[0]}.product_data.ID"}})
    setter(SI, "log_transport", {"Target location": lambda p: {f"{p[1]}.data.ID"}, "Origin location": lambda p: {f"{p[0]}.data.ID", "'Loading station'"}, "Empty Transport": lambda p: {p[3]}})
    gm = ck.graph(SI.find_method("log_transport"))
    p0 = SI.find_method("log_transport").params()[1]
    for n in gm.stores(keys.get("Origin location")):
        gs = gm.guard_set(n); v = gm.r(n.value, n)
        if gm.resolve(n.value, n)[0] == "phi": continue
        if v.startswith("'"): ck.ob("record-value", "StateInfo.log_transport/no-origin", bool(gs & {f"!{p0}", f"(None is {p0})"}) , "a known origin is recorded as unknown", n.loc)
        else: ck.ob("record-value", "StateInfo.log_transport/origin", bool(gs & {p0, f"!(None is {p0})"}) or "phi" in v, "an unknown origin is read", n.loc)
    # identity of the state and its resource
    base = ck.p.cls(ST + "State")
    for m in {c.find_method("set_resource").qual: c.find_method("set_resource") for c in [base] + list(ck.p.subclasses(base))}.values():
        gm = ck.graph(m); r = m.params()[1]
        ok = False; det = "not set"
        for n in gm.stores("state_info"):
            t = gm.resolve(n.value, n)
            if t[0] == "call":
                c = gm.nodes[t[1]]; kw = {k: gm.r(v, c) for k, v in c.kw.items()}
                rk, sk = keys.get("Resource"), keys.get("State"); det = str(kw)
                ok = kw.get(rk) in (f"{r}.data.ID", "self.resource.data.ID") and kw.get(sk) == "self.state_data.ID" and c.name == "StateInfo"
        ck.ob("record-identity", m.short, ok, f"the records of a state carry {det}", m.loc)
        ck.ob("record-identity", f"{m.short}/own-info", any(gm.path_avoiding(gm.entry, gm.exit, [n]) is None for n in gm.stores("state_info")), "states share their record", m.loc)
    # products and auxiliaries
    for fnname, cq, rows in (("post_monitor_product_info", "prodsys.simulation.product.ProductInfo", {"log_create_product": ("created_product", "source"), "log_finish_product": ("finished_product", "sink")}),
                             ("post_monitor_auxiliary_info", "prodsys.simulation.auxiliary.AuxiliaryInfo", {"log_create_auxiliary": ("created_auxiliary", "store"), "log_start_auxiliary_usage": ("started_auxiliary_usage", "production"), "log_end_auxiliary_usage": ("finished_auxiliary_usage", "production")})):
        keys2, g2 = record_keys(ck, ck.p.func(L + fnname), fnname)
        ci = ck.p.cls(cq)
        for k in ("Time", "Resource", "State", "State Type", "Activity", "Product"):
            ck.ob("record-field", f"{fnname}/{k}", k in keys2, f"the record has no '{k}'", g2.fn.loc)
        for mname, (act, ty) in rows.items():
            m = ci.find_method(mname)
            if m is None: raise AnchorError(f"{cq}.{mname} not found")
            fs = final_stores(ck.graph(m)); ps = m.params()[1:]
            exp = {"Time": {ps[2]}, "Resource": {f"{ps[0]}.data.ID"}, "State": {f"{ps[0]}.data.ID"}, "Product": {f"{ps[1]}.product_data.ID", f"{ps[1]}.data.ID"}, "Activity": {f"StateEnum.{act}"}, "State Type": {f"StateTypeEnum.{ty}"}}
            for k, v in exp.items():
                got = fs.get(keys2.get(k))
                ck.ob("record-value", f"{ci.name}.{mname}/{k}", got is not None and got <= v and None not in got, f"'{k}' is recorded as {sorted(map(str, got or {'unchanged'}))} instead of {sorted(v)}", m.loc)
    en = ck.p.enum_values(ck.p.cls(ST + "StateEnum")); tn = ck.p.enum_values(ck.p.cls(ST + "StateTypeEnum"))
    for nm, e in (("StateEnum", en), ("StateTypeEnum", tn)):
        ck.ob("kinds-distinct", nm, len(set(map(repr, e.values()))) == len(e), "two kinds of record have the same value", ck.p.cls(ST + nm).loc)


def observation(ck):
    L = "prodsys.simulation.logger."
    want = {"observe_resource_states": (set(LOGS), "post_monitor_resource_states", ".state_info"),
            "observe_terminal_product_states": ({"log_create_product", "log_finish_product"}, "post_monitor_product_info", ".product_info"),
            "observe_terminal_auxiliary_states": ({"log_create_auxiliary", "log_start_auxiliary_usage", "log_end_auxiliary_usage"}, "post_monitor_auxiliary_info", ".auxiliary_info")}
    LG = ck.p.cls(L + "EventLogger")
    rp = LG.find_method("register_patch")
    for mname, (attrs, post, suffix) in want.items():
        m = LG.find_method(mname)
        if m is None: raise AnchorError(mname)
        g = ck.graph(m, selfcls=LG, stop=("register_patch",))
        regs = [n for n in g.calls("register_patch") if n.id in g.live()]
        ck.need(f"observation in {mname}", len(regs))
        got = {}
        for n in regs:
            a = argmap(n, rp); ps = rp.params()[1:]
            data, obj, names, po = (a.get(q) for q in (ps[0], ps[1], ps[2], ps[4]))
            ss = strs(g, g.resolve(names, n)) if names is not None else None
            ck.ob("observed-where", f"{m.short}", data is not None and g.r(data, n) == "self.event_data", "records are not kept in the event log", n.loc)
            ck.ob("observed-by", f"{m.short}", po is not None and g.r(po, n) == post, f"records are made by {g.r(po, n) if po else 'nothing'}", n.loc)
            o = g.r(obj, n) if obj is not None else ""
            ck.ob("observed-object", f"{m.short}", o.endswith(suffix), f"{o} is observed", n.loc)
            if ss is None:
                # one registration per name in a loop over a list of names
                t = g.resolve(names, n)
                if t[0] == "list" and len(t[1]) == 1 and t[1][0][0] == "elem": ss = strs(g, t[1][0][1])
            cov = set(ss or [])
            ck.ob("observed-once", f"{m.short}/{n.loc}", len(ss or []) == len(cov), "a change is recorded twice", n.loc)
            if mname == "observe_resource_states":
                h = next((h for h in reversed(sorted(g.loops_of(n), key=lambda h: sum(g.dominates(x, h) for x in g.loops_of(n)))) if "states" in g.r(h.iter, h)), None)
                parts = list_parts(g, h.iter, h) if h is not None else set()
                out = [q for q in g.loops_of(n) if q is not h and "resources" in g.r(q.iter, q)] if h is not None else []
                extra = loop_guards(g, n, out[0]) if out else {"no loop over all resources"}
                ck.ob("observed-all", f"{m.short}/unconditional", not extra and visits_all(g, h) is None and visits_all(g, out[0]) is None if out else False, f"states are only observed if {sorted(extra)}", n.loc)
                for q in parts: got.setdefault(q.split(".")[-1], []).extend(ss or [])
            else:
                ck.ob("observed-all", f"{m.short}/unconditional", not g.guard_set(n), "products are only observed on a condition", n.loc)
                got.setdefault("x", []).extend(ss or [])
        lists = {"states", "production_states", "setup_states", "charging_states"} if mname == "observe_resource_states" else {"x"}
        for l in lists:
            for a in sorted(attrs):
                k = got.get(l, []).count(a)
                ck.ob("observed-all", f"{m.short}/{l}.{a}" if l != "x" else f"{m.short}/{a}", k == 1, f"{a} of {l} is observed {k} times" if l != "x" else f"{a} is observed {k} times", m.loc)
    # register_patch hands data and functions on
    g = ck.graph(rp, stop=("patch_state",))
    ps = rp.params()[1:]
    calls = g.calls("patch_state"); ck.need("patch_state call", len(calls))
    pf = LG.find_method("patch_state"); qs = pf.params()[1:]
    for n in calls:
        a = {k: g.r(v, n) for k, v in argmap(n, pf).items()}
        ck.ob("patch-passed", "Logger.register_patch/object", a.get(qs[0]) == ps[1] and a.get(qs[1]) == ps[2], f"patches {a.get(qs[0])}.{a.get(qs[1])}", n.loc)
        po = a.get(qs[3], "")
        ck.ob("patch-passed", "Logger.register_patch/record", f"partial({ps[4]}, {ps[0]})" in po, f"the record is made by {po}", n.loc)
    cnt = event_counts(g, lambda n: n in calls).get(g.exit.id)
    ck.ob("patch-passed", "Logger.register_patch/once", cnt == frozenset([1]), "a patch is not registered exactly once", rp.loc)
    # the wrapper
    hosts = [c.fn for c in ck.graph(pf, selfcls=LG).ctxs if c.kind == "func" and c.fn is not None and c.fn.cls is not None and nested_funcs(c.fn)]
    ck.need("wrapper in Logger.patch_state", len(hosts))
    pf = hosts[0]; qs = pf.params()[1:]
    nf = [f for f in nested_funcs(pf) if any(isinstance(x, ast.Starred) for x in ast.walk(f.node)) and not any(isinstance(x, ast.FunctionDef) and x is not f.node for x in ast.walk(f.node))]
    ck.need("wrapper in Logger.patch_state", len(nf))
    outer = nested_funcs(pf)
    fparams = {q for f in outer if f.node is not nf[0].node for q in f.params()} | {a for a in ("getattr",)}
    for f in nf:
        g = ck.graph(f)
        fc = [n for n in g.nodes if n.kind == "call" and n.id in g.live() and any(a[0] == "star" for a in n.args)]
        pc = [n for n in g.calls(qs[3]) if n.id in g.live()]
        c1 = event_counts(g, lambda n: n in fc).get(g.exit.id)
        ck.ob("wrapper-calls", "Logger.patch_state/original", c1 == frozenset([1]), "the observed function is not called exactly once", f.loc)
        ck.ob("wrapper-calls", "Logger.patch_state/arguments", all(None in n.kw or any(k is None for k in n.kw) or "**" in ast.unparse(n.ast) for n in fc), "the observed function does not get all its arguments", f.loc)
        c2 = event_counts(g, lambda n: n in pc).get(g.exit.id)
        tests = [e for e in g.nodes if e.kind == "edge" and g.nodes[e.of].kind == "branch" and ((g.r(g.nodes[e.of].term, e).endswith(qs[3]) and e.label is False) or ("None is" in g.r(g.nodes[e.of].term, e) and qs[3] in g.r(g.nodes[e.of].term, e) and e.label is True))]
        miss = g.path_avoiding(g.entry, g.exit, pc + tests)
        ck.ob("wrapper-records", "Logger.patch_state/record", bool(pc) and miss is None and 2 not in (c2 or ()), "a call of an observed function is not recorded exactly once", f.loc)
        ck.ob("wrapper-records", "Logger.patch_state/after", all(any(g.dominates(a, b) for a in fc) for b in pc), "the record is made before the values are set", f.loc)
        ck.ob("wrapper-records", "Logger.patch_state/of-object", all(len(n.args) == 1 and g.r(n.args[0], n).endswith(qs[0]) for n in pc), "the record is made of another object", f.loc)
    g = ck.graph(pf)
    sets = [n for n in g.calls("setattr") if n.id in g.live()]
    ck.ob("patched-each", "Logger.patch_state", bool(sets) and all(g.loops_of(n) and g.r(g.loops_of(n)[-1].iter, n) == qs[1] and visits_all(g, g.loops_of(n)[-1]) is None and not {l for l in loop_guards(g, n, g.loops_of(n)[-1]) if "hasattr(" not in l} for n in sets), "not every listed function is patched", pf.loc)
    for n in sets:
        ok = len(n.args) == 3 and g.r(n.args[0], n) == qs[0] and g.r(n.args[1], n) == f"elem({qs[1]})"
        ck.ob("patched-each", "Logger.patch_state/own-name", ok, f"patches {g.r(n.args[0], n)}.{g.r(n.args[1], n)}", n.loc)
        gets = [c for c in g.calls("getattr") if c.id in g.live()]
        ck.ob("patched-each", "Logger.patch_state/own-function", bool(gets) and all(g.r(c.args[0], c) == qs[0] and g.r(c.args[1], c) == f"elem({qs[1]})" for c in gets), "a function is replaced by the wrapper of another", n.loc)
    # the log is per run: a fresh list
    m = LG.find_method("get_data_as_dataframe")
    g = ck.graph(m)
    for n in returns(g):
        t = g.resolve(n.value, n)
        ck.ob("log-returned", "EventLogger.get_data_as_dataframe", flows_from(g, n.value, n, lambda q: g.render(q) == "self.event_data"), "the event log is not what is returned", n.loc)
    for n in g.nodes:
        if n.kind == "call" and n.name in ("clear", "pop", "remove", "sort", "reverse", "append", "drop", "dropna", "drop_duplicates", "head", "tail") and n.id in g.live():
            ck.ob("log-returned", "EventLogger.get_data_as_dataframe/unchanged", False, f"{n.name} alters the log that is handed out", n.loc)


def wiring(ck):
    R = ck.graph("prodsys.util.runner.Runner.initialize_simulation", inline=lambda fn: fn.name in ("__init__",) or fn.mod.name.endswith("util.runner"), stop=("observe_resource_states", "create_auxiliary", "create_sources", "create_resources", "start_sources", "start_resources", "validate_configuration"))
    g = R
    obs = g.calls("observe_resource_states"); cr = g.calls("create_resources"); start = g.calls("start_resources")
    ck.need("observe_resource_states in Runner", len(obs)); ck.need("create_resources in Runner", len(cr))
    cnt = event_counts(g, lambda n: n in obs).get(g.exit.id)
    ck.ob("wired", "Runner.initialize_simulation/resources", cnt == frozenset([1]) and all(any(g.dominates(c, o) for c in cr) for o in obs) and all(any(g.dominates(o, s) for o in obs) for s in start),
          "the states of all resources are not observed exactly once, after the resources exist and before they start", obs[0].loc)
    for o in obs: ck.ob("wired", "Runner.initialize_simulation/factory", g.r(o.args[0], o).endswith("resource_factory") or "ResourceFactory(" in g.r(o.args[0], o), "other resources are observed", o.loc)
    # loggers of the factories, set before anything is created
    for attr, first in (("product_factory", "start_sources"), ("auxiliary_factory", "create_auxiliary")):
        sts = [n for n in g.stores("event_logger") if g.r(n.base, n).endswith("." + attr)]
        facs = [n for n in g.stores(attr) if g.r(n.base, n) == "self"]
        uses = [n for n in g.calls(first)]
        ck.need(f"{first} in Runner", len(uses))
        ok = bool(sts) and all(any(g.dominates(s, u) for s in sts) for u in uses) and all(g.path_avoiding(s, f, []) is None for s in sts for f in facs)
        ck.ob("wired", f"Runner.initialize_simulation/{attr}", ok, f"the {attr.replace('_', ' ')} does not get the logger before {first}", sts[0].loc if sts else g.fn.loc)
        for s in sts: ck.ob("wired", f"Runner.initialize_simulation/{attr}-logger", "event_logger" in g.r(s.value, s) or "EventLogger(" in g.r(s.value, s), "another object is used as logger", s.loc)
    lg = [n for n in g.stores("event_logger") if g.r(n.base, n) == "self"]
    ck.ob("wired", "Runner.initialize_simulation/one-logger", len(lg) == 1 and all(g.dominates(lg[0], o) for o in obs), "the run has not exactly one event log", lg[0].loc if lg else g.fn.loc)
    # every product factory in use must be the one with the logger
    for fq, cname, obsname, info in (("prodsys.factories.product_factory.ProductFactory.create_product", "Product", "observe_terminal_product_states", "product"),
                               ("prodsys.factories.auxiliary_factory.AuxiliaryFactory.add_auxiliary", "Auxiliary", "observe_terminal_auxiliary_states", "auxiliary")):
        g = ck.graph(fq, stop=(obsname, "create_process_model", "get_router", "get_process", "get_queue", "init_got_free"))
        os_ = [n for n in g.calls(obsname) if n.id in g.live()]
        ck.need(obsname, len(os_))
        for r in returns(g):
            noedge = [e for e in g.nodes if e.kind == "edge" and e.label is False and g.nodes[e.of].kind == "branch" and g.r(g.nodes[e.of].term, e) == "self.event_logger"]
            p = g.path_avoiding(g.entry, r, os_ + noedge)
            ck.ob("observed-created", fq.split(".")[-1], p is None, f"a new {info} is not observed", r.loc)
            for o in os_: ck.ob("observed-created", f"{fq.split('.')[-1]}/object", g.resolve(o.args[0], o) == g.resolve(r.value, r), "another object is observed", o.loc)
        cnt = event_counts(g, lambda n: n in os_).get(g.exit.id)
        ck.ob("observed-created", f"{fq.split('.')[-1]}/once", 2 not in (cnt or ()), f"a new {info} is observed twice", g.fn.loc)


def log_sites(ck):
    """who logs products and auxiliaries, when"""
    def args_ok(g, n, me, where):
        fn = None
        for cq in ("prodsys.simulation.product.ProductInfo", "prodsys.simulation.auxiliary.AuxiliaryInfo"):
            fn = fn or ck.p.cls(cq).find_method(n.name)
        a = argmap(n, fn); ps = fn.params()[1:]
        r = {q: (g.r(a[q], n) if q in a else None) for q in ps}
        ck.ob("log-site", f"{where}/{n.name}-args", r[ps[2]] == "self.env.now" and r[ps[1]] == me and (r[ps[0]] or "").endswith("current_locatable"), f"{n.name} is called with {r}", n.loc)
    P = "prodsys.simulation.product.Product.process_product"
    g = ck.graph(P, inline=lambda fn: fn.name not in ("log_create_product", "log_finish_product", "request_process", "register_finished_product") and fn.mod.name.endswith("simulation.product"))
    c = [n for n in g.calls("log_create_product")]; f = [n for n in g.calls("log_finish_product")]
    ck.need("log_create_product", len(c)); ck.need("log_finish_product", len(f))
    cc = event_counts(g, lambda n: n in c).get(g.exit.id); fc = event_counts(g, lambda n: n in f).get(g.exit.id)
    ck.ob("log-site", "Product.process_product/created-once", cc == frozenset([1]), f"the creation of a product is logged {sorted(cc or [])} times", c[0].loc)
    ck.ob("log-site", "Product.process_product/finished-once", fc == frozenset([1]), f"the completion of a product is logged {sorted(fc or [])} times", f[0].loc)
    ys = [n for n in g.nodes if n.kind == "yield" and n.id in g.live()]
    ck.ob("log-site", "Product.process_product/created-first", all(g.path_avoiding(g.entry, n, ys) is not None and not any(g.path_avoiding(y, n, []) for y in ys) for n in c), "time passes before the creation of a product is logged", c[0].loc)
    # finished: after the last own transport, at the moment of arrival
    sinkreq = [y for y in ys if "route_product_to_sink" in g.r(y.value, y) and "request_process" in g.r(y.value, y)]
    if not sinkreq:
        sinkreq = [n for n in g.nodes if n.kind in ("yield", "spawn", "call") and n.get("name") == "request_process" and n.id in g.live()]
        sinkreq = [n for n in sinkreq if n.args and "route_product_to_sink" in g.r(n.args[0], n)]
    ck.need("transport to the sink", len(sinkreq))
    for n in f:
        ok = any(g.dominates(s, n) for s in sinkreq)
        ck.ob("log-site", "Product.process_product/finished-at-sink", ok, "the completion of a product is logged before it has reached a sink", n.loc)
        args_ok(g, n, "self", "Product.process_product")
        # no wait in between
        late = [y for y in ys if g.path_avoiding(sinkreq[0], y, [n]) is not None and g.path_avoiding(y, n, []) is not None and not g.reaches(n, y) and y is not sinkreq[0] and not g.reaches(y, sinkreq[0])]
        ck.ob("log-site", "Product.process_product/finished-at-once", not late, "time passes between the arrival at the sink and the record of the completion", n.loc)
    for n in c: args_ok(g, n, "self", "Product.process_product")
    A = "prodsys.simulation.auxiliary.Auxiliary."
    for m, ln in (("reserve", "log_start_auxiliary_usage"), ("release_auxiliary_from_product", "log_end_auxiliary_usage")):
        g = ck.graph(A + m, stop=(ln,))
        ns = g.calls(ln); cnt = event_counts(g, lambda n: n in ns).get(g.exit.id)
        ck.ob("log-site", f"Auxiliary.{m}", cnt == frozenset([1]), f"the use of an auxiliary is logged {sorted(cnt or [])} times", g.fn.loc)
        for n in ns: args_ok(g, n, "self", f"Auxiliary.{m}")
    g = ck.graph("prodsys.factories.auxiliary_factory.AuxiliaryFactory.create_auxiliary", stop=("add_auxiliary", "log_create_auxiliary"))
    adds = g.calls("add_auxiliary"); logs = g.calls("log_create_auxiliary")
    ck.need("add_auxiliary", len(adds)); ck.need("log_create_auxiliary", len(logs))
    ck.ob("log-site", "AuxiliaryFactory.create_auxiliary", all(g.path_avoiding(a, [g.exit] + [b for b in adds], logs) is None for a in adds) and len(logs) == len(adds), "the creation of an auxiliary is not logged exactly once", logs[0].loc)
    for n in logs:
        h = g.resolve(n.recv, n)
        ck.ob("log-site", "AuxiliaryFactory.create_auxiliary/own", any(g.render(h) == g.render(("attr", ("call", a.id), "auxiliary_info")) for a in adds), "the creation is logged for another auxiliary", n.loc)
    # controllers: product and transport details belong to the state before it runs
    C = "prodsys.simulation.control."
    base = ck.p.cls(C + "Controller"); seen = set()
    for ci in ck.p.subclasses(base):
        m = ci.find_method("run_process")
        if m is None or m.qual in seen or m.is_abstract: continue
        seen.add(m.qual)
        g = ck.graph(m, selfcls=ci, stop=("process_state", "log_product", "log_auxiliary", "log_transport", "log_start_process", "handle_rework_required", "get_target_location", "update_location", "prepare_for_run"))
        sp = [n for n in g.nodes if n.kind in ("spawn", "call") and n.name == "process_state" and n.id in g.live()]
        ck.need(f"process_state in {m.short}", len(sp))
        for s in sp:
            st = g.r(s.recv, s)
            lp = [n for n in g.calls("log_product", "log_auxiliary") if g.r(n.recv, n) == f"{st}.state_info"]
            ck.ob("log-product", f"{m.short}", bool(lp) and g.always_before(s, lp), "work is started without its product having been recorded", s.loc)
            for n in lp:
                ty = n.args[1] if len(n.args) > 1 else n.kw.get("state_type")
                want = "transport" if ci.name.startswith("Transport") else "production"
                ck.ob("log-product", f"{m.short}/kind-{n.name}", ty is not None and g.r(ty, n) == f"StateTypeEnum.{want}", "recorded as another kind of work", n.loc)
            if ci.name.startswith("Transport"):
                lt = [n for n in g.calls("log_transport") if g.r(n.recv, n) == f"{st}.state_info"]
                ck.ob("log-transport", m.short, bool(lt) and g.always_before(s, lt), "a transport is started without origin and target having been recorded", s.loc)
                tp = ck.p.cls(ST + "StateInfo").find_method("log_transport"); qs = tp.params()[1:]
                for n in lt:
                    a = argmap(n, tp); r = {q: (g.r(a[q], n) if q in a else None) for q in qs}
                    ok = r[qs[1]] == "target" and r[qs[3]] == "empty_transport" and "self._current_locatable" in (r[qs[0]] or "") and r[qs[2]] == "StateTypeEnum.transport"
                    ck.ob("log-transport", f"{m.short}/args", ok, f"a transport is recorded as {r}", n.loc)


def check(ck):
    for ci in interruptible(ck): work(ck, ci)
    failure(ck, "BreakDownState"); failure(ck, "ProcessBreakDownState")
    records(ck); observation(ck); wiring(ck); log_sites(ck)
