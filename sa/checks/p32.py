"""P32 Battery-driven resources work only while charged."""
TECHNIQUE = "path-wise evaluation of the battery bookkeeping (what is counted, when the battery is judged exhausted, when it is full again) and typestate exploration of the dispatch loops over battery, running work and elapsed time"
NOTE = "How long the battery lasts while a piece of work is carried out is not decided: the whole duration of a piece of work is counted when it begins, so a battery can be exhausted by its last piece of work."
import re
from ..lib import *
from ..index import FuncInfo
from .. import peval
from .p23 import per_pass
from .steps import CT, STOP, controllers, work_step, call_ids, awaited

S = "prodsys.simulation."
RC = "self.resource.requires_charging"


def check(ck):
    p = ck.p
    C = p.cls(S + "state.ChargingState"); R = p.cls(S + "resources.Resource")
    field = spread(ck, R, C)
    counted(ck)
    exhausted(ck, R, C, field)
    charge(ck, R)
    full_again(ck, C, field)
    for c in controllers(ck): loop(ck, c)
    built(ck)


# ---- bookkeeping ----------------------------------------------------------------------------
def spread(ck, R, C):
    """the work done is counted once against every battery of the resource"""
    f = R.find_method("consider_battery_usage")
    if f is None: ck.ob("counted", "consider_battery_usage", False, "work is never counted against the battery", R.loc); return None
    g = ck.graph(f, selfcls=R); amount = f.params()[1]; field = None
    ss = [n for n in g.stores() if n.id in g.live() and g.r(n.base, n) == "elem(self.charging_states)"]
    ck.ob("counted", "every battery", bool(ss), "work is not counted against the batteries of the resource", f.loc)
    for n in ss:
        me = f"elem(self.charging_states).{n.attr}"; field = n.attr
        ck.ob("counted", "every battery/amount", lin(g, n.value, n) == {me: 1, amount: 1}, f"the use of a battery becomes {g.r(n.value, n)}", n.loc)
        h = innermost(g, n)
        ok = h is not None and g.r(h.iter, h) == "self.charging_states" and visits_all(g, h) is None and per_pass(g, h, {m.id for m in ss}) == {1} and not g.path_avoiding(g.entry, g.exit, [done_edge(g, h)])
        ck.ob("counted", "every battery/once", ok, "not every battery of the resource is charged with the work once", n.loc)
    if field is not None: ck.ob("counted", "full at first", C.find_field(field) is not None and const_default(C, field) == 0, "a battery is not full at the beginning", C.loc)
    return field


def const_default(c, name):
    import ast as A
    for k in c.mro():
        for s in k.node.body:
            if isinstance(s, A.AnnAssign) and isinstance(s.target, A.Name) and s.target.id == name:
                v = s.value
                if isinstance(v, A.Call):
                    v = next((x.value for x in v.keywords if x.arg == "default"), v.args[0] if v.args else None)
                return v.value if isinstance(v, A.Constant) else "?"
    return "?"


def counted(ck):
    """each piece of work counts with its whole duration, once, before it can be interrupted"""
    p = ck.p
    for name in ("ProductionState", "TransportState"):
        c = p.cls(S + "state." + name); f = c.find_method("process_state")
        g = ck.graph(f, selfcls=c, stop=("consider_battery_usage",))
        live = g.live()
        uses = [n for n in g.calls("consider_battery_usage") if n.id in live]
        ck.ob("counted", f"{name}/work", bool(uses), "work is not counted against the battery", f.loc)
        if not uses: continue
        n_exit = event_counts(g, lambda n: n in uses).get(g.exit.id, frozenset())
        ck.ob("counted", f"{name}/once", n_exit == {1}, f"a piece of work is counted {sorted(n_exit)} times against the battery", uses[0].loc)
        ys = [y for y in g.nodes if y.kind == "yield" and y.id in live]
        ck.ob("counted", f"{name}/before", not any(g.path_avoiding(y, u, []) for y in ys for u in uses), "work is counted only after time has passed (interrupted work may be counted with its rest or not at all)", uses[0].loc)
        bad = 0; seen = 0; at = {}
        def on(st, n):
            if n.id in {u.id for u in uses}:
                a = list(n.args) + list(n.kw.values())
                at[id(st)] = st.close(a[0]) if a else None
                st.env[("$", "counted")] = at[id(st)]
        for st in peval.paths(g, lambda n: n.kind == "yield", g.entry, limit=3000, on=on):
            if st.end.kind != "yield" or ("$", "counted") not in st.env: continue
            seen += 1
            if st.env[("$", "counted")] is None or st.env[("$", "counted")] != st.close(("attr", ("param", "self"), "done_in")): bad += 1
        ck.ob("counted", f"{name}/amount", seen > 0 and not bad, "not the whole duration of a piece of work is counted against the battery", uses[0].loc)
    others = [c for c in p.subclasses(p.cls(S + "state.State")) if c.name not in ("ProductionState", "TransportState") and "process_state" in c.methods]
    for c in others:
        g = ck.graph(c.methods["process_state"], selfcls=c, stop=("consider_battery_usage",))
        ck.ob("counted", f"{c.name}/not work", not [n for n in g.calls("consider_battery_usage") if n.id in g.live()], "time that is no work is counted against the battery", c.loc)


# ---- when is the battery exhausted ----------------------------------------------------------
def exhausted(ck, R, C, field):
    f = C.find_method("requires_charging")
    g = ck.graph(f, selfcls=C)
    lvl = None
    for m in C.mro():
        v = m.mod.consts.get("MINIMUM_BATTERY_LEVEL") if hasattr(m.mod, "consts") else None
        if v is not None: lvl = getattr(v, "value", v); break
    LVL[:] = [lvl] if isinstance(lvl, (int, float)) else []
    want = 1 - lvl if isinstance(lvl, (int, float)) else None
    ck.ob("exhausted", "minimum level", want is not None and 0 < want <= 1, "the minimum level of the battery is not understood", C.loc)
    n = 0; keep = set()
    rs = returns(g)
    for st in peval.paths(g, None, g.entry):
        if st.end.kind not in ("exit",): continue
        r = [m for m in rs if m in st.nodes]
        if not r: ck.ob("exhausted", "requires_charging/answer", False, "the state of the battery is not judged", f.loc); continue
        t = st.close(r[-1].value); n += 1
        lits = [(st.close(x), pol) for x, pol in st.order]
        cmps = []
        if t[0] == "const" and isinstance(t[1], bool): cmps = [(x, pol == t[1]) for x, pol in lits if is_cmp(x) and field in str(x)]
        else:
            pol = True
            while t[0] == "not": t = t[1]; pol = not pol
            if is_cmp(t): cmps = [(t, pol)]
        ok = any(level(x, pol, field, want, keep) for x, pol in cmps)
        ck.ob("exhausted", "requires_charging/level", ok, "the battery is not judged by its use since the last charging against the usable share of its battery time", r[-1].loc)
    ck.ob("exhausted", "requires_charging", n > 0, "it is never judged whether the battery is exhausted", f.loc)
    # one battery time per charge
    ck.ob("one-battery-time", "requires_charging/kept", len(keep) == 1, "the battery time is drawn anew whenever it is asked for", f.loc)
    for m in C.methods.values():
        q = ck.graph(m, selfcls=C)
        for c in q.calls("get_next_time"):
            if c.id not in q.live() or c.recv is None or q.r(c.recv, c) != "self.battery_time_model": continue
            st = [s for s in q.stores() if s.id in q.live() and c.id in call_ids(q, s.value, s) and s.attr in keep]
            ok = bool(st) and any(x in q.guard_set(c) for k in keep for x in (f"(None is self.{k})", f"(self.{k} is None)", f"(None == self.{k})")) and not q.path_avoiding(c, q.exit, st)
            ck.ob("one-battery-time", "draw", ok, "a battery time is drawn although one is known, or it is not remembered", c.loc)
    C.kept = keep
    # any battery of the resource
    f = R.find_method("requires_charging")
    g = ck.graph(f, selfcls=R, mode="cond", stop=("ChargingState.requires_charging",), inline=lambda x: False)
    yes = []
    for e in g.nodes:
        if e.kind == "edge" and g.nodes[e.of].kind == "branch" and e.id in g.live():
            t = g.nodes[e.of].term; pol = e.label
            while t[0] == "not": t = t[1]; pol = not pol
            if g.r(t, g.nodes[e.of]) == "elem(self.charging_states).requires_charging()" and pol: yes.append(e)
    ck.ob("exhausted", "any battery", bool(yes) and not g.path_avoiding(g.entry, g.texit, yes) and not any(g.path_avoiding(e, g.fexit, []) for e in yes), "the resource does not need charging exactly if one of its batteries is exhausted", f.loc)
    for h in g.nodes:
        if h.kind == "loophead" and h.id in g.live(): ck.ob("exhausted", "any battery/all", g.r(h.iter, h) == "self.charging_states" and not (g.path_avoiding(iter_edge(g, h), g.fexit, [done_edge(g, h)])), "not all batteries of the resource are looked at", h.loc)


def is_cmp(x):
    return x[0] == "cmp" and x[1] in ("<", "<=", ">", ">=")


def level(x, pol, field, want, keep):
    op, l, r = x[1], x[2], x[3]
    if op in ("<", "<="): op, l, r = {"<": ">", "<=": ">="}[op], r, l
    a = aff(l); b = aff(r)
    if a is None or b is None or want is None: return False
    d = dict(a)
    for k, v in b.items(): d[k] = d.get(k, 0) - v
    d = {k: v for k, v in d.items() if abs(v) > 1e-12}
    u = ("attr", ("param", "self"), field)
    if not pol: d = {k: -v for k, v in d.items()}; op = {">": ">=", ">=": ">"}[op]
    if u not in d or len(d) != 2 or op != ">=": return False
    o = next(k for k in d if k != u)
    if d[u] <= 0 or abs(-d[o] / d[u] - want) > 1e-9: return False
    if o[0] == "attr" and o[1] == ("param", "self"): keep.add(o[2]); return True
    return o[0] == "pcall" and o[1] == ("attr", ("attr", ("param", "self"), "battery_time_model"), "get_next_time")


def aff(t):
    if t[0] == "const" and isinstance(t[1], (int, float)): return {1: t[1]}
    if t[0] == "glob" and t[2] == "MINIMUM_BATTERY_LEVEL": return {1: LVL[0]} if LVL else None
    if t[0] == "bin" and t[1] in "+-":
        a, b = aff(t[2]), aff(t[3])
        if a is None or b is None: return None
        d = dict(a)
        for k, v in b.items(): d[k] = d.get(k, 0) + (v if t[1] == "+" else -v)
        return d
    if t[0] == "bin" and t[1] in "*/":
        a, b = aff(t[2]), aff(t[3])
        if a is None or b is None: return None
        if t[1] == "*" and set(a) <= {1}: return {k: v * a.get(1, 0) for k, v in b.items()}
        if set(b) <= {1} and b.get(1): return {k: (v * b[1] if t[1] == "*" else v / b[1]) for k, v in a.items()}
        return None
    if t[0] in ("attr", "pcall"): return {t: 1}
    return None


LVL = []


# ---- charging -------------------------------------------------------------------------------
def charge(ck, R):
    f = R.find_method("charge")
    g = ck.graph(f, selfcls=R, stop=STOP + ("requires_charging",))
    runs = [n for n in g.nodes if n.kind in ("spawn", "call") and n.id in g.live() and n.name == "process_state"]
    ck.ob("charges", "charge", bool(runs), "no battery is charged", f.loc)
    for n in runs:
        sel = "listcomp(elem(self.charging_states) for self.charging_states if elem(self.charging_states).requires_charging())"
        who = g.r(n.recv, n) if n.recv is not None else ""
        picked = who == f"elem({sel})"
        ck.ob("charges", "charge/battery", picked or who == "elem(self.charging_states)", "something else than a battery of the resource is charged", n.loc)
        h = innermost(g, n)
        need = [e for e in g.nodes if e.kind == "edge" and g.nodes[e.of].kind == "branch" and h is not None and asks(g, e) is False]
        ok = h is not None and g.r(h.iter, h) in ("self.charging_states", sel) and visits_all(g, h) is None and not g.path_avoiding(g.entry, g.exit, [done_edge(g, h)])
        ok = ok and not g.path_avoiding(iter_edge(g, h), h, runs + need)
        ck.ob("charges", "charge/every exhausted", ok, "an exhausted battery is left uncharged", n.loc)
        ck.ob("charges", "charge/only exhausted", picked or any(x == "elem(self.charging_states).requires_charging()" for x in g.guard_set(n)), "a battery is charged that is not exhausted", n.loc)
        ys = [y for y in g.nodes if y.kind == "yield" and y.id in g.live() and awaited(g, y, {n.id} | {c.id for c in g.calls("process") if any(n.id in call_ids(g, a, c) for a in c.args)})]
        ck.ob("charges", "charge/awaited", bool(ys) and not g.path_avoiding(n, g.exit, ys), "the end of charging is not awaited", n.loc)
        prep = [m for m in g.calls("prepare_for_run") if m.id in g.live() and m.recv is not None and g.r(m.recv, m) == who]
        ck.ob("charges", "charge/prepared", bool(prep) and h is not None and not g.path_avoiding(iter_edge(g, h), n, prep), "charging is started without having been prepared", n.loc)


def asks(g, e):
    b = g.nodes[e.of]; t = b.term; pol = e.label
    while t[0] == "not": t = t[1]; pol = not pol
    return pol if g.r(t, b) == "elem(self.charging_states).requires_charging()" else None


def full_again(ck, C, field):
    """charging takes the configured time and leaves the battery full, at its end and only there"""
    p = ck.p; f = C.find_method("process_state")
    g = ck.graph(f, selfcls=C); live = g.live()
    ys = [y for y in g.nodes if y.kind == "yield" and y.id in live]
    keep = getattr(C, "kept", set())
    for fld, val, what in [(field, "0", "full")] + [(k, "None", "given a new battery time") for k in keep]:
        if fld is None: continue
        ss = [n for n in g.stores(fld) if n.id in live and g.r(n.base, n) == "self"]
        ok = bool(ss) and all(g.r(n.value, n) in (val, "0.0" if val == "0" else val) for n in ss)
        ck.ob("full-again", f"charged/{what}", ok and not g.path_avoiding(g.entry, g.exit, ss), f"a charged battery is not {what}", f.loc)
        ck.ob("full-again", f"charged/{what}/at the end", not any(g.path_avoiding(n, y, []) for n in ss for y in ys), f"a battery is {what} before it has been charged", f.loc)
        for c in p.all_classes():
            if not c.mod.name.startswith("prodsys.simulation"): continue
            for m in c.methods.values():
                import ast as A
                if m.qual == f.qual or not any(isinstance(x, A.Attribute) and x.attr == fld and isinstance(x.ctx, A.Store) for x in A.walk(m.node)): continue
                q = ck.graph(m, selfcls=c, inline=lambda x: False)
                for n in q.stores(fld):
                    if n.id not in q.live(): continue
                    if fld == field: ok = lin(q, n.value, n).get(f"{q.r(n.base, n)}.{fld}") == 1
                    else: ok = any(v[0] == "call" and q.nodes[v[1]].name == "get_next_time" for d, v in leaves(q, n.value, n))
                    ck.ob("full-again", f"{fld}/owner", ok or helper_of(ck, C, f, m), f"{m.short} changes the state of the battery", n.loc)
    draws = [n for n in g.calls("get_next_time") if n.id in live and n.recv is not None and g.r(n.recv, n) == "self.time_model"]
    ck.ob("full-again", "charging time", bool(draws) and event_counts(g, lambda n: n in draws).get(g.exit.id) == {1}, "charging does not take one charging time", f.loc)
    tm = [n for n in g.calls("timeout") if n.id in live]
    ck.ob("full-again", "charging time/spent", bool(tm) and not g.path_avoiding(g.entry, g.exit, [y for y in ys if any(t.id in call_ids(g, y.value, y) for t in tm)]), "charging does not take any time", f.loc)


def helper_of(ck, C, f, m):
    """is a method only part of charging (called from process_state alone)?"""
    import ast as A
    if m.cls is None or m.cls.name != C.name: return False
    callers = [k for k in C.methods.values() if k.qual != m.qual and any(isinstance(x, A.Attribute) and x.attr == m.name for x in A.walk(k.node))]
    if not callers or any(k.qual != f.qual for k in callers): return False
    return not any(isinstance(x, A.Attribute) and x.attr == m.name for c in ck.p.all_classes() if c.name != C.name for k in c.methods.values() for x in A.walk(k.node))


# ---- dispatch -------------------------------------------------------------------------------
def loop(ck, ci):
    step = work_step(ck, ci)
    g = ck.graph(ci.find_method("control_loop"), selfcls=ci, stop=STOP + (step.name, "full", "requires_charging", "update_location", "set_location"))
    name = f"{ci.name}.control_loop"; live = g.live()
    starts = {n.id for n in g.nodes if n.id in live and n.kind == "spawn" and n.name == step.name} or {n.id for n in g.nodes if n.id in live and n.kind == "call" and n.name == step.name}
    ch = [n for n in g.nodes if n.id in live and n.kind in ("spawn", "call") and n.name == "charge"]
    ck.ob("charged-before-work", f"{ci.name}/charges", bool(ch), "the resource never charges", g.fn.loc)
    if not ch: return
    ids = {n.id for n in ch}
    done = {y.id for y in g.nodes if y.kind == "yield" and y.id in live and awaited(g, y, ids)}
    RUN = "self.running_processes"

    def idle(e):
        """running work known from an edge: True none, False some"""
        b = g.nodes[e.of]
        if b.kind == "loophead":
            return None
        t = b.term; pol = e.label
        while t[0] == "not": t = t[1]; pol = not pol
        s = g.r(t, b)
        if s in (RUN, f"bool({RUN})"): return not pol
        if s in (f"len({RUN})",) or re.fullmatch(r"(len\()?(list|set|gen)?comp\(elem\(X\) for X if elem\(X\)\.is_alive\)\)?", s.replace(RUN, "X")): return not pol
        q = edge_ineq(g, b, e.label)
        if s.endswith(".is_alive") and RUN in s and pol: return False
        if t[0] == "cmp" and f"len({RUN})" in s:
            d = dict(q[1]) if q and len(q) > 1 else {}
            k = d.get(f"len({RUN})"); c = d.get(1, 0)
            if q and q[0] == "<=" and set(d) <= {f"len({RUN})", 1}:
                if k == 1 and c == 0: return True
                if k == -1 and c == 1: return False
            if q and q[0] == "==" and set(d) == {f"len({RUN})"}: return True
            if q and q[0] == "!=" and set(d) == {f"len({RUN})"}: return False
        return None

    # loops that end normally only if no running work is alive
    checks = set()
    for h in g.nodes:
        if h.kind != "loophead" or h.id not in live or h.iter is None or RUN not in g.r(h.iter, h): continue
        alive = [e for e in g.nodes if e.kind == "edge" and g.nodes[e.of].kind == "branch" and e.id in live and g.dominates(iter_edge(g, h), e) and g.r(bare(g.nodes[e.of].term), g.nodes[e.of]).endswith(".is_alive") and pol_of(g, e)]
        if alive and not any(g.path_avoiding(e, h, []) and not_outer(g, e, h) for e in alive): checks.add(done_edge(g, h).id)

    def step_(x, n, st):
        d = dict(st)
        if n.kind == "edge":
            b = g.nodes[n.of]
            if b.kind == "branch":
                t = bare(b.term); pol = pol_of(g, n)
                if g.r(t, b) == RC:
                    if d["flat"] is not None and d["flat"] != pol: return None
                    d["flat"] = pol
                i = idle(n)
                if i is not None: d["idle"] = i
            if n.id in checks: d["idle"] = True
        elif n.id in ids:
            if d["idle"] is not True: x.bad("at-rest", n, "the resource is charged while it may still be working")
            if d["flat"] is not True: x.bad("only-when-exhausted", n, "the resource is charged although its battery is not known to be exhausted")
            d["charging"] = True
        elif n.kind == "yield":
            if n.id in done: d.update(flat=False, charging=False, idle=d["idle"])
            else: d.update(flat=None, idle=None)
        elif n.id in starts:
            if d["flat"] is not False: x.bad("charged-before-work", n, "work is started although it is not known that the battery is charged")
            if d["charging"]: x.bad("charged-before-work", n, "work is started while the resource is charging")
            d["idle"] = False
        return upd(d)

    def edge(x, n, s, lab, st):
        return None if lab == "exc" else st
    x = Explore(g, mkstate(flat=None, idle=None, charging=False), step_, edge)
    report(ck, x, name, g, ("charged-before-work", "at-rest", "only-when-exhausted"))


def bare(t):
    while t[0] == "not": t = t[1]
    return t


def pol_of(g, e):
    t = g.nodes[e.of].term; pol = e.label
    while t[0] == "not": t = t[1]; pol = not pol
    return pol


def not_outer(g, e, h):
    """does an edge get back to the head of its own loop without leaving it first?"""
    body = {n.id for n in g.nodes if g.dominates(iter_edge(g, h), n)}
    seen = set(); work = [e.id]
    while work:
        i = work.pop()
        for s, l in g.nodes[i].succ:
            if s == h.id: return True
            if s in body and s not in seen: seen.add(s); work.append(s)
    return False


def built(ck):
    """the battery time model of a charging state is the configured one"""
    f = ck.p.func("prodsys.factories.state_factory.StateFactory.add_state")
    g = ck.graph(f, selfcls=ck.p.cls("prodsys.factories.state_factory.StateFactory"), stop=("get_time_model",))
    calls = [n for n in g.calls("get_time_model") if n.id in g.live() and any(g.r(a, n).endswith(".battery_time_model_id") for a in list(n.args) + list(n.kw.values()))]
    ck.ob("configured", "battery time model", bool(calls), "the configured battery time model is not looked up", f.loc)
    keyed = False
    for n in g.nodes:
        if n.id not in g.live(): continue
        for t in [n.get("value")] + list(n.get("args") or ()):
            if not isinstance(t, tuple): continue
            for d, v in leaves(g, t, n):
                if v[0] == "dict":
                    for k, val in v[1]:
                        if k == ("const", "battery_time_model") and any(c.id in call_ids(g, val, d) for c in calls): keyed = True
        if n.kind == "substore" and n.get("index") == ("const", "battery_time_model") and any(c.id in call_ids(g, n.value, n) for c in calls): keyed = True
        if n.kind == "call" and "battery_time_model" in (n.kw or {}) and any(c.id in call_ids(g, n.kw["battery_time_model"], n) for c in calls): keyed = True
    ck.ob("configured", "battery time model/kept", keyed, "the configured battery time model does not reach the charging state", f.loc)
