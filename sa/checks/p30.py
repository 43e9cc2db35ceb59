"""P30 Learning environments reset and step consistently."""
TECHNIQUE = "must-pass and ordering analysis of an episode's reset and step on the inlined control-flow graph, path evaluation of how the action becomes the choice, and must-wait analysis between the place where the agent is asked and the place where the choice is taken"
NOTE = "Observation, reward, info and termination of the concrete environments are the user's own methods and are only required to be taken after the simulation has moved on."
import re
from ..lib import *
from ..index import FuncInfo, ClassInfo
from .. import peval
from .p23 import complete, only, strip

CONFIG = {"adapter", "runner", "observation_space", "action_space", "render_mode", "resource_id"}


def envs(p):
    out = []
    for c in p.all_classes():
        m = c.find_method("reset"), c.find_method("step")
        if c.mod.name.startswith("prodsys") and all(m) and any("Env" in b for x in c.mro() for b in x.base_names()) and m[0].cls.mod.name.startswith("prodsys"): out.append(c)
    return out


def graph(ck, c, name):
    f = c.find_method(name)
    return f, ck.graph(f, selfcls=c, inline=lambda x: x.cls is not None and c.is_sub(x.cls) and not x.is_abstract and x.name not in ("render",) or x.cls is None and x.mod.name == c.mod.name)


def runs(g):
    """(node, text of the event the simulation runs until)"""
    out = []
    for n in g.nodes:
        if n.kind == "call" and n.id in g.live() and n.name in ("run_until", "run") and n.recv is not None and g.r(n.recv, n).endswith(".env"):
            t = n.kw.get("until") if "until" in n.kw else n.args[0] if n.args else None
            out.append((n, t))
    return out


def attr_text(g, t, n):
    """name of the attribute of self a term is read from"""
    for d, v in leaves(g, t, n):
        if v[0] == "attr" and g.r(v[1], d) == "self": return v[2]
    return None


def fresh_event(p, g, n, v=None):
    d, v = only(g, v if v is not None else n.value, n)
    if v[0] != "call": return False
    c = g.nodes[v[1]]
    return c.name in ("Event", "event") and (c.name == "event" and g.r(c.recv, c) == "self.runner.env" or any(g.r(a, c) == "self.runner.env" for a in list(c.args) + list(c.kw.values())))


def stores(g, name): return [n for n in g.stores(name) if n.id in g.live() and g.r(n.base, n) == "self"]


def check(ck):
    p = ck.p; k = 0
    for c in envs(p):
        k += 1; one(ck, c)
    ck.need("learning environments", k, 2)
    routers(ck)
    controllers(ck)
    progress(ck)


def progress(ck):
    """an episode shows no progress bar: nothing of it may be used unless there is one"""
    E = ck.p.cls("prodsys.simulation.sim.Environment"); until = ck.graph(E.find_method("run_until"), selfcls=E)
    made = {n.attr for n in until.nodes if n.kind == "store" and n.id in until.live() and until.r(n.base, n) == "self"}
    import ast
    init = E.find_method("__init__")
    absent = {s.target.attr if isinstance(s, ast.AnnAssign) else s.targets[0].attr for s in ast.walk(init.node)
              if isinstance(s, (ast.Assign, ast.AnnAssign)) and isinstance(s.value, ast.Constant) and s.value.value is None and isinstance(s.target if isinstance(s, ast.AnnAssign) else s.targets[0], ast.Attribute)} - made
    k = 0
    for name, f in sorted(E.methods.items()):
        if name in ("__init__", "run", "run_until") or f.is_abstract: continue
        g = ck.graph(f, selfcls=E)
        for n in g.nodes:
            if n.kind != "call" or n.id not in g.live() or n.recv is None: continue
            for a in absent:
                if g.r(n.recv, n) != f"self.{a}": continue
                k += 1
                there = {f"self.{a}", f"!(None is self.{a})", f"!(self.{a} is None)"}
                have = {("" if pol else "!") + s for b, s, pol in g.guard_atoms(n)}
                ck.ob("no-bar", f"Environment.{name}/{a}", bool(have & there), f"{a} is used although an episode does not create it", n.loc)
    ck.ob("no-bar", "Environment/examined", True, "", E.loc)


def one(ck, c):
    p = ck.p; N = c.name
    f, g = graph(ck, c, "reset"); s, h = graph(ck, c, "step")
    # ---- the simulation of an episode is a fresh one
    ini = [n for n in g.nodes if n.kind == "call" and n.id in g.live() and n.name == "initialize_simulation" and n.recv is not None and g.r(n.recv, n) == "self.runner"]
    rs = runs(g)
    ck.ob("fresh", f"{N}.reset/simulation", bool(ini) and not g.path_avoiding(g.entry, g.exit, ini), "an episode does not start with a fresh simulation", f.loc)
    ck.ob("fresh", f"{N}.reset/runs", bool(rs) and not g.path_avoiding(g.entry, g.exit, [n for n, _ in rs]), "the simulation is not run until the first decision", f.loc)
    for n, _ in rs: ck.ob("fresh", f"{N}.reset/order", any(g.dominates(i, n) for i in ini) and not any(g.reaches(n, i) for i in ini), "the simulation is run before it has been set up", n.loc)
    late = set()
    for n in g.nodes:
        if n.id not in g.live() or n.kind not in ("call", "store", "assign", "loophead", "expr", "branch"): continue
        if any(re.search(r"self\.runner\.\w+_factory|self\.runner\.env\b", t) for t in texts(g, n)) and not any(g.dominates(i, n) for i in ini): late.add(n.id)
    ck.ob("fresh", f"{N}.reset/parts", not late, "parts of the previous episode's simulation are used", g.nodes[min(late)].loc if late else f.loc)
    for sd in [n for n in g.nodes if n.kind == "call" and n.name == "reset" and n.id in g.live() and n.recv is not None and "super" in g.r(n.recv, n)]:
        ck.ob("interface", f"{N}.reset/seed", "seed" in sd.kw and g.r(sd.kw["seed"], sd) == "seed", "the seed is not handed on", sd.loc)
    ck.ob("interface", f"{N}.reset/seeded", any(n.kind == "call" and n.name == "reset" and n.id in g.live() and "super" in g.r(n.recv, n) for n in g.nodes if n.kind == "call" and n.recv is not None), "the environment's own random generator is not seeded", f.loc)
    ck.ob("interface", f"{N}.reset/arguments", {"seed", "options"} <= set(f.all_params()) or bool(f.node.args.kwarg), "reset cannot be called the way the standard interface calls it (seed and options)", f.loc)
    # ---- the simulation stops when the agent has to decide
    evs = set()
    for gg, F, what in ((g, f, "reset"), (h, s, "step")):
        for n, t in runs(gg):
            a = attr_text(gg, t, n) if t is not None else None
            if a is None and t is not None: a = re.sub(r"^self\.", "", gg.r(t, n)) if gg.r(t, n).startswith("self.") else None
            src = None
            if a is None and t is not None and fresh_event(p, gg, n, t):
                # a local that is the event kept on self
                d, v = only(gg, t, n)
                src = [m for m in gg.nodes if m.kind == "store" and m.id in gg.live() and gg.r(m.base, m) == "self" and only(gg, m.value, m)[1] == v]
                a = src[0].attr if src else None
            ck.ob("interrupt", f"{N}.{what}/until", a is not None, "the simulation is not run until the event the agent's decision is announced with", n.loc)
            if a is None: continue
            evs.add(a)
            new = [m for m in stores(gg, a) if fresh_event(p, gg, m)]
            old = [m for m in stores(gg, a) if m not in new]
            ck.ob("interrupt", f"{N}.{what}/event", not old, "the simulation is interrupted by an event of another simulation", n.loc)
            ck.ob("interrupt", f"{N}.{what}/renewed", bool(new) and not gg.path_avoiding(n, gg.exit, new), "after a decision the simulation would not stop at the next one", n.loc)
            if what == "reset": ck.ob("interrupt", f"{N}.reset/first", any(gg.dominates(m, n) and any(gg.dominates(i, m) for i in ini) for m in new), "the simulation is interrupted by an event of the previous episode", n.loc)
    ck.ob("interrupt", f"{N}/one event", len(evs) == 1, "reset and step wait for different events", f.loc)
    hr = runs(h)
    ck.ob("step", f"{N}.step/runs", bool(hr) and not h.path_avoiding(h.entry, h.exit, [n for n, _ in hr]) and not any(h.path_avoiding(a, b, []) for a, _ in hr for b, _ in hr), "a step does not run the simulation to exactly the next decision", s.loc)
    # ---- results
    results(ck, c, f, g, "reset", rs, 2); results(ck, c, s, h, "step", hr, 5)
    # ---- counters
    init = c.find_method("__init__"); gi = ck.graph(init, selfcls=c, inline=lambda x: False)
    zero = {n.attr: n for n in gi.nodes if n.kind == "store" and n.id in gi.live() and gi.r(n.base, n) == "self" and n.value[0] == "const" and isinstance(n.value[1], (int, float)) and not isinstance(n.value[1], bool)}
    changed = {n.attr: n for n in h.nodes if n.kind == "store" and n.id in h.live() and h.r(n.base, n) == "self"}
    for a in sorted(set(zero) & set(changed)):
        w = [n for n in stores(g, a) if only(g, n.value, n)[1] == zero[a].value]
        ck.ob("counters", f"{N}/{a}", bool(w) and not g.path_avoiding(g.entry, g.exit, w), f"{a} goes on with the value of the previous episode", f.loc)
    for a in sorted(set(changed) - set(zero)):
        ns = [n for n in h.nodes if n.kind == "store" and n.attr == a and n.get("aug")]
        if ns: ck.ob("counters", f"{N}/{a}", bool(stores(g, a)), f"{a} goes on with the value of the previous episode", f.loc)
    cnt = [n for n in h.nodes if n.kind == "store" and n.id in h.live() and n.attr in zero and h.r(n.base, n) == "self" and ("self." + n.attr) in h.r(n.value, n)]
    ck.ob("counters", f"{N}/steps", bool(cnt) and all(lin(h, n) == 1 for n in cnt) and not h.path_avoiding(h.entry, h.exit, cnt) and not any(h.path_avoiding(a, b, []) for a in cnt for b in cnt), "steps are not counted one by one", s.loc)
    # ---- the agent decides
    hook(ck, c, g, f, ini, rs, evs)
    chosen(ck, c, h, s, hr)


def lin(h, n):
    t = h.r(n.value, n)
    return 1 if t in (f"(self.{n.attr} + 1)", f"(1 + self.{n.attr})") else None


def texts(g, n):
    out = []
    for k in ("value", "base", "iter", "term", "recv"):
        v = n.get(k)
        if isinstance(v, tuple): out.append(g.r(v, n))
    for a in list(n.get("args") or ()) + list((n.get("kw") or {}).values()): out.append(g.r(a, n))
    return out


def results(ck, c, f, g, what, rs, size):
    N = c.name
    want = ["get_observation", "get_info"] if size == 2 else ["get_observation", "get_reward", "get_termination_condition", None, "get_info"]
    k = 0
    for r in returns(g):
        for d, v in leaves(g, r.value, r):
            k += 1
            ok = v[0] == "tuple" and len(v[1]) == size
            ck.ob("result", f"{N}.{what}/parts", ok, f"{what} does not return the {size} parts the standard interface demands", r.loc)
            if not ok: continue
            for i, (w, t) in enumerate(zip(want, v[1])):
                if w is None:
                    ck.ob("result", f"{N}.{what}/truncated", all(x == ("const", False) for _, x in leaves(g, t, d)), "an episode is reported as truncated", r.loc); continue
                for dd, x in vals(g, t, d):
                    cn = g.nodes[x[1]] if x[0] == "call" else None
                    ok = cn is not None and cn.name == w and g.r(cn.recv, cn) == "self"
                    ck.ob("result", f"{N}.{what}/{w}", ok, f"part {i + 1} of the result is not {w}()", r.loc)
                    if ok: ck.ob("result", f"{N}.{what}/{w}/when", any(g.dominates(a, cn) for a, _ in rs), f"{w} is asked before the simulation has moved on", cn.loc)
    ck.ob("result", f"{N}.{what}", k > 0, "nothing is returned", f.loc)


def vals(g, t, d):
    """values of a term, looked up through attributes of self that are assigned in this function"""
    out = []
    for dd, v in leaves(g, t, d):
        if v[0] == "attr" and g.r(v[1], dd) == "self":
            ss = [m for m in stores(g, v[2]) if g.reaches(m, dd) or m.id == dd.id]
            last = [m for m in ss if not g.path_avoiding(g.entry, dd, [m])]
            if last: out += [x for m in last[-1:] for x in leaves(g, m.value, m)]; continue
        out.append((dd, v))
    return out


def hook(ck, c, g, f, ini, rs, evs):
    """reset makes the agent decide and its decisions are announced"""
    p = ck.p; N = c.name; hooks = []
    for n in g.nodes:
        if n.kind != "call" or n.id not in g.live() or n.name != "partial" or not n.args: continue
        d, v = only(g, n.args[0], n)
        h = None
        if v[0] == "func": h = v[1] if isinstance(v[1], FuncInfo) else p.func(v[1])
        elif v[0] == "glob":
            m = p.modules.get(v[1]); r = m.lookup(v[2]) if m else None
            h = r[1] if r and r[0] == "func" else None
        if h is not None and len(n.args) == 2 and g.r(n.args[1], n) == "self": hooks.append((n, h))
    lam = [n for n in g.nodes if n.kind == "store" and n.attr in ("control_policy",) and n.value[0] in ("lambda", "localfunc")]
    ck.ob("agent-decides", f"{N}.reset/hook", bool(hooks), "the agent is not asked for decisions", f.loc)
    for n, h in hooks:
        used = []
        for m in g.nodes:
            if m.id not in g.live(): continue
            if m.kind == "store" and m.attr == "control_policy" and any(v == ("call", n.id) for _, v in leaves(g, m.value, m)):
                ctl = g.r(m.base, m)
                ok = re.fullmatch(r"self\.runner\.resource_factory\.get_resource\((ID=)?self\.resource_id\)\.(get_controller\(\)|controller)", deref(g, m)) is not None
                ck.ob("agent-decides", f"{N}.reset/controller", ok, f"the agent does not decide for the resource of the environment: {deref(g, m)[:120]}", m.loc)
                used.append(m)
            if m.kind == "call" and m.name == "Router" and any(v == ("call", n.id) for a in list(m.args) + list(m.kw.values()) for _, v in leaves(g, a, m)):
                R = next((x for x in m.get("cands") or () if isinstance(x, FuncInfo)), None) or p.cls("prodsys.simulation.router.Router").find_method("__init__")
                ps = [x for x in R.params() if x != "self"]; a = dict(zip(ps, m.args)); a.update(m.kw)
                req = [x for x in ps[: len(ps) - len(R.node.args.defaults)]]
                ck.ob("agent-decides", f"{N}.reset/router/complete", set(req) <= set(a), f"the router cannot be built without {', '.join(sorted(set(req) - set(a)))}", m.loc)
                for x, t in a.items():
                    if x.endswith("_factory"): ck.ob("agent-decides", f"{N}.reset/router/{x}", g.r(t, m) == f"self.runner.{x}", f"the router's {x} is {g.r(t, m)[:80]}", m.loc)
                    if x == "routing_heuristic": ck.ob("agent-decides", f"{N}.reset/router/heuristic", any(v == ("call", n.id) for _, v in leaves(g, t, m)), "the router does not ask the agent", m.loc)
                ss = [w for w in g.nodes if w.kind == "store" and w.attr == "router" and w.id in g.live() and any(v == ("call", m.id) for _, v in vals(g, w.value, w))]
                for w in ss:
                    if g.r(w.base, w) == "self": continue
                    hs = [x for x in g.loops_of(w)]
                    ok = len(hs) == 1 and g.r(hs[0].iter, hs[0]) == "self.runner.source_factory.sources" and complete(g, hs[0]) and not [x for x, t, q in g.guard_atoms(w) if x.kind == "branch"]
                    ck.ob("agent-decides", f"{N}.reset/sources", ok, "the products of some sources are not routed by the agent", w.loc)
                    if ok: used.append(hs[0])
        ck.ob("agent-decides", f"{N}.reset/used", bool(used) and all(any(g.dominates(u, r) for u in used) for r, _ in rs), "the simulation runs before the agent has been made responsible for its decisions", n.loc)
        # the hook itself
        P = h.all_params(); gh = ck.graph(h, inline=lambda x: x.cls is None and x.mod.name == h.mod.name or x.cls is not None and c.is_sub(x.cls))
        env, req = P[0], P[1]
        ev = next(iter(evs), None)
        suc = [m for m in gh.nodes if m.kind == "call" and m.name == "succeed" and m.id in gh.live() and gh.r(m.recv, m) == f"{env}.{ev}"]
        ck.ob("agent-decides", f"{h.name}/announced", bool(suc), "a decision is not announced, the simulation goes on without the agent", h.loc)
        for m in suc: ck.ob("agent-decides", f"{h.name}/once", not any(gh.path_avoiding(m, x, []) for x in suc), "a decision is announced twice", m.loc)
        trig = f"{env}.{ev}.triggered"
        skip = gh.path_avoiding(gh.entry, gh.exit, suc)
        if skip:
            edges = [e for e in gh.nodes if e.kind == "edge" and e.label is True and gh.nodes[e.of].kind == "branch" and gh.r(gh.nodes[e.of].term, gh.nodes[e.of]) == trig or e.kind == "edge" and e.label is False and gh.nodes[e.of].kind == "branch" and gh.r(gh.nodes[e.of].term, gh.nodes[e.of]) == "!" + trig]
            ck.ob("agent-decides", f"{h.name}/always", bool(edges) and not gh.path_avoiding(gh.entry, gh.exit, suc + edges), "a decision is taken without the agent although none is pending", h.loc)
            empt = [m for m in gh.nodes if m.id in gh.live() and (m.kind == "edge" and m.label is False and gh.nodes[m.of].kind == "branch" and gh.r(gh.nodes[m.of].term, gh.nodes[m.of]) in (req, f"(0 < len({req}))", f"len({req})") or m.kind == "call" and m.name == "clear" and gh.r(m.recv, m) == req or m.kind in ("substore", "del") and m.get("base") is not None and gh.r(m.base, m) == req or m.kind == "edge" and m.label is True and gh.nodes[m.of].kind == "branch" and gh.r(gh.nodes[m.of].term, gh.nodes[m.of]) in (f"!{req}", f"(0 == len({req}))") or m.kind == "edge" and m.label == "done" and gh.r(gh.nodes[m.of].iter, gh.nodes[m.of]) in (req, f"{req}[:]", f"list({req})") and any(x.kind == "call" and x.name in ("pop", "remove") and gh.r(x.recv, x) == req for x in gh.nodes))]
            ck.ob("agent-decides", f"{h.name}/postponed", bool(empt) and all(not gh.path_avoiding(e, gh.exit, empt) for e in edges), "a request is decided without the agent while another decision is pending", h.loc)
        setter = pend(ck, c)
        for a in sorted(setter):
            ok = [m for m in gh.nodes if m.id in gh.live() and m.kind == "store" and m.attr == a and gh.r(m.base, m) == env and gh.r(m.value, m) == req]
            ck.ob("agent-decides", f"{h.name}/requests", bool(ok) and all(any(gh.dominates(x, m) for x in ok) or not gh.path_avoiding(m, gh.exit, ok) for m in suc), "the agent does not see the requests it has to decide on", h.loc)
        if not setter: continue
        # what the router has to wait for
        for m in suc:
            rr = [r for r in returns(gh) if gh.path_avoiding(m, r, [])]
            ck.ob("choice", f"{h.name}/deferred", bool(rr) and not gh.path_avoiding(m, gh.exit, rr) and all(waitable(gh, r, env) for r in rr), "nothing tells the router to wait for the agent's choice", m.loc)


def waitable(g, r, env):
    for d, v in leaves(g, r.value, r):
        if v[0] != "call": return False
        c = g.nodes[v[1]]
        if not (c.name in ("timeout", "Timeout")): return False
    return True


def deref(g, m):
    """text of a term with the attributes of self that are assigned in this function replaced by their values"""
    def rec(t, d, k=0):
        if k > 8: return g.r(t, d)
        xs = vals(g, t, d)
        if len(xs) != 1: return g.r(t, d)
        d, v = xs[0]
        if v[0] == "attr": return rec(v[1], d, k + 1) + "." + v[2]
        if v[0] == "call":
            c = g.nodes[v[1]]; args = [rec(a, c, k + 1) for a in c.args] + [f"{x}={rec(a, c, k + 1)}" for x, a in c.kw.items()]
            return (rec(c.recv, c, k + 1) + "." if c.recv is not None else "") + f"{c.name}({', '.join(args)})"
        return g.r(v, d)
    return rec(m.base, m)


def pend(ck, c):
    """attributes that hold the requests to decide on: lists that start empty and that a step reads"""
    gi = ck.graph(c.find_method("__init__"), selfcls=c, inline=lambda x: x.cls is not None and c.is_sub(x.cls)); _, h = graph(ck, c, "step")
    empty = {n.attr for n in gi.nodes if n.kind == "store" and n.id in gi.live() and gi.r(n.base, n) == "self" and only(gi, n.value, n)[1] in (("list", ()), ("tuple", ()))}
    seen = " ".join(t for n in h.nodes if n.id in h.live() for t in texts(h, n))
    return {a for a in empty if re.search(rf"self\.{a}\b", seen)}


def chosen(ck, c, h, s, hr):
    """the action becomes the first of the requests, in the list the simulation works on"""
    p = ck.p; N = c.name
    A = [x for x in s.all_params() if x != "self"][0]
    am = rf"(?:np|numpy)\.argmax\({A}\)|{A}\.argmax\(\)|int\((?:np|numpy)\.argmax\({A}\)\)"
    seen = {"valid": 0, "invalid": 0}; bad = None; P = pend(ck, c)
    for st in peval.paths(h, loop=1, limit=6000):
        if st.end is not h.exit: continue
        run = next((i for i, n in enumerate(st.nodes) if n in [x for x, _ in hr]), None)
        if run is None: continue
        L = [("" if pol else "!") + st.r(t) for t, pol in st.order]
        lists = {"self." + a for a in P} or {"self.resource_controller.requests"}
        before = st.nodes[:run]
        rew = next((n for n in st.nodes[run:] if n.kind == "call" and n.name == "get_reward"), None)
        inv = None
        if rew is not None:
            ps = c.find_method("get_reward").params()[1:]; a = dict(zip(ps, rew.args)); a.update(rew.kw)
            if "invalid_action" in a: inv = a["invalid_action"]
            inv = st.close(inv) if inv is not None else ("const", False)
        # what is put first
        put = None; out = None; sort = None
        for n in before:
            if n.kind == "store" and h.r(n.base, n) == "self" and "self." + n.attr in lists: bad = (n, "the requests of the simulation are replaced by a copy"); continue
            if n.kind != "call" or n.recv is None or h.r(n.recv, n) not in lists: continue
            if n.name == "insert": put = n
            elif n.name in ("pop", "remove"): out = n
            elif n.name == "sort": sort = n
            elif n.name in ("clear", "extend", "append", "reverse"): bad = (n, "requests get lost or are added")
        if put is None and sort is None: bad = (s, "the action has no effect on the order of the requests"); continue
        if put is not None:
            if st.r(put.args[0]) != "0": bad = (put, "the chosen request does not become the first one"); continue
            v = h.r(put.args[1], put)
            if out is None: bad = (put, "the chosen request is in the list twice"); continue
            idx = idx_of(h, put, out)
            if idx is None: bad = (put, "another request than the chosen one becomes the first one"); continue
            on = [t for d, t in idx if on_path(st, d)]
            txt = {h.r(t, d) for d, t in idx if on_path(st, d)}
            own = any(re.fullmatch(am, t) for t in txt) and not any("random" in t for t in txt)
            rng = any(re.fullmatch(rf"\((?:{am}) < len\({re.escape(l)}\)\)", x) for l in lists for x in L)
            if any("random" in t for t in txt): own = False
            if own and not rng: bad = (out, "an action outside the range of the requests fails"); continue
        else:
            res = keyed(h, sort)
            if res is None: bad = (sort, "the requests are not ordered by the chosen resource"); continue
            ch = [(m, m.value) for m in before if m.kind == "store" and h.r(m.base, m) == "self" and "self." + m.attr == res]
            if not ch and not res.startswith("self."): bad = (sort, "the requests are not ordered by the chosen resource"); continue
            if not ch: bad = (sort, "the choice of the previous step is used"); continue
            t = h.r(ch[-1][1], ch[-1][0])
            own = re.fullmatch(rf"self\.runner\.resource_factory\.resources\[(?:{am})\]", t) is not None
            rng = any(re.search(r"\.ID in |in list\w*\(|in set\w*\(| in listcomp|elem\(self\.possible_requests\).*\.ID == |== elem\(self\.possible_requests\)", x) and not x.startswith("!") for x in L)
            if own and not rng: bad = (sort, "a resource none of the requests is for is accepted"); continue
            if not own and not any(l in t for l in lists): bad = (ch[-1][0], "another resource than the chosen one gets the request"); continue
        seen["valid" if own else "invalid"] += 1
        if inv is not None and inv[0] != "const":
            pol = True
            while inv[0] == "not": inv = inv[1]; pol = not pol
            x = h.render(inv); y = x[1:] if x.startswith("!") else "!" + x
            inv = ("const", pol) if x in L else ("const", not pol) if y in L else None
        if inv is not None and inv != ("const", not own): bad = (rew, "a valid action is rewarded as an invalid one or the other way round")
    ck.ob("choice", f"{N}.step/applied", bad is None and seen["valid"] > 0, bad[1] if bad else "the agent's choice is never applied", bad[0].loc if bad else s.loc)


def on_path(st, d): return any(n.id == d.id for n in st.nodes)


def idx_of(h, put, out):
    """the indices a request taken out of the list and put back first can have"""
    vs = [v for d, v in leaves(h, put.args[1], put)]
    if out.name == "pop":
        if not out.args or ("call", out.id) not in vs: return None
        return leaves(h, out.args[0], out)
    r = []
    for d, v in leaves(h, put.args[1], put):
        if v[0] == "item" and h.r(v[1], d) == h.r(out.recv, out): r += leaves(h, v[2], d)
        else: return None
    return r


def keyed(h, n):
    """attribute of self the key of a sort compares each request's resource with; None if the chosen one does not come first"""
    k = n.kw.get("key") or (n.args[0] if n.args else None)
    rev = n.kw.get("reverse"); rev = rev == ("const", True)
    if k is None: return None
    for d, v in leaves(h, k, n):
        if v[0] not in ("lambda", "localfunc"): return None
    body = lam_body(h, n, k)
    if body is None: return None
    import ast as A
    neg = False
    while isinstance(body, A.UnaryOp) and isinstance(body.op, A.Not): neg = not neg; body = body.operand
    if not isinstance(body, A.Compare) or len(body.ops) != 1: return None
    op = body.ops[0]
    if isinstance(op, (A.NotEq, A.IsNot)): neg = not neg
    elif not isinstance(op, (A.Eq, A.Is)): return None
    if neg == rev: return None
    l, r = A.unparse(body.left), A.unparse(body.comparators[0])
    for x, y in ((l, r), (r, l)):
        m = re.fullmatch(r"\w+\.resource(\.data\.ID|\.ID)?", x)
        if m and not y.startswith(x.split(".")[0] + "."):
            y = y[: -len(m.group(1))] if m.group(1) and y.endswith(m.group(1)) else y
            if y.startswith("self."): return y
            # a local name
            return y
    return None


def lam_body(h, n, k):
    for d, v in leaves(h, k, n):
        if v[0] == "lambda": return h.lams[v[1]][0].body
    return None


# ---------------------------------------------------------------- where the choice is taken
def routers(ck):
    """between asking for an order and taking the first request the simulation waits for whoever decides"""
    p = ck.p; k = 0
    R = p.cls("prodsys.simulation.router.Router")
    for m in R.methods.values():
        g = ck.graph(m, inline=lambda x: False)
        for n in g.nodes:
            if n.kind != "call" or n.id not in g.live() or n.name != "routing_heuristic" or g.r(n.recv, n) != "self": continue
            if not n.args: continue
            k += 1; L = n.args[0]
            takes = [t for t in g.nodes if t.id in g.live() and g.reaches(n, t) and (t.kind == "call" and t.name == "pop" and t.recv is not None and g.r(t.recv, t) == g.r(L, n) or t.kind in ("assign", "store") and item0(g, t, L))]
            ck.ob("choice", f"Router.{m.name}/taken", bool(takes), "the order the heuristic has produced is not used", n.loc)
            waits = [w for w in g.nodes if w.kind == "yield" and w.id in g.live() and g.reaches(n, w)]
            none = [e for e in g.nodes if e.kind == "edge" and g.nodes[e.of].kind == "branch" and settled(g, e, n)]
            for t in takes:
                if t.kind == "call" and t.args: ck.ob("choice", f"Router.{m.name}/first", g.r(t.args[0], t) == "0", "not the first request is taken", t.loc)
                elif t.kind == "call": ck.ob("choice", f"Router.{m.name}/first", False, "not the first request is taken", t.loc)
                ck.ob("choice", f"Router.{m.name}/awaited", not g.path_avoiding(n, t, waits + none), "a request is taken before the agent could choose", t.loc)
                emp = [e for e in g.nodes if e.kind == "edge" and g.nodes[e.of].kind == "branch" and g.r(g.nodes[e.of].term, g.nodes[e.of]) in (g.r(L, n), "!" + g.r(L, n), f"(0 < len({g.r(L, n)}))", f"(0 == len({g.r(L, n)}))") and g.reaches(n, g.nodes[e.of])]
                ck.ob("choice", f"Router.{m.name}/postponed", not g.path_avoiding(n, t, emp), "a postponed decision fails", t.loc)
    ck.need("places where a heuristic is asked", k, 3)


def settled(g, e, n):
    """edge on which the result of the heuristic is known to be nothing to wait for"""
    b = g.nodes[e.of]; t = b.term; pol = e.label
    while t[0] == "not": t = t[1]; pol = not pol
    isn = None
    if t[0] == "cmp" and t[1] in ("is", "is not", "==", "!=") and ("const", None) in t[2:4]:
        x = t[2] if t[3] == ("const", None) else t[3]; isn = pol == (t[1] in ("is", "=="))
    else: x = t; isn = not pol
    return isn and any(v == ("call", n.id) for _, v in leaves(g, x, b))


def item0(g, t, L):
    v = t.value
    return v[0] == "item" and v[2] == ("const", 0) and g.r(v[1], t) == g.r(L, t)


def controllers(ck):
    """the request of a resource is taken only after the policy's order has been awaited"""
    p = ck.p; k = 0
    for c in p.subclasses(p.cls("prodsys.simulation.control.Controller")):
        for m in c.methods.values():
            g = None
            import ast as A
            if not any(isinstance(x, A.Attribute) and x.attr == "requests" for x in A.walk(m.node)): continue
            g = ck.graph(m, selfcls=c, inline=lambda x: False)
            for n in g.nodes:
                if n.kind != "call" or n.id not in g.live() or n.name != "pop" or n.recv is None or g.r(n.recv, n) != "self.requests": continue
                k += 1
                ys = [y for y in g.nodes if y.kind == "yield" and y.id in g.live()]
                ck.ob("choice", f"{c.name}.{m.name}/awaited", not g.path_avoiding(g.entry, n, ys), "a request is taken before the agent could choose", n.loc)
                ck.ob("choice", f"{c.name}.{m.name}/first", bool(n.args) and n.args[0] == ("const", 0), "not the first request is taken", n.loc)
    ck.need("places where a request is taken", k, 2)
