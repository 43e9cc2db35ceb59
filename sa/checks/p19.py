"""P19 Transports drive real distances with handling counted once."""
TECHNIQUE = "path-wise term propagation through the transport step and the transport state; exhaustive evaluation of the leg flags over the loop index; dataflow rules on the route search"
NOTE = "Legs are judged for routes of every length through the loop index (k, N) domain up to N = 6; the shortest-path library is trusted to return a path of the given graph."
from ..lib import *
from ..peval import paths, truth
from .steps import *

LOC = ("get_location", "get_input_location", "get_output_location", "set_location")
SPECIAL = {"ProductionResource", "Store"}


class Legs:
    """values of loop terms for leg k of a route with N stops"""
    def __init__(self, g, head, base):
        self.g, self.h, self.base = g, head, base

    def seq(self, t, N):
        """list of element values of an iterable, as closed values"""
        g = self.g; k = t[0]
        if k == "call": return self.seq(self.callterm(t), N)
        if k == "pcall":
            f = t[1]; name = f[2] if f[0] in ("attr",) else f[-1]
            name = str(name).split(".")[-1]; a = t[2]; kw = dict(t[3])
            if name in ("list", "tuple", "iter") and len(a) == 1: return self.seq(a[0], N)
            if name == "enumerate":
                s = self.seq(a[0], N); st = self.ev(a[1] if len(a) > 1 else kw.get("start", ("const", 0)), None, N)
                return None if s is None or not isinstance(st, int) else [(i + st, x) for i, x in enumerate(s)]
            if name in ("zip", "pairwise"):
                ss = [self.seq(x, N) for x in a]
                if any(s is None for s in ss): return None
                return list(zip(*ss)) if name == "zip" else list(zip(ss[0], ss[0][1:]))
            if name == "range":
                v = [self.ev(x, None, N) for x in a]
                return list(range(*v)) if v and all(isinstance(x, int) for x in v) else None
            if name == "islice":
                s = self.seq(a[0], N); v = [self.ev(x, None, N) for x in a[1:]]
                if s is not None and all(x is None or isinstance(x, int) for x in v): return s[slice(*v)]
                return None
        if k == "item" and t[2][0] == "slice":
            s = self.seq(t[1], N)
            if s is None: return None
            v = []
            for x in t[2][1:]:
                y = None if x == ("const", None) else self.ev(x, None, N)
                if y is not None and not isinstance(y, int): return None
                v.append(y)
            return s[slice(*v)]
        if g.render(t) == self.base: return [("R", i) for i in range(N)]
        return None

    def callterm(self, t):
        n = self.g.nodes[t[1]]; R = lambda x: self.g.resolve(x, n)
        return ("pcall", R(n.func), tuple(R(x) for x in n.args), tuple(sorted((str(q), R(v)) for q, v in n.kw.items())))

    def ev(self, t, k, N):
        """int / bool / ('R', i) / None for unknown"""
        g = self.g; op = t[0]
        if op == "const": return t[1] if isinstance(t[1], (int, bool)) else None
        if op == "kvar": return None if k is None else k + t[1]
        if op in ("elem", "index") and t[2] == self.h.id:
            if op == "index": return k
            s = self.seq(t[1], N)
            return s[k] if s is not None and k is not None and k < len(s) else None
        if op == "unpack":
            v = self.ev(t[1], k, N)
            return v[t[2]] if isinstance(v, tuple) and v and v[0] != "R" and t[2] < len(v) else None
        if op == "item":
            i = self.ev(t[2], k, N); s = self.seq(t[1], N)
            if s is not None and isinstance(i, int) and -len(s) <= i < len(s): return s[i]
            v = self.ev(t[1], k, N)
            return v[i] if isinstance(v, tuple) and v and v[0] != "R" and isinstance(i, int) and i < len(v) else None
        if op == "call": return self.ev(self.callterm(t), k, N)
        if op == "pcall":
            name = str(t[1][-1]).split(".")[-1]
            if name == "len" and len(t[2]) == 1:
                s = self.seq(t[2][0], N); return None if s is None else len(s)
            if name == "bool" and len(t[2]) == 1:
                v = self.ev(t[2][0], k, N); return None if v is None else bool(v)
            return None
        if op == "attr": return self.ev(t[1], k, N) if t[2] in ("data", "ID") else None
        if op in ("bin", "cmp"):
            a, b = self.ev(t[2], k, N), self.ev(t[3], k, N)
            if a is None or b is None: return None
            try:
                return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "==": lambda: a == b, "!=": lambda: a != b, "is": lambda: a == b, "is not": lambda: a != b,
                        "<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b}[t[1]]()
            except (KeyError, TypeError): return None
        if op == "not":
            v = self.ev(t[1], k, N); return None if v is None else not v
        if op == "neg":
            v = self.ev(t[1], k, N); return -v if isinstance(v, int) else None
        if op == "bool":
            vs = [self.ev(x, k, N) for x in t[2]]
            if t[1] == "and": return False if False in vs else (None if None in vs else all(vs))
            return True if any(v is True for v in vs) else (None if None in vs else any(vs))
        return None


def raw_base(g, t, node, depth=0):
    """the route a leg iteration runs over: (term, node)"""
    if depth > 12: return t, node
    if t[0] == "var":
        ds = g.rd((t[1], t[2]), node)
        if len(ds) == 1:
            d = ds[0]; v = d.value
            if v[0] in ("call", "item", "pcall") and (v[0] != "call" or str(g.nodes[v[1]].name) in ("zip", "enumerate", "range", "pairwise", "list", "tuple", "iter", "islice")): return raw_base(g, v, d, depth + 1)
            if v[0] == "var": return raw_base(g, v, d, depth + 1)
        return t, node
    if t[0] == "call":
        c = g.nodes[t[1]]
        if c.name in ("zip", "enumerate", "pairwise", "list", "tuple", "iter", "islice") and c.args: return raw_base(g, c.args[0], c, depth + 1)
        if c.name in ("range", "len") and c.args: return raw_base(g, c.args[-1] if c.name == "range" else c.args[0], c, depth + 1)
    if t[0] == "bin": return raw_base(g, t[2] if t[2][0] != "const" else t[3], node, depth + 1)
    if t[0] == "item": return raw_base(g, t[1], node, depth + 1)
    return t, node


def loop_base(g, h, op):
    if h.iter is not None: return raw_base(g, h.iter, h)
    # counting loop: the route is what is measured in the loop's test
    for n in g.nodes:
        if n.kind == "call" and n.name == "len" and n.id in g.live() and n.args and h in lloops(g, n): return raw_base(g, n.args[0], n)
    return None, None


def lloops(g, n):
    """loops (for and while) the node is in, outermost first"""
    ls = g.loops_of(n) + [h for h in g.nodes if h.kind == "loophead" and h.iter is None and h.id in g.live() and g.dominates(h, n) and g.reaches(n, h)]
    return sorted(ls, key=lambda h: sum(g.dominates(x, h) for x in ls))


def opcalls(g): return [n for n in g.nodes if n.kind in ("call", "spawn") and n.name == "process_state" and n.id in g.live()]


def legs(ck, ci):
    g = step_graph(ck, ci, extra=LOC); name = f"{ci.name}.{g.fn.name}"; it = Items(ck, g, ci)
    ops = opcalls(g)
    ck.need("transport operations", len(ops), 1)
    kinds = {}
    for op in ops:
        v = op.kw.get("empty_transport")
        vs = {g.r(x, d) for d, x in leaves(g, v, op)} if v is not None else {"nothing"}
        ck.ob("kind-of-drive", name, vs in ({"True"}, {"False"}), f"a drive is neither clearly empty nor clearly loaded: {sorted(vs)}", op.loc)
        e = vs == {"True"}
        kinds.setdefault(e, []).append(op)
    ck.ob("empty-drive", name, bool(kinds.get(True)), "no empty drive to the pick-up point exists", g.fn.loc)
    ck.ob("loaded-drive", name, bool(kinds.get(False)), "no loaded drive exists", g.fn.loc)
    heads = {}
    for e, lst in kinds.items():
        ck.ob("one-drive", f"{name}/{'empty' if e else 'loaded'}", len(lst) == 1, "a drive is started in several places", lst[0].loc)
        for op in lst:
            hs = lloops(g, op)
            h = hs[-1] if hs else None
            ck.ob("leg-by-leg", f"{name}/{'empty' if e else 'loaded'}", h is not None, "the route is not driven leg by leg", op.loc)
            if h is None: continue
            heads[e] = h
            leg(ck, g, name, op, h, e)
            route(ck, g, name, op, h, e, it)
    he, hl = heads.get(True), heads.get(False)
    if he is not None:
        # driven exactly when the resource is not at the pick-up point
        same = []
        for n in g.nodes:
            if n.kind == "edge" and g.nodes[n.of].kind == "branch" and n.id in g.live():
                t = g.resolve(g.nodes[n.of].term, g.nodes[n.of]); pol = bool(n.label)
                while t[0] == "not": t = t[1]; pol = not pol
                if t[0] != "cmp" or t[1] not in ("==", "!=", "is", "is not"): continue
                if t[1] in ("!=", "is not"): pol = not pol
                a, b = (strip(g.render(x)) for x in t[2:4])
                if "self._current_locatable" in (a, b) and ({a, b} - {"self._current_locatable"}) <= {r + ".origin" for r in it.req}: same.append((n, pol))
        eq = [n for n, p in same if p]; ne = [n for n, p in same if not p]
        ck.ob("empty-only-if-away", name, any(g.dominates(n, he) for n in ne), "the resource also drives empty when it already is at the pick-up point", he.loc)
        gs = [x for x in g.guard_atoms(he) if not any(g.dominates(n, g.nodes[x[0].id]) and False for n in ne)]
        extra = [s for b, s, pol in gs if not any(n.of == b.id for n, _ in same)]
        ck.ob("empty-always-if-away", name, not extra, f"the resource only drives to the pick-up point if {extra}", he.loc)
        for n in gets(g):
            p = g.path_avoiding(g.entry, n, [he] + eq)
            ck.ob("drives-to-pickup", name, p is None, "an item can be picked up although the resource neither is at nor has driven to its pick-up point", n.loc)
        if hl is not None:
            ck.ob("empty-before-loaded", name, g.path_avoiding(hl, he, []) is None, "the empty drive can come after the loaded one", he.loc)
    # the location of the resource is only changed by driving, and initially
    for fn in ck.p.all_funcs("prodsys.simulation"):
        for x in ast.walk(fn.node):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr == "_current_locatable":
                ck.ob("location-owner", fn.short, fn.cls is not None and (fn.cls is ci or ci.is_sub(fn.cls) or fn.cls.is_sub(ci)), "the whereabouts of a transport resource are changed from outside its controller", f"{fn.mod.rel}:{x.lineno}")


def strip(s):
    for e in (".data.ID", ".data", ".ID"):
        if s.endswith(e): return s[:-len(e)]
    return s


def leg(ck, g, name, op, h, e):
    kind = "empty" if e else "loaded"; nm = f"{name}/{kind}"
    bt, bn = loop_base(g, h, op)
    ck.ob("leg-route", nm, bt is not None, "the drive does not follow a route", op.loc)
    if bt is None: return
    base = g.r(bt, bn); L = Legs(g, h, base)
    init = {}
    if h.iter is None:
        for n in g.nodes:
            if n.kind == "assign" and h in lloops(g, n) and g.path_avoiding(n, h, []) is not None:
                v = n.value
                if v[0] == "bin" and v[1] == "+" and v[2] == ("var",) + n.key and v[3] == ("const", 1):
                    outer = [d for d in g.rd(n.key, h) if d.id != n.id]
                    if len(outer) == 1 and outer[0].value[0] == "const" and isinstance(outer[0].value[1], int): init[n.key] = ("kvar", outer[0].value[1])
    def on(st, n):
        if n.kind == "yield": st.events.append(("yield", n, st.close(n.value) if n.value else None))
        elif n.kind == "store" and n.attr == "_current_locatable": st.events.append(("at", n, st.close(n.value)))
        elif n.kind == "call" and n.name == "set_location": st.events.append(("loc", n, st.close(n.args[0] if n.args else n.kw.get("new_location", ("undef", "")))))
        elif n.id == op.id: st.events.append(("op", n, {q: st.close(v) for q, v in n.kw.items()}, [st.close(a) for a in n.args]))
    allp = paths(g, start=h, stop=lambda n: n.id == h.id or not (n is op or h in lloops(g, n) or n.kind in ("edge", "nop", "branch")), init=init, outer=h, on=on, loop=1)
    fn = op.cands[0] if op.get("cands") else None
    params = None
    for c in ck.p.all_classes():
        m = c.methods.get("process_state")
        if m is not None and "empty_transport" in m.params(): params = m.params()[1:]
    bad = {}
    def fail(rule, node, msg): bad.setdefault(rule, (node, msg))
    nleg = 0
    for N in range(2, 7):
        for k in range(0, N - 1):
            nleg += 1
            feas = 0
            for st in allp:
                vals = [(L.ev(c, k, N), pol) for c, pol in st.order]
                if any(v is not None and bool(v) != pol for v, pol in vals): continue
                o = [x for x in st.events if x[0] == "op"]
                if h.iter is not None and st.nodes[1:2] and done_edge(g, h) is not None and any(n is done_edge(g, h) for n in st.nodes): continue
                if st.end is g.rexit or any(n.kind == "raise" for n in st.nodes): continue
                feas += 1
                if not o: fail("leg-skipped", h, f"leg {k + 1} of a route with {N} stops can be skipped"); continue
                if len(o) > 1: fail("leg-once", o[1][1], "a leg is driven twice"); continue
                i = st.events.index(o[0]); kw = dict(o[0][2])
                for q, v in zip(params or [], o[0][3]): kw.setdefault(q, v)
                last, first = k == N - 2, k == 0
                for q, want, rule, txt in (("initial_transport_step", first, "initial-leg", "first"), ("last_transport_step", last, "last-leg", "last")):
                    v = L.ev(kw[q], k, N) if q in kw else None
                    if v is None or bool(v) != want: fail(rule, op, f"leg {k + 1} of {N - 1} is {'' if v else 'not '}treated as the {txt} leg" if v is not None else f"it is not clear whether leg {k + 1} of {N - 1} is the {txt} one")
                # target of the leg
                t = kw.get("target"); bare = t
                if t is None or t[0] != "pcall" or t[1][0] != "attr" or t[1][2] not in LOC: fail("leg-target", op, f"the leg ends at {g.render(t) if t else 'nothing'}"); continue
                who = L.ev(t[1][1], k, N)
                if who != ("R", k + 1): fail("leg-target", op, f"leg {k + 1} ends at {('stop %d' % who[1]) if isinstance(who, tuple) and who and who[0] == 'R' else g.render(t[1][1])[:120]} instead of the next stop of the route")
                cls = {True: set(), False: set()}
                for c, pol in st.order:
                    while c[0] == "not": c = c[1]; pol = not pol
                    if c[0] == "pcall" and str(c[1][-1]).split(".")[-1] == "isinstance" and len(c[2]) == 2 and L.ev(c[2][0], k, N) == ("R", k + 1):
                        for x in (c[2][1][1] if c[2][1][0] in ("tuple", "list") else (c[2][1],)): cls[pol].add(g.render(x).split(".")[-1])
                    if c[0] == "pcall" and str(c[1][-1]).split(".")[-1] == "hasattr" and len(c[2]) == 2 and c[2][1] in (("const", "get_input_location"), ("const", "get_output_location")): cls[pol] |= SPECIAL
                meth = t[1][2]
                if not last:
                    if meth != "get_location": fail("leg-target", op, "an intermediate stop is entered at its input or output")
                else:
                    sp = bool(cls[True]) and cls[True] <= SPECIAL
                    nsp = SPECIAL <= cls[False]
                    want = ("get_output_location" if e else "get_input_location") if sp else "get_location"
                    if not sp and not nsp: fail("drop-point", op, "where to stop at a machine or store is not distinguished from other places")
                    elif meth != want: fail("drop-point", op, f"an {kind} drive ends at {meth} of a {'machine or store' if sp else 'place'}" )
                # afterwards the resource is there
                w = [j for j, x in enumerate(st.events) if j > i and x[0] == "yield"]
                aw = [j for j in w if op.id in awaited(g, st.events[j][1], {op.id}) or any(op.id in call_ids(g, st.events[j][1].value, st.events[j][1]) for _ in (0,))]
                if not aw and not w: fail("leg-awaited", op, "the leg is not waited for"); continue
                j0 = (aw or w)[0]
                at = [x for x in st.events if x[0] == "at"]; lo = [x for x in st.events if x[0] == "loc"]
                if not at: fail("arrived", op, "after a leg the resource is not noted to be where the leg ended")
                for x in at:
                    if L.ev(x[2], k, N) != ("R", k + 1): fail("arrived", x[1], f"after leg {k + 1} the resource is noted to be at {g.render(x[2])[:100]}")
                    if st.events.index(x) < j0: fail("arrived-after", x[1], "the resource is noted to have arrived before the leg is over")
                if not lo: fail("position", op, "the position of the resource is not updated after a leg")
                for x in lo:
                    if g.render(x[2]) != g.render(t): fail("position", x[1], f"the position after the leg is {g.render(x[2])[:100]} instead of the end of the leg")
                    if st.events.index(x) < j0: fail("arrived-after", x[1], "the position of the resource changes before the leg is over")
                later = [j for j in w if j > j0]
                for x in at + lo:
                    if any(st.events.index(x) > j for j in later): fail("arrived-at-once", x[1], "time passes between the end of a leg and the update of the position")
            if not feas: fail("leg-skipped", h, f"leg {k + 1} of a route with {N} stops is not driven")
            if h.iter is not None:
                s = L.seq(g.resolve(h.iter, h), N)
                if s is not None and len(s) != N - 1: fail("all-legs", h, f"a route with {N} stops is driven in {len(s)} legs")
                if s is None: fail("all-legs", h, "the legs are not those of the route")
    for rule in ("leg-skipped", "leg-once", "initial-leg", "last-leg", "leg-target", "drop-point", "leg-awaited", "arrived", "arrived-after", "position", "arrived-at-once", "all-legs"):
        n, msg = bad.get(rule, (op, "")); ck.ob(rule, nm, rule not in bad, msg, n.loc)
    ck.need(f"legs judged ({kind})", nleg)


def route(ck, g, name, op, h, e, it):
    bt, bn = loop_base(g, h, op)
    if bt is None: return
    if not e:
        txt = {g.r(v, d) for d, v in leaves(g, bt, bn)}
        ck.ob("loaded-route", name, txt <= {r + s for r in it.req for s in (".route", ".get_route()")}, f"the loaded drive follows {sorted(txt)} instead of the route found for the request", h.loc)
        return
    linkg = lambda n, pol: any(("isinstance(" in s and "LinkTransportProcess" in s and not s.startswith("!")) == pol and "LinkTransportProcess" in s for b, s, p in g.guard_atoms(n))
    for d, v in leaves(g, bt, bn):
        if v[0] == "list":
            els = [g.r(x, d) for x in v[1]]
            ok = len(els) == 2 and els[0] == "self._current_locatable" and els[1] in {r + ".origin" for r in it.req}
            ck.ob("direct-route", name, ok, f"the empty drive goes along {els} instead of from the resource to the pick-up point", d.loc)
            ck.ob("direct-only-unlinked", name, any("LinkTransportProcess" in s for s in g.guard_set(d)), "a process bound to links may drive off the links", d.loc)
            ck.ob("direct-only-unlinked", name, not any("LinkTransportProcess" in s and not s.startswith("!") for s in g.guard_set(d)), "a process bound to links drives off the links", d.loc)
        elif v[0] == "call" and g.nodes[v[1]].name == "find_route":
            c = g.nodes[v[1]]; fr = ck.p.func("prodsys.simulation.route_finder.find_route"); a = argmap(c, fr, bound=False); ps = fr.params()
            ck.ob("route-to-origin", name, a.get("find_route_to_origin") is not None and g.r(a["find_route_to_origin"], c) == "True", "the route searched for the empty drive is not the one to the pick-up point", c.loc)
            ck.ob("route-of-request", name, a.get(ps[0]) is not None and g.r(a[ps[0]], c) in it.req, "the route of another request is searched", c.loc)
            ck.ob("route-of-process", name, a.get(ps[1]) is not None and g.r(a[ps[1]], c) in {r + s for r in it.req for s in (".process", ".get_process()")}, "the links of another process are used", c.loc)
            bad = g.path_avoiding(c, h, [x for x in g.nodes if x.kind == "edge" and g.nodes[x.of].kind == "branch" and route_known(g, x, c)])
            ck.ob("no-route-error", name, bad is None, "an empty drive for which no route exists is skipped silently", c.loc)
        else: ck.ob("direct-route", name, False, f"the empty drive follows {g.r(v, d)}", d.loc)


def route_known(g, edge, call):
    t = g.resolve(g.nodes[edge.of].term, g.nodes[edge.of]); pol = bool(edge.label)
    while t[0] == "not": t = t[1]; pol = not pol
    return pol and any(v == ("call", call.id) for v in (t[1] if t[0] == "phi" else (t,)))


def durations(ck):
    """duration of a leg in the transport state"""
    TM = ck.p.cls("prodsys.simulation.time_model.TimeModel")
    for ci in [c for c in ck.p.all_classes() if c.methods.get("process_state") is not None and "empty_transport" in c.methods["process_state"].params()]:
        m = ci.methods["process_state"]; g = ck.graph(m, selfcls=ci, stop=("get_next_time", "get_location", "consider_battery_usage")); name = ci.name + ".process_state"
        rem = set()
        for n in g.calls("timeout"):
            if n.args: rem.add(g.r(n.args[0], n))
        ck.ob("leg-timed", name, len(rem) == 1, f"a leg is not timed by one duration: {sorted(rem)}", m.loc)
        if len(rem) != 1: continue
        rem = next(iter(rem)); P = m.params()
        tm = "self.time_model.get_next_time"
        def waits(n): return n.kind == "yield" or (n.kind == "loophead" and any(y.kind == "yield" and n in g.loops_of(y) for y in g.nodes))
        ps = [p for p in paths(g, stop=waits)]
        bad = {}; judged = 0
        def fail(rule, node, msg): bad.setdefault(rule, (node, msg))
        for p in ps:
            if p.end is g.rexit or any(n.kind == "raise" for n in p.nodes): continue
            skip = False; lit = {}
            for c, pol in p.order:
                s = g.render(c)
                if c[0] == "pcall" and str(c[1][-1]).split(".")[-1] == "hasattr" and pol and c[2][0] == ("attr", ("param", P[0]), "time_model") and c[2][1][0] == "const":
                    a = c[2][1][1]
                    if not any(x.find_field(a) is not None or x.find_method(a) is not None for x in [TM] + list(ck.p.subclasses(TM))): skip = True
                lit[norm_lit(s)] = pol
            if skip: continue
            judged += 1
            v = p.attrs.get(rem)
            l = dict(_lin_of(g, v)) if v is not None else {}
            end = p.nodes[-1]
            tms = [x for x in l if isinstance(x, str) and x.startswith(tm + "(")]
            if len(tms) != 1 or l.get(tms[0]) != 1: fail("distance-time", end, f"the duration of a leg is {l or 'not set'}"); continue
            o, t = f"origin=self.resource.get_location()", f"target={P[1]}"
            args = tms[0][len(tm) + 1:-1]
            if args not in (f"{o}, {t}", f"self.resource.get_location(), {P[1]}", f"self.resource.get_location(), {t}"): fail("from-where-it-is", end, f"the driven distance is taken from {args} instead of from the resource's position to the target of the leg")
            for what, flag, model in (("loading", "initial_transport_step", "self.loading_time_model"), ("unloading", "last_transport_step", "self.unloading_time_model")):
                coef = l.get(model + ".get_next_time()", 0)
                fl, em, mo = lit.get(flag), lit.get("empty_transport"), lit.get(model)
                if coef not in (0, 1): fail("handling-once", end, f"{what} time is counted {coef} times on one leg")
                if coef:
                    if not fl: fail("handling-leg", end, f"{what} time is spent on legs that are not the {'first' if what == 'loading' else 'last'}")
                    if em is not False: fail("handling-loaded", end, f"{what} time is spent on empty drives")
                elif fl is not False and em is not True and mo is not False: fail("handling-spent", end, f"{what} time is not spent on the {'first' if what == 'loading' else 'last'} loaded leg")
            rest = {x: c for x, c in l.items() if x != tms[0] and x not in ("self.loading_time_model.get_next_time()", "self.unloading_time_model.get_next_time()")}
            if rest: fail("nothing-else", end, f"the duration of a leg contains {rest}")
        for rule in ("distance-time", "from-where-it-is", "handling-once", "handling-leg", "handling-loaded", "handling-spent", "nothing-else"):
            n, msg = bad.get(rule, (g.entry, "")); ck.ob(rule, name, rule not in bad, msg, n.loc if rule in bad else m.loc)
        ck.need(f"paths through {name}", judged, 4)


def norm_lit(s):
    import re
    m = re.fullmatch(r"\((?:None is (.*)|(.*) is None)\)", s)
    return s


def _lin_of(g, v):
    from ..lib import _lin
    return _lin(g, v)


def search(ck):
    """route search on links"""
    R = "prodsys.simulation.route_finder."
    fr = ck.p.func(R + "find_route")
    g = ck.graph(fr, stop=("RouteFinder.find_route", "set_route")); name = "find_route"; ps = fr.params()
    flag = "find_route_to_origin"
    ck.ob("route-flag", name, flag in ps, "the search does not distinguish the way to the pick-up point", fr.loc)
    calls = [n for n in g.calls("find_route") if n.id in g.live()]
    ck.need("route search calls", len(calls))
    for n in calls:
        m = ck.p.cls(R + "RouteFinder").find_method("find_route"); a = argmap(n, m)
        for q, w in (("request", ps[0]), ("process", ps[1]), (flag, flag)):
            ck.ob("search-args", f"{name}/{q}", a.get(q) is not None and g.r(a[q], n) == w, f"{q} of the search is {g.r(a[q], n) if a.get(q) is not None else 'missing'}", n.loc)
    for n in returns(g):
        for d, v in leaves(g, n.value, n):
            gs = g.guard_set(d) | g.guard_set(n)
            t = g.r(v, d)
            if t in (ps[0] + ".route", ps[0] + ".get_route()"): ck.ob("cached-only-loaded", name, f"!{flag}" in gs, "the route of the loaded drive is used for the way to the pick-up point", n.loc)
            else: ck.ob("found-route", name, v[0] == "call" and g.nodes[v[1]] in calls or v == ("list", ()), f"{t} is used as route", n.loc)
    for n in g.calls("set_route"):
        ck.ob("kept-only-loaded", name, f"!{flag}" in g.guard_set(n), "the way to the pick-up point is kept as the route of the loaded drive", n.loc)
        t = g.arg(n, 0, "route"); ck.ob("kept-route", name, t is not None and all(v[0] == "call" and g.nodes[v[1]] in calls for d, v in leaves(g, t, n)), "something else than the found route is kept", n.loc)
    RF = ck.p.cls(R + "RouteFinder"); m = RF.find_method("find_route")
    g = ck.graph(m, selfcls=RF, stop=("get_location", "get_input_location", "get_output_location", "find_path", "calculate_cost")); name = "RouteFinder.find_route"
    P = m.params()
    fp = [n for n in g.calls("find_path") if n.id in g.live()]
    gr = [n for n in g.calls("Graph") if n.id in g.live()]
    ck.need("path search", len(fp)); ck.need("route graph", len(gr))
    for n in gr:
        e = n.kw.get("edges") or (n.args[0] if n.args else None); b = n.kw.get("bi_directional")
        ck.ob("both-directions", name, b is not None and g.r(b, n) == "True", "links can only be used in one direction", n.loc)
        els = elements(g, e, n) if e is not None else []
        adds = [x for x in els]
        ck.ob("edges-from-links", name, bool(adds), "the graph has no edges", n.loc)
        for d, v in adds:
            hs = g.loops_of(d)
            h = innermost(g, d)
            ck.ob("edge-per-link", name, h is not None, "not every link becomes an edge", d.loc)
            if h is None: continue
            ex = loop_guards(g, d, h)
            ck.ob("edge-per-link", f"{name}/unconditional", not ex and visits_all(g, h) is None, f"a link only becomes an edge if {sorted(ex)}" if ex else "not all links are visited", d.loc)
            parts = list_parts(g, h.iter, h)
            want = f"{P[2]}.links" if len(P) > 2 else "process.links"
            ok = want in parts
            ck.ob("edges-are-links", name, ok, f"edges are made from {sorted(map(str, parts))}", d.loc)
            t = g.resolve(v, d); s = g.render(t)
            comps = t[1] if t[0] == "tuple" else ()
            # the two ends and the cost of an edge
            uses = []
            for c in comps:
                got = set()
                def pred(x, got=got):
                    if x[0] in ("item", "unpack") and x[1][:1] == ("elem",) and x[1][2] == h.id: got.add(x[2][1] if isinstance(x[2], tuple) else x[2])
                    return False
                flows_from(g, c, d, pred); uses.append(got)
            okc = len(uses) == 3 and uses[0] == {0} and uses[1] == {1} and uses[2] == {0, 1}
            ck.ob("edge-ends", name, okc, f"an edge does not go from the first to the second end of the link with their distance as cost: {uses}", d.loc)
    # links: never changed
    for n, v, t in additions(g):
        if t is not None:
            for d, x in leaves(g, t, n):
                ck.ob("links-unchanged", name, g.r(x, d) != f"{P[2]}.links", "the configured links of the process are extended by the search", n.loc)
    for n in g.nodes:
        if n.kind == "call" and n.name in ("append", "extend", "insert", "remove", "clear", "pop") and n.recv is not None and n.id in g.live():
            for d, x in leaves(g, n.recv, n): ck.ob("links-unchanged", f"{name}/{n.name}", g.r(x, d) != f"{P[2]}.links", "the configured links of the process are changed by the search", n.loc)
    # where the search starts and ends: decided by the flag
    req = P[1]
    sides = {True: (f"{req}.resource.controller._current_locatable", f"{req}.origin"), False: (f"{req}.origin", f"{req}.target")}
    def on(st, n):
        if n.kind == "call" and n.name == "find_path":
            a = list(n.args) + [n.kw.get("start"), n.kw.get("end")]
            st.events.append([g.render(st.close(x)) for x in n.args])
    m2 = RF.find_method("get_route_origin_and_target_locatables")
    if m2 is not None:
        g2 = ck.graph(m2, selfcls=RF); q = m2.params()
        for p in paths(g2):
            if p.end is not g2.exit: continue
            fl = next((pol for c, pol in p.order if g2.render(c) == q[2]), None)
            t = p.close(("var", g2.root.id, "$ret"))
            s = tuple(g2.render(x) for x in t[1]) if t[0] in ("tuple", "list") else None
            w = {k: tuple(x.replace(req, q[1], 1) for x in v) for k, v in sides.items()}
            ck.ob("search-ends", f"{name}/{'to pick-up' if fl else 'loaded'}", fl is not None and s == w[fl], f"the search runs from {s[0] if s else '?'} to {s[1] if s else '?'}", m2.loc)
    # result: in the order of the path
    m3 = RF.find_method("convert_node_path_to_locatable_route")
    if m3 is not None:
        g3 = ck.graph(m3, selfcls=RF); q = m3.params()
        adds = [(n, v) for n, v, t in additions(g3) if t is not None and any(r.kind == "assign" and homes(g3, t, n) & homes(g3, r.value, r) for r in returns(g3))]
        ck.need("route construction", len(adds))
        for n, v in adds:
            hs = [h for h in g3.nodes if h.kind == "loophead" and h in g3.loops_of(n)]
            outer = [h for h in hs if all(h is x or g3.dominates(h, x) for x in hs)]
            o = g3.r(outer[0].iter, outer[0]) if outer and outer[0].iter is not None else ""
            ck.ob("path-order", name, q[1] in o and q[2] not in o, f"the route follows the order of {o} instead of the found path", n.loc)
            gs = g3.guard_set(n)
            ck.ob("path-stops", name, any("node_id" in s and "data.ID" in s and " == " in s and not s.startswith("!") for s in gs), "stops are added that are not on the found path", n.loc)
    # a leg that leaves the links: only the first drive of a resource that is not on a link yet
    for n in returns(ck_g := ck.graph(m, selfcls=RF, stop=("convert_node_path_to_locatable_route", "process_links_to_graph_edges", "find_graphnode_path", "get_route_origin_and_target", "get_route_origin_and_target_locatables"))):
        for d, v in leaves(ck_g, n.value, n):
            if v[0] == "list" and len(v[1]) == 2 and v[1][1][0] == "star": v = ("bin", "+", ("list", v[1][:1]), v[1][1][1])
            if v[0] == "list" and v[1]:
                ck.ob("links-only", name, False, f"the route is {ck_g.r(v, d)}", d.loc)
            elif v[0] == "item": ck.ob("route-complete", name, False, f"the found route is cut: {ck_g.r(v, d)}", d.loc)
            elif v[0] == "bin":
                gs = ck_g.guard_set(d)
                ck.ob("links-only", name, any("isinstance" in s and "TransportResource" in s and not s.startswith("!") for s in gs), "a stop is added to the route although the resource is not the start of the search", d.loc)
                parts = ck_g.render(ck_g.resolve(v[2], d))
                ck.ob("links-only", f"{name}/first", parts.startswith("[") and "_current_locatable" in parts or "get_route_origin_and_target_locatables" in parts, f"{parts} is added to the route", d.loc)


def simple_routes(ck):
    """processes without links drive directly from origin to target; link processes along the found route"""
    base = ck.p.cls("prodsys.simulation.process.Process")
    n = 0
    for c in [base] + list(ck.p.subclasses(base)):
        for m in c.methods.values():
            if m.is_abstract: continue
            g = ck.graph(m, selfcls=c, stop=("find_route", "set_route"))
            for s in g.calls("set_route"):
                if s.id not in g.live(): continue
                n += 1
                t = g.arg(s, 0, "route"); r = g.r(s.recv, s)
                txt = {g.r(v, d) for d, v in leaves(g, t, s)} if t is not None else set()
                ok = all(x == f"[{r}.origin, {r}.target]" or x.startswith("find_route(") for x in txt) and bool(txt)
                ck.ob("route-of-request", m.short, ok, f"the route of a transport is set to {sorted(txt)}", s.loc)
    ck.ob("route-set", "processes", n > 0, "no process sets the route of a direct transport", base.loc)


def resource_position(ck):
    for c in ck.p.all_classes():
        s, gl = c.methods.get("set_location"), c.find_method("get_location")
        if s is None or gl is None: continue
        g = ck.graph(s, selfcls=c); st = [n for n in g.stores() if g.r(n.value, n) == s.params()[1]]
        g2 = ck.graph(gl, selfcls=c)
        got = {g2.r(n.value, n) for n in returns(g2)}
        where = {g.r(n.base, n) + "." + n.attr for n in st}
        canon = lambda xs: {x.replace("self.resource_data.", "self.data.").replace("self.data.", "self.data.") for x in xs}
        ck.ob("position-kept", c.name, bool(st) and canon(got) <= canon(where) and all(g.path_avoiding(g.entry, g.exit, st) is None for _ in (0,)), f"a new position is stored in {sorted(where)} but read from {sorted(got)}", s.loc)


def check(ck):
    for ci in controllers(ck):
        g0 = step_graph(ck, ci, extra=LOC)
        if any("empty_transport" in n.kw for n in opcalls(g0)) or ci.name.startswith("Transport"): legs(ck, ci)
    durations(ck); search(ck); simple_routes(ck); resource_position(ck)
