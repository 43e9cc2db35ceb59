"""P16 Dispatching and routing rules only reorder, by the stated criterion."""
TECHNIQUE = "effect analysis of every configured policy on the list it is given, with path-wise normal forms of its sort keys compared with the criterion its name states, and a scan of every mutation of a controller's waiting list"
NOTE = "The agent policies of the gym environments (not selectable in a configuration) are outside; the stability of list.sort and the uniformity of random.shuffle are trusted."
from ..lib import *
from ..peval import paths
from ..index import FuncInfo

S = "prodsys.simulation."
REORDER = {"sort", "reverse"}


# ---- tables -------------------------------------------------------------------------------------------------------------
def table(ck, mod, name):
    """{key: function} of a module level dictionary (literal, dict(...) or filled by item assignments)"""
    md = ck.p.mod(mod); v = md.consts.get(name)
    if v is None: raise AnchorError(f"{mod}.{name}")
    out = {}
    def put(k, f):
        r = md.resolve_expr(f); out[keyname(k)] = r[1] if r and r[0] == "func" else None
    def keyname(k):
        if isinstance(k, ast.Constant): return str(k.value)
        r = md.resolve_expr(k)
        if isinstance(k, ast.Attribute):
            c = md.resolve_expr(k.value)
            if c and c[0] == "class": return str(ck.p.enum_values(c[1]).get(k.attr, k.attr))
        return ast.unparse(k)
    if isinstance(v, ast.Dict):
        for k, f in zip(v.keys, v.values):
            if k is not None: put(k, f)
    elif isinstance(v, ast.Call):
        for a in v.args:
            if isinstance(a, ast.Dict):
                for k, f in zip(a.keys, a.values): put(k, f)
        for k in v.keywords:
            if k.arg: put(ast.Constant(k.arg), k.value)
    for st in md.tree.body:
        if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Subscript) and getattr(st.targets[0].value, "id", None) == name: put(st.targets[0].slice, st.value)
    return out


# ---- keys ---------------------------------------------------------------------------------------------------------------
def keyfunc(ck, g, t, mod):
    """FuncInfo of a sort key"""
    if t[0] == "lambda":
        e, c = g.lams[t[1]]
        fd = ast.FunctionDef(name="<key>", args=e.args, body=[ast.copy_location(ast.Return(value=e.body), e)], decorator_list=[], returns=None, type_comment=None, type_params=[])
        ast.copy_location(fd, e); ast.fix_missing_locations(fd)
        return FuncInfo(fd, c.mod, None)
    if t[0] == "func": return t[1] if isinstance(t[1], FuncInfo) else ck.p.func(t[1])
    if t[0] == "localfunc":
        c = g.ctxs[t[1]]; return FuncInfo(c.localfuncs[t[2]], c.mod, None)
    return None


def callname(t): return str(t[1][2] if t[1][0] == "attr" else t[1][-1]).split(".")[-1] if t[0] == "pcall" else ""


def qlen(g, t):
    """'X.input_queues' if t is the number of items in all these queues (X is the render of the owner)"""
    if t[0] == "pcall" and callname(t) in ("get_input_queue_length", "get_output_queue_length") and t[1][0] == "attr" and not t[2]:
        return g.render(t[1][1]) + (".input_queues" if "input" in callname(t) else ".output_queues")
    if t[0] == "pcall" and callname(t) == "sum" and len(t[2]) == 1 and t[2][0][0] == "comp":
        info = g.comps[t[2][0][2]]; n = g.nodes[info["elt"]]
        if len(info["heads"]) != 1: return None
        h = g.nodes[info["heads"][0]]; v = g.resolve(n.value, n)
        if any(g.nodes[e.of].kind == "branch" and g.dominates(h, g.nodes[e.of]) for e in g.guards(n)): return None
        it = g.render(g.resolve(h.iter, h))
        if g.render(v) in (f"len(elem({it}).items)",): return it
    return None


def component(g, t, p):
    """(sign, canonical text) of a sort key component on path p"""
    sign = 1
    while True:
        if t[0] == "neg": sign = -sign; t = t[1]
        elif t[0] == "bin" and t[1] == "-" and t[2] in (("const", 0), ("const", 0.0)): sign = -sign; t = t[3]
        elif t[0] == "bin" and t[1] == "*" and t[2] == ("const", -1): sign = -sign; t = t[3]
        elif t[0] == "bin" and t[1] == "*" and t[3] == ("const", -1): sign = -sign; t = t[2]
        else: break
    q = qlen(g, t)
    if q: return sign, ("queue", q)
    if t[0] == "pcall" and callname(t) == "len" and len(t[2]) == 1:
        s = g.render(t[2][0])
        return sign, ("len", s.replace(".get_controller()", ".controller"))
    if t[0] == "pcall" and callname(t) == "get_expected_process_time" and t[1][0] == "attr":
        return sign, ("time", g.render(t[1][1]), tuple(place(g, x, p) for x in t[2]) + tuple((k, place(g, x, p)) for k, x in t[3]))
    return sign, ("term", g.render(t))


def place(g, t, p):
    """(owner, 'output'|'input'|'plain', right) of a location term; right: the method fits what the path knows about the owner"""
    if t[0] == "pcall" and t[1][0] == "attr" and callname(t) in ("get_location", "get_output_location", "get_input_location"):
        b = g.render(t[1][1]); m = callname(t); role = b.split(".")[-1]
        cs = left(p, b, p.roles.get(role, []))
        special = [c for c in cs if c.find_method("get_output_location") is not None]
        if m == "get_location": return b, "plain" if not special else "wrong"
        return b, ("output" if m == "get_output_location" else "input") if len(special) == len(cs) else "unchecked"
    return g.render(t), "?"


def keys(ck, name, g, t, mod, roles):
    """per path of the key function: list of (components, path)"""
    fi = keyfunc(ck, g, t, mod)
    if fi is None: return None
    gk = ck.graph(fi, inline=lambda f: f.cls is None)
    par = fi.params()[0]; out = []
    for p in paths(gk):
        if p.end is not gk.exit: continue
        v = p.close(("var", gk.root.id, "$ret")); p.roles = roles
        if not all(left(p, f"{par}.{r}", cs) for r, cs in roles.items()): continue          # no request looks like this
        miss = [x for n in p.nodes if n.kind == "assign" and p.close(n.value)[0] in ("missing", "undef") for x in [n]]
        comps = [component(gk, x, p) for x in (v[1] if v[0] in ("tuple", "list") else [v])]
        comps = [(s, tuple(sub(c, par))) for s, c in comps]
        out.append((comps, p, bool(miss), gk))
    return out


def sub(c, par):
    import re
    f = lambda s: re.sub(rf"\b{re.escape(par)}\b", "x", s)
    for y in c:
        if isinstance(y, str): yield f(y)
        elif isinstance(y, tuple): yield tuple(sub(y, par))
        else: yield y


# ---- effects ------------------------------------------------------------------------------------------------------------
def ops(ck, fi, g, p, par):
    """reordering steps carried out on the list along a path; anything else that changes it is returned as ('bad', text)"""
    out = []; st = p
    def on(n, close):
        if n.kind == "call":
            recv = close(n.recv) if getattr(n, "recv", None) else None
            r = g.render(recv) if recv else ""
            if recv == ("param", par):
                if n.name == "sort":
                    kw = dict((str(k), v) for k, v in n.kw.items()); out.append(("sort", close(kw["key"]) if "key" in kw else None, close(kw["reverse"]) if "reverse" in kw else ("const", False), n))
                elif n.name == "reverse": out.append(("reverse", n))
                elif n.name in ("index", "count", "copy"): pass
                else: out.append(("bad", f"{n.name}() on the list", n))
            elif n.name == "shuffle" and n.args and close(n.args[0]) == ("param", par):
                f = g.render(close(n.func)) if n.func else ""
                out.append(("shuffle", f, n))
            elif recv is not None and r.startswith(("elem(" + par, par + "[")) and not n.name.startswith(("get_", "is_", "has_")):
                out.append(("bad", f"{n.name}() on a request", n))
        elif n.kind == "store":
            b = g.render(close(n.base))
            out.append(("bad", f"{b}.{n.attr} is assigned", n))
        elif n.kind == "substore" and close(n.base) == ("param", par):
            v = close(n.value); ix = close(n.index)
            if ix[0] == "slice" and all(x == ("const", None) for x in ix[1:]) and v[0] == "pcall":
                a = v[2][0] if v[2] else None; kw = dict(v[3])
                while a is not None and a[0] == "pcall" and callname(a) in ("list", "tuple", "copy"): a = a[2][0] if a[2] else None
                if callname(v) == "sorted" and a == ("param", par): out.append(("sort", kw.get("key"), kw.get("reverse", ("const", False)), n)); return
                if callname(v) in ("reversed", "list") and a == ("param", par): out.append(("reverse", n)); return
            out.append(("bad", "elements are assigned", n))
        elif n.kind == "del" and any(close(x) == ("param", par) for x in (getattr(n, "base", None),) if x): out.append(("bad", "elements are deleted", n))
    return out, on


def run_policy(ck, fi):
    g = ck.graph(fi, inline=lambda f: f.cls is None and f.name != "get_location")
    par = fi.params()[0]; res = []
    def cb(st, n):
        o, on = ops(ck, fi, g, st, par); on(n, st.close); st.events += o
    bad = []
    for p in paths(g, on=cb, consistent=False):
        bad += [o for o in p.events if o[0] == "bad"]
    for p in paths(g, on=cb):
        if p.end is g.exit: p.events += [o for o in bad if o not in p.events]; res.append(p)
    return g, par, res


ARR = [(1, ("term", "x.arrival"))]
TRANS_T = ("time", "x.process", (("x.origin", "O"), ("x.target", "I")))
NEAR_T = ("time", "x.process", (("x.resource", "P"), ("x.origin", "O")))
CONTROL = {
    "FIFO": ("arrival, first come first", None),
    "LIFO": ("arrival, last come first", [(-1, ("term", "x.arrival"))]),
    "SPT": ("expected process time, ascending", [(1, ("time", "x.process", ()))]),
    "SPT_transport": ("expected time from the request's pick-up point to its drop point, ascending", [(1, TRANS_T)]),
    "Nearest_origin_and_longest_target_queues_transport": ("expected time from the transport resource to the pick-up point, then longest target output queue", [(1, NEAR_T), (-1, ("queue", "x.target.output_queues"))]),
    "Nearest_origin_and_shortest_target_input_queues_transport": ("expected time from the transport resource to the pick-up point, then shortest target input queue", [(1, NEAR_T), (1, ("queue", "x.target.input_queues"))]),
}


def fits(c, w):
    """component c (with places) fits the wanted component w"""
    if c[0] != w[0]: return False
    if c[0] != "time": return c == w
    if c[1] != w[1] or len(c[2]) != len(w[2]): return False
    for a, (o, k) in zip(c[2], w[2]):
        if len(a) == 2 and a[0] in ("origin", "target"): a = a[1]
        if a[0] != o: return False
        if k == "P" and a[1] not in ("plain",): return False
        if k == "O" and a[1] not in ("plain", "output"): return False
        if k == "I" and a[1] not in ("plain", "input"): return False
    return True


def direction(comps, rev): return [(-s if rev else s, c) for s, c in comps]


def show(comps): return ", ".join(f"{'-' if s < 0 else ''}{' '.join(map(str, c))}" for s, c in comps)


def order_of(ck, name, g, fi, p, roles):
    """('arrival'|'random'|[components per key path], ...) the order the list ends in"""
    cur = ("arrival",)
    for o in p.events:
        if o[0] == "shuffle": cur = ("random", o)
        elif o[0] == "reverse": cur = ("reversed", cur)
        elif o[0] == "sort":
            if o[1] is None: return ("unknown", "sorted without a key")
            rev = o[2]
            if rev[0] != "const": return ("unknown", "sorted in a varying direction")
            ks = keys(ck, name, g, o[1], fi.mod, roles)
            if not ks: return ("unknown", "sort key not understood")
            cur = ("sorted", [(direction(c, bool(rev[1])), kp, miss, gk) for c, kp, miss, gk in ks], cur)
    return cur


def combined(o):
    """sorting is stable: an earlier sort breaks the ties of a later one"""
    if o[0] != "sorted": return o
    prev = combined(o[2])
    if prev[0] != "sorted": return ("sorted", o[1], prev)
    return ("sorted", [(c + c2, p, m or m2, g) for c, p, m, g in o[1] for c2, p2, m2, g2 in prev[1]] + [([], p2, m2, g2) for _, p2, m2, g2 in prev[1]][:0], prev[2])


def control_policies(ck):
    tab = table(ck, "prodsys.factories.resource_factory", "CONTROL_POLICY_DICT")
    ck.need("control policies", len(tab), 5)
    arrival = False; trans = {str(v) for v in ck.p.enum_values(ck.p.cls("prodsys.models.resource_data.TransportControlPolicy")).values()}
    prod = {str(v) for v in ck.p.enum_values(ck.p.cls("prodsys.models.resource_data.ResourceControlPolicy")).values()}
    for name, fi in tab.items():
        if fi is None: ck.ob("policy-known", name, False, "the control policy is not a plain function", ck.p.mod("prodsys.factories.resource_factory").rel); continue
        g, par, ps = run_policy(ck, fi)
        ck.need(f"paths of {fi.short}", len(ps))
        for p in ps:
            for o in p.events:
                if o[0] == "bad": ck.ob("only-reorders", name, False, f"the policy does more than reorder: {o[1]}", o[-1].loc)
            ck.ob("only-reorders", name, not any(o[0] == "bad" for o in p.events), "the policy does more than reorder the list", fi.loc)
            got = combined(order_of(ck, name, g, fi, p, roles_of(ck, name in trans, name in prod)[1]))
            if name not in CONTROL: ck.ob("criterion", name, got[0] in ("sorted", "arrival"), f"the order is {got[0]}", fi.loc); continue
            text, want = CONTROL[name]
            if got[0] == "sorted":
                for comps, kp, miss, gk in got[1]:
                    ck.ob("key-computable", name, not miss, "an argument is missing where the sort key is computed", fi.loc)
                    w = want if want is not None else ARR
                    ok = len(comps) == len(w) and all(s == ws and fits(c, wc) for (s, c), (ws, wc) in zip(comps, w))
                    ck.ob("criterion", name, ok, f"requests are ordered by {show(comps)} instead of by {text}", fi.loc)
                    arrival |= any(c == ("term", "x.arrival") for _, c in comps)
                    kinds(ck, name, gk, kp, name in trans, name in prod, fi)
                prev = got[2]
                while prev[0] in ("sorted", "reversed"): prev = prev[-1]
                ck.ob("ties-by-arrival", name, prev[0] in ("arrival", "random"), "ties are broken by something else than arrival or seeded randomness", fi.loc)
                if prev[0] == "random": seeded(ck, name, prev[1], fi)
            elif got[0] == "arrival": ck.ob("criterion", name, want is None, f"requests stay in order of arrival instead of being ordered by {text}", fi.loc)
            elif got[0] == "reversed": ck.ob("criterion", name, False, "the waiting list itself is reversed: it keeps its order, so the next decision reverses it back", fi.loc)
            else: ck.ob("criterion", name, False, f"the order is {got[-1] if got[0] == 'unknown' else got[0]} instead of {text}", fi.loc)
    return arrival


def seeded(ck, name, o, fi):
    ck.ob("seeded-randomness", name, o[1] in ("random.shuffle", "numpy.random.shuffle"), f"randomness comes from {o[1]}, which is not seeded with the run", fi.loc)


def attrs_of(ci):
    out = set()
    for c in ci.mro():
        out |= set(c.fields) | set(c.methods)
        for m in c.methods.values():
            for n in ast.walk(m.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == "self": out.add(n.attr)
        for st in c.node.body:
            if isinstance(st, ast.Assign): out |= {t.id for t in st.targets if isinstance(t, ast.Name)}
            if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name): out.add(st.target.id)
    return out


def roles_of(ck, transport, production):
    C = lambda q: ck.p.cls(S + q)
    req = ([C("request.TransportResquest")] if transport else []) + ([C("request.Request")] if production else [])
    roles = {}
    if transport:
        roles = {"target": [C("resources.ProductionResource"), C("sink.Sink"), C("store.Store")], "origin": [C("resources.ProductionResource"), C("source.Source"), C("store.Store")], "resource": [C("resources.TransportResource")],
                 "process": [C("process.TransportProcess"), C("process.LinkTransportProcess")]}
    if production:
        roles.setdefault("resource", []).append(C("resources.ProductionResource"))
        roles.setdefault("process", []).extend([C("process.ProductionProcess"), C("process.CapabilityProcess"), C("process.ReworkProcess")])
    return req, roles


def left(p, base, classes):
    """the classes an object can have on this path, after its isinstance / hasattr tests"""
    import re
    for s, val in p.lits.items():
        if f"isinstance({base}," in s:
            names = set(re.findall(r"\w+", s.split(base, 1)[1]))
            classes = [c for c in classes if any(x.name in names for x in c.mro()) == val]
        elif f"hasattr({base}," in s:
            names = set(re.findall(r"\w+", s.split(base, 1)[1]))
            classes = [c for c in classes if any(c.find_method(x) is not None for x in names) == val]
    return classes


def kinds(ck, name, g, p, transport, production, fi):
    """everything the key uses exists for every kind of request the policy can meet"""
    req, roles = roles_of(ck, transport, production)
    par = g.fn.params()[0]; bad = []
    v = p.close(("var", g.root.id, "$ret"))
    for t in walk(v):
        if t[0] == "attr" and t[1] == ("param", par):
            for c in req:
                if t[2] not in attrs_of(c): bad.append(f"{c.name} has no {t[2]}")
        if t[0] == "pcall" and t[1][0] == "attr" and t[1][1][0] == "attr" and t[1][1][1] == ("param", par) and t[1][1][2] in roles:
            role = t[1][1][2]
            for c in left(p, g.render(t[1][1]), roles[role]):
                m = c.find_method(t[1][2])
                if m is None: bad.append(f"{c.name} (as {role}) has no {t[1][2]}()"); continue
                a = m.node.args; n = len(t[2]) + len(t[3])
                req_n = len(a.args) - 1 - len(a.defaults)
                if n < req_n or (n > len(a.args) - 1 and a.vararg is None): bad.append(f"{c.name}.{t[1][2]}() does not take {n} arguments")
    ck.ob("works-for-every-request", name, not bad, "; ".join(sorted(set(bad))), fi.loc)


def walk(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str): yield t
        for x in t: yield from walk(x)


def queue_lengths(ck):
    """the queue lengths policies ask for are what they say"""
    R = ck.p.cls(S + "resources.Resource")
    for m, q in (("get_input_queue_length", "self.input_queues"), ("get_output_queue_length", "self.output_queues")):
        for ci in [R] + ck.p.subclasses(R):
            fi = ci.methods.get(m)
            if fi is None: continue
            g = ck.graph(fi, selfcls=ci)
            for p in paths(g):
                if p.end is not g.exit: continue
                v = p.close(("var", g.root.id, "$ret")); got = qlen(g, v)
                if got is None:
                    from ..alg import Interp, Rat, same
                    got = q if looped(g, q) else None
                ck.ob("queue-length", f"{ci.name}.{m}", got == q, f"the queue length is {g.render(v)[:100]}", fi.loc)


def looped(g, q):
    """total += len(queue.items) for every queue"""
    heads = [n for n in g.nodes if n.kind == "loophead" and n.iter is not None and n.id in g.live()]
    if len(heads) != 1 or g.r(heads[0].iter, heads[0]) != q or visits_all(g, heads[0]) is not None: return False
    adds = [n for n in g.nodes if n.kind == "assign" and n.id in g.live() and innermost(g, n) is heads[0] and n.value[0] == "bin"]
    return len(adds) == 1 and adds[0].value[1] == "+" and not loop_guards(g, adds[0], heads[0]) and f"len(elem({q}).items)" in g.r(adds[0].value, adds[0])


# ---- routing ------------------------------------------------------------------------------------------------------------
def routing(ck):
    tab = table(ck, S + "router", "ROUTING_HEURISTIC")
    ck.need("routing heuristics", len(tab), 3)
    for name, fi in tab.items():
        if fi is None: ck.ob("policy-known", name, False, "the routing heuristic is not a plain function", ck.p.mod(S + "router").rel); continue
        g, par, ps = run_policy(ck, fi); ck.need(f"paths of {fi.short}", len(ps)); seen = set()
        for p in ps:
            bad = [o for o in p.events if o[0] == "bad"]
            ck.ob("only-reorders", name, not bad, f"the heuristic does more than reorder: {bad[0][1] if bad else ''}", bad[0][-1].loc if bad else fi.loc)
            got = combined(order_of(ck, name, g, fi, p, {}))
            for o in p.events:
                if o[0] == "shuffle": seeded(ck, name, o, fi)
            if name == "FIFO": ck.ob("criterion", name, got[0] == "arrival", "candidates do not keep their order", fi.loc)
            elif name == "random": ck.ob("criterion", name, got[0] == "random", "the last step does not shuffle the candidates", fi.loc)
            elif name == "shortest_queue":
                if got[0] != "sorted": ck.ob("criterion", name, False, f"candidates are left in {got[0]} order", fi.loc); continue
                notprod = any("isinstance(" in s and "ProductionResource" in s and v is False for s, v in p.lits.items())
                for comps, kp, miss, gk in got[1]:
                    ok = len(comps) >= 1 and comps[0][0] == 1
                    c = comps[0][1] if comps else ()
                    if c == ("queue", "x.resource.input_queues"): seen.add("queue"); ok = ok and not notprod
                    elif c == ("len", "x.resource.controller.requests"): seen.add("requests"); ok = ok and notprod
                    else: ok = False
                    ck.ob("criterion", name, ok, f"candidates are ordered by {show(comps)} instead of by the length of their input queues (waiting requests for transport resources)", fi.loc)
            else: ck.ob("criterion", name, got[0] != "unknown", "the order is not understood", fi.loc)
        if name == "shortest_queue": ck.ob("criterion", f"{name}/kinds", seen == {"queue", "requests"}, f"only {sorted(seen)} are compared", fi.loc)
    # the first candidate is chosen afterwards
    Rt = ck.p.cls(S + "router.Router"); n = 0
    for m in Rt.methods.values():
        if not any(isinstance(x, ast.Attribute) and x.attr == "routing_heuristic" for x in ast.walk(m.node)) or m.name == "__init__": continue
        g = ck.graph(m, selfcls=Rt)
        for c in g.calls("routing_heuristic"):
            if c.id not in g.live(): continue
            n += 1; L = g.r(c.args[0], c) if c.args else ""
            key = c.args[0]
            picks = []; wrong = []
            for q in g.nodes:
                if q.id not in g.live() or not g.dominates(c, q): continue
                if q.kind == "call" and getattr(q, "recv", None) and g.r(q.recv, q) == L:
                    if q.name in ("pop", "popleft", "__getitem__"): (picks if q.name == "popleft" or (q.args and q.args[0] == ("const", 0)) else wrong).append(q)
                    elif q.name in ("sort", "reverse"): wrong.append(q)
                if q.kind == "call" and q.name in ("choice", "shuffle", "sample", "sorted", "min", "max") and q.args and g.r(q.args[0], q) == L: wrong.append(q)
                for t in [getattr(q, "value", None)] + list(getattr(q, "args", None) or []):
                    if t is None: continue
                    for s in walk(g.resolve(t, q)):
                        if s[0] == "item" and g.render(s[1]) == L:
                            # a part from the front keeps the order
                            if s[2][0] == "slice" and s[2][1] in (None, ("const", None), ("const", 0)) and s[2][3] in (None, ("const", None), ("const", 1)): continue
                            (picks if s[2] == ("const", 0) else wrong).append(q)
                        if s[0] == "call" and g.nodes[s[1]].name == "next" and g.nodes[s[1]].args and L in g.r(g.nodes[s[1]].args[0], g.nodes[s[1]]): picks.append(q)
                        if s[0] == "unpack" and g.render(s[1]) == L and s[2] == 0: picks.append(q)
                if q.kind == "loophead" and q.iter is not None and g.r(q.iter, q) == L: picks.append(q)
            ck.ob("first-is-chosen", f"Router.{m.name}", bool(picks) and not wrong, "the candidate chosen after ordering is not the first one", (wrong or [c])[0].loc)
    ck.need("uses of the routing heuristic", n)


# ---- the waiting list ---------------------------------------------------------------------------------------------------
MUT = {"append", "insert", "extend", "pop", "remove", "clear", "sort", "reverse", "appendleft", "popleft", "rotate"}


def waiting_list(ck, arrival):
    Co = ck.p.cls(S + "control.Controller"); n = 0; ap = []
    for mod in ck.p.modules.values():
        if not mod.name.startswith("prodsys.simulation"): continue
        for fi in funcs(mod):
            for x in ast.walk(fi):
                loc = f"{mod.rel}:{getattr(x, 'lineno', 0)}"
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUT and isinstance(x.func.value, ast.Attribute) and x.func.value.attr == "requests":
                    n += 1; f = x.func.attr
                    if f == "append": ap.append((mod, fi, x))
                    elif f == "pop": ck.ob("first-is-served", fi.name, len(x.args) == 1 and isinstance(x.args[0], ast.Constant) and x.args[0].value == 0, "the request taken from the waiting list is not the first one", loc)
                    elif f == "popleft": ck.ob("first-is-served", fi.name, True, "", loc)
                    elif f == "remove": ck.ob("first-is-served", fi.name, first_removed(fi, x), "a request other than the first one is taken from the waiting list", loc)
                    else: ck.ob("waiting-list-untouched", fi.name, False, f"the waiting list is changed outside of the control policy ({f})", loc)
                if isinstance(x, (ast.Assign, ast.AugAssign)):
                    for t in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                        if isinstance(t, ast.Attribute) and t.attr == "requests": ck.ob("waiting-list-untouched", fi.name, False, "the waiting list is replaced", loc)
                        if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Attribute) and t.value.attr == "requests": ck.ob("waiting-list-untouched", fi.name, False, "entries of the waiting list are replaced", loc)
    ck.need("changes of the waiting list", n, 3)
    ck.ob("appended-at-end", "Controller", bool(ap), "requests are never appended to the waiting list", Co.loc)
    # the policy orders the list itself, before every start
    for ci in ck.p.subclasses(Co):
        if ci is Co: continue
        m = ci.find_method("control_loop")
        if m is None or m.is_abstract: continue
        g = ck.graph(m, selfcls=ci, stop=("start_process", "charge"))
        pol = [c for c in g.calls("control_policy") if c.id in g.live()]
        starts = [c for c in g.nodes if c.kind in ("spawn", "call") and c.name == "start_process" and c.id in g.live()]
        ck.ob("policy-applied", ci.name, bool(pol), "the control policy is never applied", m.loc)
        ck.need(f"starts of {ci.name}", len(starts))
        for c in pol:
            ck.ob("policy-on-waiting-list", ci.name, len(c.args) == 1 and g.r(c.args[0], c) == "self.requests" and g.resolve(c.args[0], c)[0] == "attr", f"the control policy orders {g.r(c.args[0], c) if c.args else 'nothing'} instead of the waiting list", c.loc)
        for s in starts:
            dom = any(g.dominates(c, s) for c in pol)
            again = any(g.path_avoiding(s, s2, pol) is not None for s2 in starts)
            waits = any(y.kind == "yield" and any(g.dominates(c, y) and g.dominates(y, s) for c in pol) for y in g.nodes)
            ck.ob("policy-before-start", ci.name, dom and not again and not waits, "work is started without the control policy having just ordered the waiting list", s.loc)
    if arrival:
        m = Co.find_method("request"); g = ck.graph(m, selfcls=Co)
        st = [s for s in g.stores("arrival") if s.id in g.live()]
        aps = [n for n in g.nodes if n.kind == "call" and n.name == "append" and g.r(n.recv, n) == "self.requests" and n.id in g.live()]
        ck.ob("arrival-recorded", "Controller.request", bool(st) and bool(aps), "requests are ordered by an arrival that is never recorded", m.loc)
        for a in aps:
            who = g.r(a.args[0], a)
            mine = [s for s in st if g.r(s.base, s) == who]
            ck.ob("arrival-recorded", "Controller.request/each", any(g.dominates(s, a) or g.dominates(a, s) for s in mine), "a request joins the waiting list without its arrival being recorded", a.loc)
        for p in paths(g):
            if p.end is not g.exit: continue
            stc = [x for x in p.nodes if x in st]
            ok = False
            for x in stc:
                # the counter is stored increased on this path, and the arrival is its value before or after
                q = [k for k in p.attrs if k.startswith("self.") and p.attrs[k][0] == "bin" and p.attrs[k][1] == "+" and p.g.render(("bin", "+", ("attr", ("param", "self"), k[5:]), ("const", 1))) == p.g.render(p.attrs[k])]
                val = next((v for k, v in p.attrs.items() if k.endswith(".arrival")), None)
                ok |= any(val is not None and p.g.render(val) in (k, p.g.render(p.attrs[k])) for k in q) or (val is not None and val[0] == "pcall" and callname(val) == "next")
                ok |= val is not None and p.g.render(val) in ("self.env.now",) and False
            ck.ob("arrival-increases", "Controller.request", ok, "arrivals are not numbered in ascending order", m.loc)
        for mod in ck.p.modules.values():
            for fi in funcs(mod):
                for x in ast.walk(fi):
                    if isinstance(x, ast.Attribute) and x.attr == "arrival" and isinstance(x.ctx, ast.Store) and fi.name != m.name and mod.name.startswith("prodsys.simulation"):
                        known = any(h is fi for h in (f.node for f in Co.methods.values()))
                        if not known: ck.ob("arrival-fixed", fi.name, False, "a request's arrival is changed", f"{mod.rel}:{x.lineno}")


def first_removed(fi, x):
    a = x.args[0] if x.args else None
    def first(e): return isinstance(e, ast.Subscript) and isinstance(e.value, ast.Attribute) and e.value.attr == "requests" and isinstance(e.slice, ast.Constant) and e.slice.value == 0
    if first(a): return True
    if isinstance(a, ast.Name):
        ds = [y.value for y in ast.walk(fi) if isinstance(y, ast.Assign) and any(isinstance(t, ast.Name) and t.id == a.id for t in y.targets)]
        return bool(ds) and all(first(d) for d in ds)
    return False


def funcs(mod):
    for n in ast.walk(mod.tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)): yield n


def check(ck):
    arrival = control_policies(ck)
    queue_lengths(ck); routing(ck); waiting_list(ck, arrival)
