"""Model of one work step of a controller: retrieval, operation, delivery, completion."""
from ..lib import *
from ..index import AnchorError, FuncInfo

CT = "prodsys.simulation.control."
STOP = ("Queue.get", "Queue.put", "State.process_state", "ProductionState.process_state", "TransportState.process_state", "process_state", "setup", "reserve", "handle_rework_required",
        "wait_for_free_process", "find_route", "prepare_for_run", "log_product", "log_auxiliary", "log_transport", "log_start_process", "charge", "free_up_allocation")
KINDS = ("ProductionController", "BatchController", "TransportController")


def controllers(ck):
    base = ck.p.cls(CT + "Controller")
    out = [c for c in ck.p.subclasses(base) if c.find_method("control_loop") is not None and not c.find_method("control_loop").is_abstract]
    ck.need("controllers", len(out), 3)
    return out


def work_step(ck, ci):
    """the generator the dispatch loop starts as an independent process"""
    loop = ci.find_method("control_loop")
    if loop is None: raise AnchorError(f"{ci.name}.control_loop not found")
    g = ck.graph(loop, selfcls=ci, stop=STOP)
    waited = set()
    for y in g.nodes:
        if y.kind == "yield" and y.id in g.live(): waited |= call_ids(g, y.value, y)
    names = sorted({n.name for n in g.nodes if n.kind == "spawn" and n.id in g.live() and n.id not in waited and ci.find_method(n.name) is not None})
    for n in g.calls("process"):
        if n.id in g.live() and n.id not in waited and len(n.args) == 1:
            for i in call_ids(g, n.args[0], n):
                if ci.find_method(g.nodes[i].name) is not None: names = sorted(set(names) | {g.nodes[i].name})
    if len(names) != 1: raise AnchorError(f"{ci.name}: the started work step is not unique: {names}")
    return ci.find_method(names[0])


def step_graph(ck, ci, extra=(), drop=()):
    return ck.graph(work_step(ck, ci), selfcls=ci, stop=tuple(s for s in STOP if s not in drop) + tuple(extra))


def batchy(ci):
    return ci.find_method("get_batch_size") is not None


def elements(g, t, node, seen=None, depth=0):
    """[(node, term, home)] values that may be elements of a list term; home = node of the list object the element was put into"""
    out = []
    for d, v in leaves(g, t, node):
        k = v[0]
        if k in ("list", "tuple", "set"):
            for x in v[1]:
                if x[0] == "star": out += elements(g, x[1], d, depth=depth + 1)
                else: out.append((d, x))
            if k == "list": out += added(g, d, k, depth)
        elif k == "comp":
            e = g.nodes[g.comps[v[2]]["elt"]]; out.append((e, e.value))
            out += added(g, d, k, depth)
        elif k == "bin" and v[1] == "+" and depth < 8:
            out += elements(g, v[2], d, depth=depth + 1) + elements(g, v[3], d, depth=depth + 1)
        elif k == "call" and g.nodes[v[1]].name in ("list", "tuple", "reversed", "sorted") and g.nodes[v[1]].args:
            c = g.nodes[v[1]]; out += elements(g, c.args[0], c, depth=depth + 1)
    return out


def added(g, d, kind, depth):
    """what is added later to the list object created at d"""
    out = []
    for a, val, tgt in additions(g):
        if tgt is not None and a.kind == "call" and any(dd is d or dd.id == d.id for dd, vv in leaves(g, tgt, a) if vv[0] == kind): out.append((a, val))
    for a in g.calls("extend"):
        if a.recv is not None and a.args and any(dd.id == d.id for dd, vv in leaves(g, a.recv, a) if vv[0] == kind): out += elements(g, a.args[0], a, depth=depth + 1)
    return out


def homes(g, t, node):
    """ids of the defining nodes of the list objects a term denotes"""
    return {d.id for d, v in leaves(g, t, node) if v[0] in ("list", "comp", "call")}


def gets(g):
    """retrievals from queues"""
    return [n for n in g.calls("get") if n.id in g.live() and n.recv is not None and (has_type(g, n, "Queue", "FilterStore") or "filter" in n.kw or (len(n.args) == 1 and n.args[0][0] in ("lambda", "func")))]


def puts(g):
    return [n for n in g.calls("put") if n.id in g.live() and n.recv is not None and (len(n.args) == 1 or "item" in n.kw)]


def call_ids(g, t, node):
    """calls/spawns a scalar term denotes (through variables)"""
    out = set()
    for d, v in leaves(g, t, node):
        if v[0] in ("call", "spawn"): out.add(v[1])
        elif v[0] == "ctxval": out |= call_ids(g, v[1], d)
    return out


def awaited(g, y, events):
    """ids among `events` (call / spawn ids) that have certainly taken effect when the yield y returns"""
    out = set()
    ls = leaves(g, y.value, y)
    stores = [(n, g.r(n.base, n) + "." + n.attr) for n in g.stores() if n.id in g.live()]
    def scalar(d, v):
        if v[0] in ("call", "spawn"):
            if v[1] in events: return {v[1]}
        txt = g.r(v, d)
        r = set()
        for s, name in stores:
            if name == txt:
                ids = call_ids(g, s.value, s)
                r |= {i for i in ids if i in events}
        return r
    for d, v in ls:
        if v[0] == "call" and g.nodes[v[1]].name in ("AllOf", "all_of"):
            c = g.nodes[v[1]]
            la = c.kw.get("events") or (c.args[1] if len(c.args) > 1 else (c.args[0] if c.args else None))
            if la is None: continue
            for n, x in elements(g, la, c):
                for dd, vv in leaves(g, x, n): out |= scalar(dd, vv)
        elif v[0] == "bin" and v[1] == "&": out |= scalar(d, v[2]) | scalar(d, v[3])
        else: out |= scalar(d, v)
    return out


def request_text(g):
    """renderings under which the request taken from the waiting list is known"""
    out = []
    for n in g.calls("pop", "popleft"):
        if n.recv is not None and g.r(n.recv, n).endswith("self.requests") and n.id in g.live(): out.append(n)
    return out


class Items:
    """recognises the item(s) a work step is about"""

    def __init__(self, ck, g, ci):
        self.g = g; self.batch = batchy(ci)
        pops = request_text(g)
        self.pops = pops
        self.req = {g.render(("call", n.id)) for n in pops} | {"self.requests[0]", "self.requests[-1]"}
        self.single = {r + ".product" for r in self.req}
        self.list_homes = set()
        if self.batch:
            # the list of the items that arrived with the retrieval: built from the value sent by the yield
            evs = {n.id for n in gets(g)}
            self.retrieval_yields = [y for y in g.nodes if y.kind == "yield" and y.id in g.live() and awaited(g, y, evs)]
            sent = {y.id for y in self.retrieval_yields}
            for n in list(additions(g)):
                a, val, tgt = n
                if a.id not in g.live(): continue
                if self.from_sent(val, a, sent):
                    if a.kind == "compelt": self.comp_home(a)
                    elif tgt is not None: self.list_homes |= homes(g, tgt, a)

    def comp_home(self, a):
        g = self.g
        for n in g.nodes:
            if n.kind == "assign" and n.get("value") is not None and n.value[0] == "comp" and n.value[2] == a.comp: self.list_homes.add(n.id)

    def from_sent(self, val, node, sent):
        g = self.g
        t = g.resolve(val, node)
        txt = g.render(t)
        return any(("sent(" + g.r(g.nodes[s].value, g.nodes[s]) + ")") in txt for s in sent) and "get_product" in txt or any(("sent(" + g.r(g.nodes[s].value, g.nodes[s]) + ")") in txt and ".products" in txt for s in sent)

    def loop_over_items(self, h):
        """does loop h run over exactly the item(s)? returns None/'literal'/'list'"""
        g = self.g
        if h.iter is None: return None
        for d, v in leaves(g, h.iter, h):
            if v[0] in ("list", "tuple") and v[1]:
                if len(v[1]) == 1 and self.scalar(v[1][0], d) and not [1 for a, val, tgt in additions(g) if tgt is not None and any(dd.id == d.id for dd, _ in leaves(g, tgt, a))]: return "literal"
        hs = homes(g, h.iter, h)
        if hs and hs <= self.list_homes: return "list"
        if h.iter[0] == "tuple" and len(h.iter[1]) > 1 and any(homes(g, x, h) and homes(g, x, h) <= self.list_homes for x in h.iter[1]): return "list"
        for d, v in leaves(g, h.iter, h):
            if v[0] == "call" and g.nodes[v[1]].name in ("zip", "enumerate", "list", "tuple"):
                c = g.nodes[v[1]]
                for a in c.args:
                    hh = homes(g, a, c)
                    if hh and hh <= self.list_homes: return "list"
            if self.positions(d, v): return "list"
        return None

    def positions(self, d, v):
        """range(len(items))"""
        g = self.g
        if v[0] != "call" or g.nodes[v[1]].name != "range" or len(g.nodes[v[1]].args) != 1: return False
        c = g.nodes[v[1]]; d, x = (leaves(g, c.args[0], c) or [(c, c.args[0])])[0]
        if x[0] != "call" or g.nodes[x[1]].name != "len" or len(g.nodes[x[1]].args) != 1: return False
        n = g.nodes[x[1]]; hh = homes(g, n.args[0], n)
        return bool(hh) and hh <= self.list_homes

    def scalar(self, t, node):
        """the term is the item (or, in a batch, an element of the item list)"""
        g = self.g
        r = g.resolve(t, node)
        return self._scalar(r)

    def _scalar(self, r):
        g = self.g
        if not self.batch and g.render(r) in self.single: return True
        while r[0] == "index" or (r[0] == "sub" and r[2][0] == "const"): r = r[1]
        if r[0] in ("item", "sub") and len(r) > 2 and isinstance(r[2], tuple) and r[2][0] == "elem" and isinstance(r[2][2], int):
            h = g.nodes[r[2][2]]
            for d, v in leaves(g, h.iter, h) if h.kind == "loophead" and h.iter is not None else []:
                if self.positions(d, v):
                    n = g.nodes[leaves(g, g.nodes[v[1]].args[0], g.nodes[v[1]])[0][1][1]]
                    return g.r(n.args[0], n) == g.render(r[1])
        if r[0] == "elem":
            h = g.nodes[r[2]] if len(r) > 2 and isinstance(r[2], int) else None
            if h is not None and h.kind == "loophead": return self.loop_over_items(h) is not None
        return False

    def attr(self, t, node, attrs):
        """the term is <item>.<attr>"""
        r = self.g.resolve(t, node)
        return r[0] == "attr" and r[2] in attrs and self._scalar(r[1])

    def marks(self, n):
        """(mark node, problem): the node at which the event n has happened for every item"""
        g = self.g
        hs = [h for h in g.loops_of(n) if h.iter is not None and self.loop_over_items(h)]
        if not hs: return n, None
        outer = min(hs, key=lambda h: sum(g.dominates(x, h) for x in hs))
        for h in hs:
            esc = visits_all(g, h)
            if esc is not None: return done_edge(g, outer), f"the loop over the items is left early ({esc.loc})"
        return done_edge(g, outer), None

    def guards_in_loop(self, n):
        """conditions inside the item loops under which n happens"""
        g = self.g
        hs = [h for h in g.loops_of(n) if h.iter is not None and self.loop_over_items(h)]
        return {l for h in hs for l in loop_guards(g, n, h)} if hs else set()
