"""P33 Observers report the present."""
TECHNIQUE = "query over the inlined graphs of all observations: completeness of the sweep, count of the entries per element, provenance of every field of an entry, effects"
NOTE = "That the pieces of state an observer reads (slot, recorded location, last event) are themselves right is P03, P04, P07."
import ast, re
from ..lib import *
from .p23 import per_pass, complete

MOD = "prodsys.simulation.observer"
MUT = {"append", "extend", "insert", "remove", "pop", "popleft", "clear", "update", "setdefault", "add", "discard", "put", "get", "succeed", "fail", "interrupt", "reserve", "unreserve", "sort", "reverse", "process"}
SLOT = "elem(self.resource.production_states)"


def added(g):
    """additions and x += [entry]"""
    out = list(additions(g))
    for n in g.nodes:
        if n.kind == "assign" and n.value[0] == "bin" and n.value[1] == "+":
            for x, y in (n.value[2:4], n.value[3:1:-1]):
                if x[0] == "list" and len(x[1]) == 1: out.append((n, x[1][0], y))
    return out


def unfold(g, h, subs):
    """what a loop visits, through collections that were filled before: ([outer collections], conditions, [(loop, place)])"""
    text = g.r(h.iter, h); d, v = (leaves(g, h.iter, h) or [(h, h.iter)])[0]
    many = len(leaves(g, h.iter, h)) != 1
    if v[0] == "call" and g.nodes[v[1]].name in ("list", "tuple", "iter") and len(g.nodes[v[1]].args) == 1:
        n = g.nodes[v[1]]; d, v = (leaves(g, n.args[0], n) or [(n, n.args[0])])[0]
    got, cond, at = [], set(), []
    def inner(n, hs):
        for x in hs:
            a, b, c = unfold(g, x, subs); got.extend(a); cond.update(b); at.extend(c); at.append((x, n))
        cond.update(subst(("" if pol else "!") + q, subs) for x in hs for b, q, pol in g.guard_atoms(n) if g.dominates(x, b))
    if v[0] == "comp" and not many:
        c = g.comps[v[2]]; e = g.nodes[c["elt"]]
        inner(e, [g.nodes[x] for x in c["heads"]])
        subs.append((f"elem({text})", subst(g.r(e.value, e), subs)))
        return got, cond, at
    f = re.fullmatch(r"filter\(lambda (.*?), ([^,]*)\)", g.r(v, d))
    if f and "$0" in f.group(1):
        x = subst(f.group(2), subs); subs.append((f"elem({text})", f"elem({x})"))
        return [x], {f.group(1).replace("$0", f"elem({x})")}, at
    if v[0] == "list" and not v[1] and not many and h.iter[0] == "var":
        fills = [n for n in g.nodes if n.kind == "call" and n.id in g.live() and n.name in ("append", "extend") and n.recv is not None and n.recv[0] == "var" and any(x.value is v or x.value == v for x in g.rd(tuple(n.recv[1:]), n)) and n.recv == h.iter and g.reaches(n, h)]
        if len(fills) == 1:
            n = fills[0]; inner(n, heads(g, n)); x = subst(g.r(n.args[0], n), subs)
            if n.name == "extend": got.append(x); x = f"elem({x})"
            subs.append((f"elem({text})", x))
            return got, cond, at
    x = subst(text, subs)
    return [x[5:-1] if x.startswith(("list(", "tuple(")) else x], cond, at


def subst(s, subs):
    for a, b in subs: s = s.replace(a, b)
    return s


def entries(g):
    """(place where an entry joins the answer, the constructing call)"""
    out = []
    for a, v, t in added(g):
        if a.id not in g.live(): continue
        for d, x in leaves(g, v, a):
            if x[0] == "call" and g.nodes[x[1]].name.endswith("Observation"): out.append((a, g.nodes[x[1]]))
    return out


def heads(g, n):
    """loops around n, outermost first, as texts of what they visit"""
    hs = [h for h in g.loops_of(n) if h.iter is not None]
    return sorted(hs, key=lambda h: sum(g.dominates(x, h) for x in hs))


def sweep(ck, g, name, a, want, may):
    hs = heads(g, a); got, cond, at = [], set(), []; subs = SUBS.setdefault(id(g), [])
    for h in hs:
        x, y, z = unfold(g, h, subs); got += x; cond |= y; at += z
    ck.ob("complete", f"{name}/visits", got == want, f"the observation goes through {got} instead of {want}", a.loc)
    if got != want: return
    ck.ob("complete", f"{name}/all", all(complete(g, h) for h in hs + [h for h, n in at]) and all(max(per_pass(g, h, {n.id}) or {0}) == 1 for h, n in at if h is innermost(g, n)), "the observation ends before everything has been seen", a.loc)
    lits = cond | {subst(("" if pol else "!") + s, subs) for h in hs for b, s, pol in g.guard_atoms(a) if g.dominates(h, b)}
    ck.ob("complete", f"{name}/condition", lits <= may, f"only what fulfils {sorted(lits - may)} is observed", a.loc)
    return hs, lits


SUBS = {}


def R(g, t, n): return subst(g.r(t, n), SUBS.get(id(g), ()))


def keyword(g, c, key):
    """(place, value) of a keyword argument, also through **values"""
    if key in c.kw: return c, c.kw[key]
    for k, v in c.kw.items():
        if k in (None, "**"):
            for d, x in leaves(g, v, c):
                if x[0] == "call" and g.nodes[x[1]].name == "dict": return keyword(g, g.nodes[x[1]], key)
    return c, None


def field(ck, g, name, c, key, want, loc, none_if=()):
    """every value of a field is the wanted one, or None where the wanted one does not exist"""
    c, t = keyword(g, c, key)
    if t is None: ck.ob("reported", f"{name}/{key}", False, f"{key} is not reported", loc); return False
    none = False
    for d, v in leaves(g, t, c):
        if v == ("const", None) and none_if: none = True; ok = True
        else: ok = R(g, v, d) in want or R(g, v, d) in {f"bool({x})" for x in want}
        ck.ob("reported", f"{name}/{key}", ok, f"{key} is reported as {g.r(v, d)}", loc)
    return none


def observation(ck, C, m):
    f = C.find_method(m); ck.need(f"observation {m}", 1 if f else 0)
    g = ck.graph(f, selfcls=C, stop=("get_product", "is_alive"))
    bad = [n for n in g.nodes if n.id in g.live() and n.kind in ("store", "substore", "del", "spawn")]
    bad += [n for n in g.nodes if n.id in g.live() and n.kind == "call" and n.name in MUT and n.recv is not None and not all(v[0] in ("list", "comp", "dict", "set") or v[0] == "call" and g.nodes[v[1]].name in ("list", "dict", "set") for d, v in leaves(g, n.recv, n))]
    ck.ob("only-observes", m, not bad, "observing changes the simulation", bad[0].loc if bad else f.loc)
    return g, f


def answered(ck, g, m, a):
    """the entries are in what is answered"""
    tgt = {x[2] for x in added(g) if x[0].id == a.id}
    lists = set()
    for t in tgt:
        for d, v in leaves(g, t, a): lists.add(v)
    for r in returns(g):
        for d, v in leaves(g, r.value, r):
            ok = v in lists or v[0] == "comp" and any(v[-1] == t[-1] for t in tgt if t[0] == "comp") or v[0] == "call" and g.nodes[v[1]].name == "list" and any(x in lists for dd, x in leaves(g, g.nodes[v[1]].args[0], g.nodes[v[1]]))
            ck.ob("answered", m, ok, f"the observation answers {g.r(v, d)} instead of what it has seen", r.loc)


def optional(ck, cls, name):
    fi = cls.find_field(name)
    ann = fi and (fi[1] if isinstance(fi[1], ast.AST) else getattr(fi[1], "annotation", None) or (fi[1][0] if isinstance(fi[1], tuple) else None))
    return ann is not None and any(w in ast.unparse(ann) for w in ("Optional", "None", "Any"))


def check(ck):
    C = ck.p.cls(f"{MOD}.ResourceObserver")
    # running work
    m = "observe_processes"; g, f = observation(ck, C, m)
    es = entries(g); ck.ob("complete", f"{m}/entry", len(es) == 1, f"{len(es)} kinds of entries are reported", f.loc)
    run = {f"{SLOT}.process", f"{SLOT}.process.is_alive", f"!(None is {SLOT}.process)"}
    for a, c in es:
        r = sweep(ck, g, m, a, ["self.resource.production_states"], run)
        if r:
            ck.ob("complete", f"{m}/running", bool(r[1]), "slots without running work are reported as work", a.loc)
            h = r[0][-1]
            skip = g.path_avoiding(iter_edge(g, h), h, [a] + [e for e in g.nodes if e.kind == "edge" and g.nodes[e.of].kind == "branch" and (("" if not e.label else "!") + R(g, g.nodes[e.of].term, g.nodes[e.of])).replace("!!", "") in run])
            ck.ob("complete", f"{m}/every", not skip and max(per_pass(g, h, {a.id})) == 1, "running work is left out or reported twice", a.loc)
        for k, w in (("process", {f"{SLOT}.state_info.ID", f"{SLOT}.state_data.ID"}), ("product", {f"{SLOT}.state_info._product_ID"}), ("activity", {f"{SLOT}.state_info._activity"}), ("state", {f"{SLOT}.state_info._state_type"})):
            field(ck, g, m, c, k, w, c.loc)
        answered(ck, g, m, a)
    # waiting items
    for side in ("input", "output"):
        m = f"observe_{side}_queue"; g, f = observation(ck, C, m)
        es = entries(g); ck.ob("complete", f"{m}/entry", len(es) == 1, f"{len(es)} kinds of entries are reported", f.loc)
        item = f"elem(elem(self.resource.{side}_queues).items)"
        for a, c in es:
            r = sweep(ck, g, m, a, [f"self.resource.{side}_queues", f"elem(self.resource.{side}_queues).items"], set())
            if r: ck.ob("complete", f"{m}/every", per_pass(g, r[0][-1], {a.id}) == {1}, "a waiting item is left out or reported twice", a.loc)
            look = [n for n in g.calls("get_product") if n.id in g.live()]
            ok = look and all(n.recv is not None and g.r(n.recv, n) == "self.product_factory" and len(n.args) + len(n.kw) == 1 and R(g, (list(n.args) + list(n.kw.values()))[0], n) == f"{item}.ID" for n in look)
            ck.ob("reported", f"{m}/which product", bool(ok), "another product than the waiting one is looked up", (look or [c])[0].loc)
            P = {R(g, ("call", n.id), n) for n in look}
            w = lambda s: {p + s for p in P}
            field(ck, g, m, c, "product", w(".product_data.ID") | {f"{item}.ID"}, c.loc)
            none = field(ck, g, m, c, "process", w(".next_prodution_process.process_data.ID"), c.loc, none_if=True)
            # a product without a next process waits, too
            absent = {p + ".next_prodution_process" for p in P}
            ck.ob("finished-product", m, none and guarded(g, keyword(g, c, "process")[0], absent), "an item whose product has no next process cannot be observed", c.loc)
            if none: ck.ob("finished-product", f"{m}/type", optional(ck, ck.p.cls(f"{MOD}.{c.name}"), "process"), "an entry cannot be without a next process", c.loc)
            field(ck, g, m, c, "next_resource", w(".current_locatable.data.ID"), c.loc)
            field(ck, g, m, c, "waiting_since", w(".product_info.event_time"), c.loc)
            answered(ck, g, m, a)
    # availability
    m = "observe_resource_available"; g, f = observation(ck, C, m)
    cs = [n for n in g.nodes if n.kind == "call" and n.id in g.live() and n.name.endswith("Observation")]
    ck.ob("complete", f"{m}/entry", len(cs) == 1, "the availability is not reported", f.loc)
    for c in cs: field(ck, g, m, c, "available", {"self.resource.active.triggered"}, c.loc)
    for r in returns(g): ck.ob("answered", m, all(v == ("call", c.id) for c in cs for d, v in leaves(g, r.value, r)), "the observation does not answer what it has seen", r.loc)
    wired(ck, C)


def guarded(g, c, absent):
    """the identifier of the next process is only read where there is one"""
    def reads(t, n):
        if not isinstance(t, tuple) or not t or t[0] == "phi": return False
        if t[0] == "attr" and t[1][0] != "phi" and R(g, t[1], n) in absent: return True
        return any(reads(x, n) for x in t if isinstance(x, tuple))
    def terms(n):
        if n.kind == "assign": return [n.value]
        if n.kind == "call": return list(n.args) + list(n.kw.values())
        return [n.value] if n.kind == "compelt" else []
    nodes = [n for n in g.nodes if n.id in g.live() and any(reads(t, n) for t in terms(n))]
    yes = [e for e in g.nodes if e.kind == "edge" and g.nodes[e.of].kind == "branch" and (R(g, g.nodes[e.of].term, g.nodes[e.of]), e.label) in {(a, True) for a in absent} | {(f"(None is {a})", False) for a in absent}]
    return bool(yes) and bool(nodes) and all(any(g.dominates(e, n) for e in yes) for n in nodes)


def wired(ck, C):
    """the learning environments observe their own simulation"""
    n_ = 0
    for f in ck.p.all_funcs("prodsys.control"):
        if f.name != "reset" or f.cls is None: continue
        g = ck.graph(f, selfcls=f.cls, stop=("initialize_simulation", "run_until", "get_resource", "get_controller"))
        cs = [n for n in g.nodes if n.kind == "call" and n.id in g.live() and n.name == "ResourceObserver"]
        for n in cs:
            n_ += 1; name = f"{f.cls.name}.observer"
            ck.ob("wired", f"{name}/products", "product_factory" in n.kw and g.r(n.kw["product_factory"], n) == "self.runner.product_factory", "the observer looks up products of another simulation", n.loc)
            init = [x for x in g.calls("initialize_simulation") if x.id in g.live()]
            ck.ob("wired", f"{name}/fresh", any(g.dominates(x, n) for x in init), "the observer is built before the simulation of the episode", n.loc)
            first = [x for x in g.calls("run_until") if x.id in g.live()]
            ck.ob("wired", f"{name}/before first observation", not any(g.path_avoiding(g.entry, x, [n] + [e for h in g.loops_of(n) for e in [done_edge(g, h)]]) for x in first), "the first decision is observed without the observer of the episode", n.loc)
            h = innermost(g, n); res = g.r(n.kw["resource"], n) if "resource" in n.kw else "?"
            if h is not None:
                ck.ob("wired", f"{name}/resource", res == "elem(self.runner.resource_factory.resources)" and g.r(h.iter, h) == "self.runner.resource_factory.resources" and complete(g, h) and not loop_guards(g, n, h) and per_pass(g, h, {n.id}) == {1}, f"not every resource is observed ({res})", n.loc)
            else:
                ck.ob("wired", f"{name}/resource", "get_resource(self.resource_id)" in res.replace(" ", "") or res.startswith("self.resource"), f"the observer watches {res}", n.loc)
    ck.need("observers of learning environments", n_, 2)
