"""P09 Identifiers resolve to exactly the object that carries them."""
TECHNIQUE = "summary of every look-up function by provenance (which collection, which conditions an element passed on every path), sweep completeness, typed lint against substring and fuzzy comparison of identifiers"
NOTE = "Decides for every look-up function found in the factories, configuration helpers, simulation objects and REST storage. That identifiers are unique is P10; look-ups written inline are covered by the lint only."
import ast, re
from ..lib import *
from .p15 import origins, members
from .p18 import atoms

PKG = ("prodsys.factories", "prodsys.adapters", "app.dao", "app.backends", "prodsys.simulation")
IDP = re.compile(r"^_*(ID|IDs|ids?|\w*_ids?|\w*_IDs?|product_type)$")


def idparams(f):
    """parameters that are identifiers, or objects whose identifier is looked for: {name: is a list}"""
    out = {}
    for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs:
        if a.arg in ("self", "cls"): continue
        t = ast.unparse(a.annotation) if a.annotation is not None else ""
        if IDP.match(a.arg) or "product_type" in a.arg: out[a.arg] = t.startswith(("List", "list", "Sequence", "Set", "Iterable")) or not t and a.arg.rstrip("_").lower().endswith("s")
    return out


def returned(g):
    """[(origin node, term, nodes whose conditions hold)] of everything a function returns"""
    out = []
    for r in returns(g):
        for d, v in leaves(g, r.value, r):
            for od, ov, ch in origins(g, v, d): out.append((od, ov, list(ch) + [d, od, r] if single(g, r, d) else list(ch) + [od]))
            for od, ov, ch in members(g, v, d): out.append((od, ov, list(ch) + [od]))
    return [(od, ov, ch) for od, ov, ch in out if ov[0] == "elem"]


def single(g, r, d): return True


def compared(g, e, ch, ps):
    """identifier comparisons an element has passed: [(op, element side, other side, polarity, node)]"""
    out = []
    for n in ch:
        for b, t, q in atoms(g, n):
            if t[0] != "cmp":
                out.append(("", g.render(t), "", q, b)); continue
            l, r = g.render(t[2]), g.render(t[3])
            out.append((t[1], l, r, q, b))
    return out


def lookups(ck):
    k = 0
    for f in ck.p.all_funcs():
        if not f.mod.name.startswith(PKG) or f.is_generator or f.is_abstract or f.name.startswith("__"): continue
        ps = idparams(f)
        if not ps or not any(isinstance(n, ast.Return) and n.value is not None for n in ast.walk(f.node)): continue
        g = ck.graph(f, inline=lambda fn: fn.mod.name == f.mod.name and fn.name not in ("get_adapter", "get_project") and fn.name.startswith("_"))
        hits = returned(g)
        if not hits: continue
        # identifiers that only say where to look
        via = {p for p in ps for od, ov, ch in hits if re.search(r"\(([^()]*, )?" + re.escape(p) + r"\b", g.r(ov, od))}
        cand = [p for p in ps if p not in via] or list(ps)
        name = f"{f.mod.name.split('.')[-1]}.{f.short}"; k += 1
        for od, ov, ch in hits:
            e = g.r(ov, od); ok = None; wrong = None; extra = []
            if not re.search(r"(_data|s|" + "adapters" + r")\)$", e) and "elem(" not in e: continue
            for op, l, r, q, b in compared(g, e, ch, ps):
                side = l if l.startswith(e + ".") or l == e else r if r.startswith(e + ".") or r == e else None
                if side is None:
                    if (e in l or e in r) and not l.startswith(("listcomp", "len(listcomp", "next(")): extra.append(f"{l} {op} {r}")
                    continue
                if not op:
                    extra.append(l); continue
                other = r if side == l else l
                p = next((p for p in cand if other in (p, f"elem({p})") or other.startswith((p + ".", f"elem({p})."))), None)
                if p is None: extra.append(f"{l} {op} {r}"); continue
                att = side[len(e):]
                isid = att.endswith(".ID") or att.endswith(".product_type") and "product_type" in p
                if not isid: wrong = f"{att[1:]} is compared with the identifier"; continue
                one = other == f"elem({p})" or not ps[p]
                if op == "==" and q and (one): ok = p
                elif op == "in" and q and side == l and other == p and ps[p]: ok = p
                elif op == "==" and q and ps[p] and other == p: wrong = "one identifier is compared with a list of identifiers"
                else: wrong = f"identifiers are matched with {'' if q else 'not '}{op}"
            extra = [x for x in extra if x != e]
            ck.ob("exact-match", name, ok is not None and wrong is None, wrong or "an object is returned without its identifier having been compared with the requested one", od.loc)
            if ok is None: continue
            if not f.mod.name.startswith(("prodsys.adapters",)):
                ck.ob("exact-match", name + "/nothing-else", not [x for x in extra if "None" not in x], f"objects with the requested identifier can be left out ({(extra or [''])[0][:80]})", od.loc)
            for n in ch:
                for h in {h.id: h for h in g.loops_of(n) + ([g.nodes[ov[2]]] if isinstance(ov[2], int) else []) + ([n] if n.kind == "loophead" else []) if h.iter is not None}.values():
                    t = g.resolve(h.iter, h)
                    ck.ob("searches-all", name, t[0] != "slice" and not (t[0] == "item" and isinstance(t[2], tuple) and t[2][0] == "slice") and not (t[0] == "call" and g.nodes[t[1]].name in ("islice",)), f"only a part of {g.render(t)[:60]} is searched", h.loc)
            early = early_exit(g, od, ov, ch, e)
            ck.ob("searches-all", name + "/to-the-end", early is None, "the search can end before the object with the requested identifier has been found", (early or od).loc)
            if ps[ok] and (f.name.endswith("_in_order") or "_from_ids" in f.name):
                adds = [n for n in ch if n.kind in ("call", "compelt")]
                good = False
                for n in adds:
                    hs = [h for h in (g.loops_of(n) if n.kind != "compelt" else [g.nodes[i] for i in g.comps[n.comp]["heads"]] + g.loops_of(n)) if h.iter is not None]
                    mine = [h for h in hs if g.r(h.iter, h) == ok]; coll = [h for h in hs if g.r(h.iter, h) == g.r(g.nodes[ov[2]].iter, g.nodes[ov[2]])]
                    if mine and coll and all(g.dominates(m, c) for m in mine for c in coll) and all(visits_all(g, m) is None for m in mine): good = True
                    if n.kind == "call" and n.name not in ("append",): good = False
                ck.ob("requested-order", name, good, "the objects are not returned in the order (and number) in which they were requested", od.loc)
    ck.need("look-up functions", k, 25)


def early_exit(g, od, ov, ch, e):
    """a way out of the search loop other than having found the object"""
    h = g.nodes[ov[2]]
    if h.kind != "loophead" or h.get("iter") is None: return None
    body = {n.id for n in g.nodes if n.id != h.id and g.dominates(iter_edge(g, h), n) and g.reaches(n, h)} | {iter_edge(g, h).id}
    for i in body:
        for s, l in g.nodes[i].succ:
            if l == "exc" or s in body or s == h.id: continue
            n = g.nodes[s]
            while n.kind == "edge" and len(n.succ) == 1: n = g.nodes[n.succ[0][0]]
            # leaving is fine once the identifier has matched
            if any(t[0] == "cmp" and t[1] == ("==" if q else "!=") and any(x.startswith(e + ".") or x == e for x in (g.render(t[2]), g.render(t[3]))) for b, t, q in atoms(g, n) + atoms(g, g.nodes[i])): continue
            return n
    return None


KINDS = {
    "prodsys.adapters.adapter.get_production_resources": ("ProductionResourceData",),
    "prodsys.adapters.adapter.get_transport_resources": ("TransportResourceData",),
    "prodsys.adapters.adapter.get_production_processes_from_ids": ("ProductionProcessData", "ReworkProcessData"),
    "prodsys.adapters.adapter.get_transport_processes_from_ids": ("TransportProcessData",),
    "prodsys.adapters.adapter.get_compound_processes_from_ids": ("CompoundProcessData",),
    "prodsys.adapters.adapter.get_required_capability_processes_from_ids": ("RequiredCapabilityProcessData",),
    "prodsys.adapters.adapter.get_possible_transport_processes_IDs": ("TransportProcessData",),
    "prodsys.adapters.adapter.get_possible_production_processes_IDs": ("ProductionProcessData", "CapabilityProcessData", "ReworkProcessData", "CompoundProcessData"),
    "prodsys.factories.resource_factory.ResourceFactory.get_transport_resources": ("TransportResource",),
    "prodsys.factories.resource_factory.ResourceFactory.get_production_resources": ("ProductionResource",),
}
UNIONS = {"process": ("prodsys.models.processes_data", "PROCESS_DATA_UNION"), "resource": ("prodsys.models.resource_data", "RESOURCE_DATA_UNION"), "Factory": ("prodsys.simulation.resources", "RESOURCE_UNION")}


def universe(ck, q):
    m, n = UNIONS["Factory" if "Factory" in q else "resource" if "_resources" in q else "process"]
    mod = ck.p.mod(m); v = mod.consts[n]
    return [ck.p.cls(f"{m}.{x.id}") for x in ast.walk(v) if isinstance(x, ast.Name) and f"{m}.{x.id}" in {c.qual for c in ck.p.all_classes()}]


def consistent(ck, lits, c):
    """an object of class c passes these conditions"""
    names = {b.name for b in c.mro()} | {c.name}
    for l in lits:
        neg = l.startswith("!"); m = re.match(r"!?isinstance\((.*), ([^()]*|\(.*\)|\[.*\])\)$", l)
        if not m: continue
        hit = any(x.split(".")[-1] in names for x in re.split(r"[ ,()\[\]]+", m.group(2)) if x)
        if hit == neg: return False
    return True


def passed(g, a, seen=()):
    """the conditions of everything that reaches node a, through the lists it is taken from"""
    out = [set(x) for x in dnf(g, a)]
    for h in (g.loops_of(a) if a.kind != "compelt" else [g.nodes[i] for i in g.comps[a.comp]["heads"]]):
        if h.iter is None or h.id in seen: continue
        its = g_elements(g, h.iter, h)
        if its: out = [x | y for x in out for b, v in its for y in passed(g, b, seen + (h.id,))]
    return out


def kinds(ck):
    for q, cls in KINDS.items():
        f = ck.p.func(q); name = f.short
        g = ck.graph(f)
        hits = []
        for r in returns(g):
            for d, v in leaves(g, r.value, r):
                hits += [(a, x) for a, x in g_elements(g, v, d)]
        ck.ob("kind", name, bool(hits), "nothing is listed", f.loc)
        lits = {id(a): passed(g, a) for a, v in hits}
        for c in universe(ck, q):
            want = any(c.is_sub(ck.p.cls(f"{c.mod.name}.{x}")) for x in cls)
            got = any(consistent(ck, ls, c) for x in lits.values() for ls in x)
            ck.ob("kind", f"{name}/{c.name}", want == got, f"the listing {'leaves out' if want else 'contains'} {c.name}", f.loc)
        for a, v in hits:
            for h in (g.loops_of(a) if a.kind != "compelt" else [g.nodes[i] for i in g.comps[a.comp]["heads"]]):
                if h.iter is None: continue
                s = g.r(h.iter, h)
                if s.endswith(("_data", ".resources")):
                    e = visits_all(g, h)
                    if "_from_ids" in name: e = early_exit(g, a, ("elem", None, h.id), [], f"elem({s})")
                    ck.ob("kind", name + "/all", e is None, f"not all of {s} are listed", (e or h).loc)
                    rest = [x for x in loop_guards(g, a, h) if not re.search(r"isinstance\(|\.ID|hasattr|getattr", x)]
                    ck.ob("kind", name + "/only-kind", not rest, f"whether something is listed also depends on {(rest or [''])[0][:80]}", a.loc)
                elif not s.endswith(("process_ids", "ids")): ck.ob("kind", name + "/all", s.count("[") == 0 or "if" in s, f"only a part of the configuration is listed: {s[:60]}", h.loc)


def g_elements(g, v, d):
    from .steps import elements
    return elements(g, v, d)


def position_of(g, ix, n, b, ps):
    """the index is the position of the requested identifier in the list of the identifiers of the container"""
    from .steps import elements
    t = g.resolve(ix, n)
    c = g.nodes[t[1]] if t[0] == "call" else None
    if c is None or c.get("name") != "index" or c.recv is None or len(c.args) != 1 or g.r(c.args[0], c) not in ps: return False
    es = elements(g, c.recv, c)
    return len(es) == 1 and es[0][0].kind == "compelt" and g.r(es[0][1], es[0][0]) == f"elem({b}).ID" and len(g.comps[es[0][0].comp]["heads"]) == 1 \
        and visits_all(g, g.nodes[g.comps[es[0][0].comp]["heads"][0]]) is None and not loop_guards(g, es[0][0], g.nodes[g.comps[es[0][0].comp]["heads"][0]])


def changes(ck):
    """objects replaced or removed by identifier are the ones that carry it"""
    k = 0
    for f in ck.p.all_funcs("app."):
        if not f.mod.name.startswith(("app.dao", "app.backends")): continue
        ps = idparams(f); g = None
        if not ps: continue
        g = ck.graph(f, inline=lambda fn: False)
        for n in g.nodes:
            if n.id not in g.live(): continue
            if n.kind == "substore": base, ix = n.base, n.index
            elif n.kind == "del" and n.get("index") is not None: base, ix = n.base, n.index
            elif n.kind == "call" and n.name in ("pop", "remove") and n.recv is not None: base, ix = n.recv, n.args[0] if n.args else ("const", None)
            else: continue
            b = g.r(base, n); i = g.r(ix, n)
            name = f"{f.mod.name.split('.')[-1]}.{f.short}/{n.get('name') or n.kind}"
            if i in ps: k += 1; ck.ob("changes-the-right-one", name, True, "", n.loc); continue     # keyed by the identifier itself
            if n.kind != "call" and position_of(g, ix, n, b, ps): k += 1; ck.ob("changes-the-right-one", name, True, "", n.loc); continue
            if i not in (f"index({b})", f"elem({b})"):
                if re.search(r"\.(\w+_data|adapters|objectives|performances|projects)$", b): ck.ob("changes-the-right-one", name, False, f"the entry {i[:40]} of {b} is changed, not the one with the requested identifier", n.loc)
                continue
            k += 1
            ok = False; wrong = None
            for bb, t, q in atoms(g, n):
                if t[0] != "cmp": continue
                l, r = g.render(t[2]), g.render(t[3])
                for x, y in ((l, r), (r, l)):
                    if x == f"elem({b}).ID" and y in ps or x == f"elem({b}).name" and (y in f.params() or y.split(".")[0] in f.params() and y.endswith(".name")):
                        if t[1] == "==" and q or t[1] == "!=" and not q: ok = True
                        else: wrong = f"identifiers are matched with {t[1]}"
            ck.ob("changes-the-right-one", name, ok and not wrong, wrong or "an object is replaced or removed without its identifier having been compared with the requested one", n.loc)
    ck.need("updates and deletions by identifier", k, 12)
    g = ck.graph("prodsys.factories.product_factory.ProductFactory.remove_product")
    par = [p for p in g.fn.params() if p != "self"][0]
    ss = [s for s in g.stores("products") if s.id in g.live()]
    rm = [c for c in g.calls("remove") if c.id in g.live() and g.r(c.recv, c) == "self.products"]
    ok = bool(ss or rm)
    for s in ss:
        hit = g_elements(g, s.value, s)
        for a, v in hit:
            es = loop_guards(g, a, g.nodes[g.comps[a.comp]["heads"][0]] if a.kind == "compelt" else innermost(g, a))
            E = "elem(self.products)"
            good = g.r(v, a) == E and len(es) == 1 and next(iter(es)) in {f"({E}.product_data.ID != {par}.product_data.ID)", f"({par}.product_data.ID != {E}.product_data.ID)", f"!({E}.product_data.ID == {par}.product_data.ID)", f"!({par}.product_data.ID == {E}.product_data.ID)", f"({E} is not {par})", f"({par} is not {E})", f"!({E} is {par})", f"!({par} is {E})"}
            ok = ok and good
        ok = ok and bool(hit)
    for c in rm: ok = ok and g.r(c.args[0], c) == par
    ck.ob("changes-the-right-one", "ProductFactory.remove_product", ok, "another product than the finished one is forgotten", g.fn.loc)


def lint(ck):
    fields = {}
    for c in ck.p.all_classes():
        for n, (a, v) in c.fields.items(): fields.setdefault(n, set()).add(ast.unparse(a) if a is not None else "")
    isstr = lambda t: t.strip("'\"") in ("str", "Optional[str]", "str | None")
    k = 0
    for f in ck.p.all_funcs():
        ann = {a.arg: ast.unparse(a.annotation) for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs if a.annotation is not None}
        def text(e):
            """the expression is an identifier or another plain string"""
            if isinstance(e, ast.Name): return isstr(ann.get(e.id, "")) or e.id.endswith(("ID", "_id"))
            if isinstance(e, ast.Attribute): return e.attr == "ID" or e.attr in fields and all(isstr(x) for x in fields[e.attr])
            return False
        def ident(e):
            return isinstance(e, ast.Attribute) and e.attr == "ID" or isinstance(e, ast.Name) and (e.id in ("ID",) or e.id.endswith(("_ID", "_id")))
        for n in ast.walk(f.node):
            if isinstance(n, ast.Compare):
                for o, l, r in zip(n.ops, [n.left] + n.comparators, n.comparators):
                    if isinstance(o, (ast.In, ast.NotIn)):
                        k += 1
                        ck.ob("no-substring", f"{f.mod.name.split('.')[-1]}.{f.short}/{ast.unparse(n)[:50]}", not (text(r) and (ident(l) or isinstance(l, ast.Name) and text(l))), f"an identifier is searched for inside another string: {ast.unparse(n)[:80]}", f"{f.mod.rel}:{n.lineno}")
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("startswith", "endswith", "find", "lower", "upper", "strip", "rstrip", "lstrip", "casefold", "__contains__"):
                if ident(n.func.value) or n.func.attr in ("startswith", "endswith", "find", "__contains__") and any(ident(a) for a in n.args):
                    k += 1
                    ck.ob("no-substring", f"{f.mod.name.split('.')[-1]}.{f.short}/{ast.unparse(n)[:50]}", False, f"an identifier is not compared as a whole: {ast.unparse(n)[:80]}", f"{f.mod.rel}:{n.lineno}")
    ck.need("membership tests", k, 60)


def links(ck):
    g = ck.graph("prodsys.factories.link_transport_process_updater.LinkTransportProcessUpdater.update_links", stop=("get_node", "get_resource", "get_source", "get_sink"))
    name = "LinkTransportProcessUpdater.update_links"
    ss = [s for s in g.stores("links") if s.id in g.live()]
    ck.ob("link-ends", name, bool(ss), "links are not resolved", g.fn.loc)
    want = {"get_node", "get_resource", "get_source", "get_sink"}
    for s in ss:
        its = g_elements(g, s.value, s)
        ck.ob("link-ends", name + "/any", bool(its), "no link is resolved", s.loc)
        for a, v in its:
            parts = v[1] if v[0] in ("list", "tuple") else ()
            ck.ob("link-ends", name + "/pair", len(parts) == 2, "a link does not have two ends", a.loc)
            for i, x in enumerate(parts):
                got = set(); ids = set()
                for d, w in leaves(g, x, a):
                    if w[0] == "call":
                        got.add(g.nodes[w[1]].name); ids |= {g.r(y, g.nodes[w[1]]) for y in g.nodes[w[1]].args}
                ck.ob("link-ends", f"{name}/{i}", want <= got, f"an end of a link can not be {sorted(want - got)}", a.loc)
                ck.ob("link-ends", f"{name}/{i}-id", bool(ids) and all(z.endswith(f"[{i}]") for z in ids), f"end {i} of a link is looked up with {sorted(ids)[0][:60] if ids else 'nothing'}", a.loc)
            hs = [h for h in g.loops_of(a) if h.iter is not None]
            for h in hs: ck.ob("link-ends", name + "/all", not g.path_avoiding(iter_edge(g, h), h, [a]) and not g.path_avoiding(iter_edge(g, h), g.exit, [h]), "not every link is resolved", h.loc)


def check(ck):
    lookups(ck); kinds(ck); changes(ck); lint(ck); links(ck)
