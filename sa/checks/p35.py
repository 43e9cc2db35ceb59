"""P35 Systems that cannot work are refused before a run, all others accepted."""
TECHNIQUE = "set-expression provenance: what the compared sets are collected from (element kind, objects, attribute), direction of the comparison, and domination of every run by all validations"
NOTE = "Dangling references are P10. That an accepted system never blocks is P41 (not applicable)."
import re
from ..lib import *
from .p23 import complete

MOD = "prodsys.adapters.adapter"
GET = {"get_production_processes_from_ids": ("ProductionProcessData", "ReworkProcessData"), "get_transport_processes_from_ids": ("TransportProcessData",), "get_capability_processes_from_ids": None,
       "get_compound_processes_from_ids": ("CompoundProcessData",), "get_required_capability_processes_from_ids": ("RequiredCapabilityProcessData",)}
CONT = {"get_contained_production_processes_from_compound_processes": "get_production_processes_from_ids", "get_contained_capability_processes_from_compound_processes": "get_capability_processes_from_ids",
        "get_contained_transport_processes_from_compound_processes": "get_transport_processes_from_ids", "get_contained_required_capability_processes_from_compound_processes": "get_required_capability_processes_from_ids"}


def check(ck):
    m = ck.p.mod(MOD)
    processes(ck, m)
    getters(ck, m)
    locations(ck, m)
    validated(ck)


# ---- processes ------------------------------------------------------------------------------
def ids_of(g, t, n, ad, filled):
    """what a collection of process IDs is collected from"""
    s = g.r(t, n)
    for k, x in filled.items(): s = s.replace(k, x)
    s = re.sub(r"isinstance\(elem\([^()]*\)\.\w+, [\w.]+\)", "isinstance()", s)
    s = re.sub(r"(?:list|set|tuple)\((elem\(%s\.product_data\)\.processes)\)" % re.escape(ad), r"\1.keys()", s)
    s = re.sub(r"\*(elem\(%s\.product_data\)\.processes)(?=[,\]])" % re.escape(ad), r"\1.keys()", s)
    found = {(a, b, c or "") for a, b, c in re.findall(r"elem\(%s\.(\w+_data)(?: or \[\])?\)\.(\w+)(?:\.(keys|values|items)\(\))?" % re.escape(ad), s.replace(f"({ad}.auxiliary_data or [])", f"{ad}.auxiliary_data"))}
    found |= {(a, b, c or "") for a, b, c in re.findall(r"elem\(\(?(?:\[\] or )?%s\.(\w+_data)(?: or \[\])?\)?\)\.(\w+)(?:\.(keys|values|items)\(\))?" % re.escape(ad), s)}
    cut = re.search(r"\[:|:\]|slice|\[0\]|\[-1\]| - | & |\^|intersection|difference", s)
    conds = set(re.findall(r" if ([^\]]*?)\)\)*(?=[,) ]|$)", s))
    conds = {c for c in conds if "isinstance(" not in c}
    return found, bool(cut), conds, s


def accumulated(g):
    """collections that start empty and are filled afterwards: {name: what is put into them}"""
    out = {}
    for n in g.nodes:
        if n.kind != "assign" or n.id not in g.live() or n.key[0] != 0: continue
        v = n.value; c = g.nodes[v[1]] if v[0] == "call" else None
        if not (c is not None and c.name in ("set", "list") and not c.args and not c.kw or v[0] in ("list", "set") and not v[1]): continue
        fills = [x for x in g.nodes if x.kind == "call" and x.id in g.live() and x.name in ("add", "update", "append", "extend") and x.recv is not None and x.recv == ("var", *n.key) and n in g.rd(n.key, x)]
        if fills: out[f"FILLED{n.id}_"] = (n, fills)
    for k, (n, fills) in out.items(): n.d["value"] = ("ext", k)
    res = {}; heads = {h for c in (g.comps.values() if isinstance(g.comps, dict) else g.comps) for h in c["heads"]}
    for k, (n, fills) in out.items():
        txt = []
        for x in fills:
            L = [("" if pol else "!") + a for b, a, pol in g.guard_atoms(x)]
            inside = g.loops_of(x); args = " ".join(g.r(a, x) for a in x.args)
            if any(not complete(g, h) for h in inside): L.append("not all")
            # the pass of a loop that ends after its first element is no pass of a loop any more
            if any(h.kind == "loophead" and h.id in g.live() and h.id not in heads and h not in inside and h.iter is not None and g.dominates(h, x) and f"elem({g.r(h.iter, h)})" in args for h in g.nodes): L.append("not all")
            txt.append("(" + " + ".join(g.r(a, x) for a in x.args) + "".join(f" if {a}" for a in L) + ")")
        res[k] = " + ".join(txt)
    return res


def compare(g, b, pol):
    """(must be contained, in what, does the edge mean that something is missing) of a test"""
    raw = b.d.get("raw", b.term); pol = pol == b.d.get("rawpol", True)
    n, t = (leaves(g, raw, b) or [(b, raw)])[0]
    while t[0] == "not":
        pol = not pol; n, t = (leaves(g, t[1], n) or [(n, t[1])])[0]
    empty = lambda x: g.r(x, n) in ("set()", "frozenset()", "[]", "{}", "0")
    if t[0] == "cmp":
        op, x, y = t[1], t[2], t[3]
        if op in ("==", "!=") and (empty(x) or empty(y)):
            k, d = diff(g, y if empty(x) else x, n)
            return (*k[:2], d, pol == (op == "!="), *k[2:]) if k else None
        if op in ("<", ">") and (empty(x) or empty(y)):
            k, d = diff(g, y if empty(x) else x, n)
            return (*k[:2], d, pol, *k[2:]) if k else None
        if op == "<=": return (x, y, n, not pol)
        if op == ">=": return (y, x, n, not pol)
        if op in ("in", "not in"):
            h = element(g, x, n)
            if h: return (h[0].iter, y, n, pol == (op == "not in"), *h)
        return None
    if t[0] == "call":
        c = g.nodes[t[1]]
        if c.name == "issubset" and c.recv is not None: return (c.recv, c.args[0], c, not pol)
        if c.name == "issuperset" and c.recv is not None: return (c.args[0], c.recv, c, not pol)
    k, d = diff(g, t, n)
    return (*k[:2], d, pol, *k[2:]) if k else None


def element(g, t, n):
    """(loop, attribute) if something is an attribute of the element of a loop"""
    for d, e in leaves(g, t, n) or [(n, t)]:
        a = None
        if e[0] == "attr": a = e[2]; d, e = (leaves(g, e[1], d) or [(d, e[1])])[0]
        if e[0] == "elem":
            h = g.nodes[e[2]]
            return h, a
    return None


def diff(g, t, n):
    d, v = (leaves(g, t, n) or [(n, t)])[0]
    if v[0] == "bin" and v[1] == "-": return (v[2], v[3]), d
    if v[0] == "call" and g.nodes[v[1]].name == "difference" and g.nodes[v[1]].recv is not None: return (g.nodes[v[1]].recv, g.nodes[v[1]].args[0]), g.nodes[v[1]]
    if v[0] == "call" and g.nodes[v[1]].name in ("len", "sorted", "list", "bool") and len(g.nodes[v[1]].args) == 1: return diff(g, g.nodes[v[1]].args[0], g.nodes[v[1]])
    if v[0] == "comp":
        c = g.comps[v[2]]; e = g.nodes[c["elt"]]
        if len(c["heads"]) == 1:
            h = g.nodes[c["heads"][0]]
            for b, s, pol in g.guard_atoms(e):
                if g.dominates(h, b):
                    t = (leaves(g, b.term, b) or [(b, b.term)])[0][1]
                    if t[0] == "cmp" and t[1] in ("in", "not in") and pol == (t[1] == "not in"):
                        x = element(g, t[2], b)
                        return (h.iter, t[3], h, x[1] if x else None), b
    return None, n


def processes(ck, m):
    F = "assert_required_processes_in_resources_available"
    f = m.funcs.get(F); ck.need(F, 1 if f else 0)
    g = ck.graph(f, stop=tuple(GET) + tuple(CONT)); ad = f.params()[0]
    filled = accumulated(g)
    # the collections of IDs
    texts = {}
    for n in g.nodes:
        if n.kind != "call" or n.id not in g.live() or n.name not in GET: continue
        a = list(n.args) + list(n.kw.values())
        src = next((x for x in a if g.r(x, n) != ad), None)
        if src is None: continue
        s = g.r(src, n)
        if s in texts: continue
        found, cut, conds, full = ids_of(g, src, n, ad, filled); tabs = {x[0] for x in found}
        if tabs == {"resource_data"}:
            texts[s] = "AVAIL"
            ck.ob("offered", "resources", {x[1] for x in found} == {"process_ids"} and not cut and not conds, f"the offered processes are collected from {sorted(found)} {sorted(conds)}", n.loc)
        elif tabs == {"process_data"}: texts[s] = "ALL"
        elif tabs & {"product_data", "auxiliary_data"}:
            texts[s] = "REQ"
            ok = {x[1:] for x in found if x[0] == "product_data"}
            for k, need in (("plan", ("processes", "")), ("precedence graph", ("processes", "keys")), ("transport", ("transport_process", ""))):
                have = need in ok or need == ("processes", "keys") and (("processes", "items") in ok)
                # keys of a graph are found by flattening, too
                if need == ("processes", "keys") and not have and ("processes", "") in ok and "isinstance(" not in full: have = True
                ck.ob("required", k, have, f"processes of the {k} of a product are not required to be available", n.loc)
            ck.ob("required", "transport of auxiliaries", ("auxiliary_data", "transport_process", "") in found, "the transport process of an auxiliary is not required to be available", n.loc)
            ck.ob("required", "all products", not cut and not conds, f"only a part of what is required is considered {sorted(conds)}", n.loc)
    ck.need("REQ processes", 1 if "REQ" in texts.values() else 0)
    ck.ob("offered", "resources/asked", "AVAIL" in texts.values(), "the processes of the resources are not what is required", f.loc)
    order = sorted(texts, key=len, reverse=True)
    def norm(s):
        for x in order: s = s.replace(x, texts[x])
        return s
    def parts(t, n, deep=True):
        s = norm(g.r(t, n)); out = set()
        if deep:
            for r, p in grown:
                if r in s: out |= p
        for name, arg in re.findall(r"(get_\w+_from_ids)\(%s, (\w+)\)" % re.escape(ad), s): out.add((name, arg))
        for name, arg in re.findall(r"(get_contained_\w+)\(%s, get_compound_processes_from_ids\(%s, (\w+)\)\)" % (re.escape(ad), re.escape(ad)), s): out.add((name, arg))
        return {x for x in out if x[0] != "get_compound_processes_from_ids"}, s
    grown = []
    for n in g.nodes:
        if n.kind == "call" and n.id in g.live() and n.name == "extend" and n.recv is not None and n.args: grown.append((norm(g.r(n.recv, n)), parts(n.args[0], n, False)[0]))
    WANT = {"production": ("ID", {"get_production_processes_from_ids", "get_contained_production_processes_from_compound_processes"}, set()),
            "transport": ("ID", {"get_transport_processes_from_ids", "get_contained_transport_processes_from_compound_processes"}, set()),
            "capability": ("capability", {"get_capability_processes_from_ids", "get_contained_capability_processes_from_compound_processes"}, {"get_required_capability_processes_from_ids", "get_contained_required_capability_processes_from_compound_processes"})}
    seen = {}
    for r in g.nodes:
        if r.kind != "raise" or r.id not in g.live(): continue
        for b, s, pol in g.guard_atoms(r):
            k = compare(g, b, pol)
            if k is None: continue
            need, have, n, missing = k[:4]
            (pn, sn), (ph, sh) = parts(need, n), parts(have, n)
            kind = next((w for w, (a, req, extra) in WANT.items() if req & {x[0] for x in pn | ph}), None)
            if kind is None: continue
            if not missing:
                # passed on the way: everything of an earlier kind is available
                continue
            attr, req, extra = WANT[kind]
            seen[kind] = r
            ck.ob("refused", f"{kind}/what is required", {(x, "REQ") for x in req} <= pn <= {(x, "REQ") for x in req | extra}, f"of the required processes {sorted(pn)} are compared", r.loc)
            ck.ob("refused", f"{kind}/what is offered", {(x, "AVAIL") for x in req} == ph, f"they are compared with {sorted(ph)}", r.loc)
            ok = all(set(re.findall(r"elem\(.*?\)\.(\w+) for", x)) in ({attr}, set()) and f").{attr} for" in x for x in (sn, sh))
            if len(k) > 5 and k[5] is not None: ok = k[5] == attr and f").{attr} for" in sh
            ck.ob("refused", f"{kind}/attribute", ok, f"the {kind} processes are not compared by their {attr}", r.loc)
            if len(k) > 4:
                h = k[4]; ck.ob("refused", f"{kind}/every", complete(g, h), "not every required process is looked up", h.loc)
    for w in WANT: ck.ob("refused", w, w in seen, f"a required {w} process that no resource offers is accepted", f.loc)
    # required capabilities cannot be offered: refused exactly if a resource has one
    rs = [r for r in g.nodes if r.kind == "raise" and r.id in g.live() and any(pol and norm(s).strip("()") in (f"get_required_capability_processes_from_ids({ad}, AVAIL", f"0 < len(get_required_capability_processes_from_ids({ad}, AVAIL") for b, s, pol in g.guard_atoms(r))]
    rs = [r for r in rs if sum(1 for b, s, pol in g.guard_atoms(r) if not ((c := compare(g, b, pol)) and not c[3])) == 1]
    ck.ob("refused", "placeholder", bool(rs), "a resource may offer a required capability, which has no duration", f.loc)
    # nothing is accepted before all three kinds have been looked at
    for w, r in seen.items():
        tests = [b for b, s, pol in g.guard_atoms(r) if compare(g, b, pol) and compare(g, b, pol)[3]]
        heads = [h for b in tests for h in g.loops_of(b)] if tests else []
        ck.ob("refused", f"{w}/always", bool(tests) and not g.path_avoiding(g.entry, g.exit, [x for x in tests if not g.loops_of(x)] + [h for h in heads]), f"a system is accepted without its {w} processes having been looked at", r.loc)


def getters(ck, m):
    """the processes of a kind with the given identifiers: exactly these"""
    for name, kinds in GET.items():
        f = m.funcs.get(name); ck.need(name, 1 if f else 0)
        g = ck.graph(f); ps = f.params(); ad, ids = ps[0], ps[1]
        P = f"elem({ad}.process_data)"; I = f"elem({ids})"
        es = [(a, v) for a, v, t in additions(g) if a.id in g.live() and any(g.r(y, d) == P for d, y in leaves(g, v, a))]
        ck.ob("kind", name, len(es) == 1, "the processes are not collected", f.loc)
        for a, v in es:
            hs = [g.r(h.iter, h) for h in g.loops_of(a)]
            ids_ok = f"{ad}.process_data" in hs and (ids in hs or any(f"({P}.ID in {x})" == s and pol for b, s, pol in g.guard_atoms(a) for x in (ids, f"set({ids})")))
            ck.ob("kind", f"{name}/all", ids_ok, f"the processes are collected over {hs}", a.loc)
            for h in g.loops_of(a):
                if g.r(h.iter, h) == ids: ck.ob("kind", f"{name}/every ID", complete(g, h) and visits_all(g, h) is None, "the search ends before the last identifier", h.loc)
            alts = dnf(g, a)
            alts = [frozenset(x for x in alt) for alt in alts]
            bad = [sorted(alt) for alt in alts if not fits(alt, P, I, ids, name, kinds)]
            ck.ob("kind", f"{name}/condition", bool(alts) and not bad, f"a process is found if {bad[:1]}", a.loc)
            if kinds is None: have = {"CapabilityProcessData", "capability"}; got = {k for k in have for alt in alts for s in map(str, alt) if k in s}
            else: have = set(kinds); got = {k for k in kinds for alt in alts for s in map(lit, alt) if re.search(r"\b%s\b" % k, s) and not s.startswith("!")}
            ck.ob("kind", f"{name}/kinds", got == have, f"processes of kind {sorted(have - got)} are not found", a.loc)
    for name, inner in CONT.items():
        f = m.funcs.get(name); ck.need(name, 1 if f else 0)
        g = ck.graph(f, stop=tuple(GET)); ps = f.params(); ad, comps = ps[0], ps[1]
        cs = [n for n in g.nodes if n.kind == "call" and n.id in g.live() and n.name in GET]
        ok = bool(cs) and all(c.name == inner for c in cs)
        ck.ob("contained", name, ok, f"the contained processes are looked up by {sorted({c.name for c in cs})}", f.loc)
        txt = " ".join(g.r(x, c) for c in cs for x in list(c.args) + list(c.kw.values()))
        ck.ob("contained", f"{name}/all", re.search(r"elem\(%s\)\.process_ids(?!\[)" % re.escape(comps), txt) is not None and not any("[" in g.r(h.iter, h) for c in cs for h in g.loops_of(c)), "not the processes contained in the compound processes are looked up", f.loc)
        for a, v, t in additions(g):
            if a.id not in g.live(): continue
            for h in g.loops_of(a): ck.ob("contained", f"{name}/every", complete(g, h) or visits_all(g, h) is None, "the search ends early", h.loc)
            lits = [("" if pol else "!") + s for b, s, pol in g.guard_atoms(a)]
            ck.ob("contained", f"{name}/condition", all(inner in s for s in lits), f"a contained process is left out if not {[s[:80] for s in lits if inner not in s]}", a.loc)


def lit(x): return x if isinstance(x, str) else ("" if x[1] else "!") + x[0] if isinstance(x, tuple) and len(x) == 2 else str(x)


def fits(alt, P, I, ids, name, kinds):
    """is a combination of conditions "has one of the identifiers and is of the kind"?"""
    L = {lit(x) for x in alt}
    match = {f"({P}.ID == {I})", f"({I} == {P}.ID)", f"({P}.ID in {ids})", f"({P}.ID in set({ids}))"}
    if not L & match: return False
    rest = L - match
    # an earlier kind that does not apply
    for s in list(rest):
        if s.startswith("!") and ("isinstance(" in s and re.search(r"\b(%s)\b" % "|".join(kinds or ("CapabilityProcessData",)), s) or "capability" in s and (kinds is None or name.startswith("get_transport"))): rest.discard(s)
    if kinds is None:
        return all(s == f"isinstance({P}, CapabilityProcessData)" or s.startswith((f"hasattr({P}, 'capability')", f"getattr({P}, 'capability'", f"{P}.capability", f"isinstance({P}, ")) and "RequiredCapability" not in s for s in rest) and any("apability" in s for s in rest)
    names = set()
    for s in rest:
        m = re.fullmatch(r"isinstance\(%s, \(?([\w., ]+?),?\)?\)" % re.escape(P), s)
        if m: names |= {x.strip().rsplit(".", 1)[-1] for x in m.group(1).split(",")}
        elif name.startswith("get_transport") and s.startswith(f"hasattr({P}, 'capability')"): pass
        else: return False
    return bool(names) and names <= set(kinds)


# ---- places ---------------------------------------------------------------------------------
def locations(ck, m):
    f = m.funcs.get("get_location_of_locatable"); ck.need("get_location_of_locatable", 1 if f else 0)
    g = ck.graph(f); p = f.params()[0]
    plain = lambda x: re.sub(r"getattr\(%s, '(\w+)'(?:, None)?\)" % re.escape(p), rf"{p}.\1", x)
    own = [f"{p}.location", f"{p}.input_location", f"{p}.output_location"]
    txt = " ".join(plain(g.r(r.value, r)) for r in returns(g))
    adds = {}
    for a, v, t in additions(g):
        if a.id in g.live(): adds.setdefault(plain(g.r(v, a)), []).append(a)
    ck.ob("places", "own location", own[0] in txt or own[0] in adds, "the location of an object is not considered", f.loc)
    for w in own[1:]:
        ok = w in adds or w in txt
        ck.ob("places", w.split(".")[1], ok, f"the {w.split('.')[1]} of an object is not considered", f.loc)
        for a in adds.get(w, []):
            L = [("" if pol else "!") + plain(s) for b, s, pol in g.guard_atoms(a)]
            fine = all(s.startswith("hasattr(") and f"'{w.split('.')[1]}'" in s or s.startswith("!") and ("==" in s or " in " in s) or s == w for s in L)
            ck.ob("places", f"{w.split('.')[1]}/whenever", fine, f"it is only considered if {L}", a.loc)
            # an object never stands in its own way
            other = [x for x in own if x != w and (x == own[0] or own.index(x) < own.index(w))]
            apart = any(s.startswith("!") and f"({w} in " in s for s in L) or all(any(s.startswith("!") and "==" in s and w in s and x in s for s in L) for x in other)
            ck.ob("places", f"{w.split('.')[1]}/once", apart, "an object is refused because its own input and output are at the same place", a.loc)
    F = "assert_no_redudant_locations"; f = m.funcs.get(F); ck.need(F, 1 if f else 0)
    g = ck.graph(f, stop=("get_location_of_locatable",)); ad = f.params()[0]
    rs = [r for r in g.nodes if r.kind == "raise" and r.id in g.live()]
    ck.ob("places", "refused", bool(rs), "two objects at the same place are accepted", f.loc)
    calls = [n for n in g.calls("get_location_of_locatable") if n.id in g.live()]
    kinds = {"production resources": ("resource_data", "ProductionResourceData"), "sources": ("source_data", None), "sinks": ("sink_data", None), "stores": ("queue_data", "StoreData")}
    full = " ".join(s for r in rs for b, s, pol in g.guard_atoms(r)) + " ".join(g.r(h.iter, h) for r in rs for h in g.loops_of(r))
    for k, (field, cls) in kinds.items():
        cs = [c for c in calls if f"{ad}.{field}" in g.r((list(c.args) + list(c.kw.values()))[0], c)]
        ck.ob("places", k, bool(cs), f"the places of {k} are not compared", f.loc)
        for c in cs:
            x = g.r(c.args[0] if c.args else list(c.kw.values())[0], c)
            L = {("" if pol else "!") + s for b, s, pol in g.guard_atoms(c)}
            isin = [s for s in L if s.startswith("isinstance(")] + re.findall(r"isinstance\([^()]*(?:\([^()]*\))?[^()]*\)", x)
            ok = (not isin if cls is None else bool(isin) and all(cls in s for s in isin)) and not [s for s in L if not s.startswith("isinstance(")]
            ck.ob("places", f"{k}/all", ok, f"only {sorted(L) or 'some'} of {k} are compared", c.loc)
            for h in g.loops_of(c): ck.ob("places", f"{k}/every", complete(g, h) and "[" not in g.r(h.iter, h), "not every object is compared", h.loc)
            ck.ob("places", f"{k}/compared", flows(g, c, rs, k in ("sources", "sinks")), f"the places of {k} are not among the compared ones", c.loc)
    for r in rs:
        ok = False
        for b, s, pol in g.guard_atoms(r):
            lits = [s if pol else "!" + s]
            for d, v in leaves(g, b.d.get("raw", b.term), b):
                if v[0] == "comp" and pol == b.d.get("rawpol", True): lits += [x if q else "!" + x for y, x, q in g.guard_atoms(g.nodes[g.comps[v[2]]["elt"]])]
            for t in lits:
                if re.fullmatch(r"\(1 < .*\.count\(elem\(.*\)\)\)|\(.*\.count\(elem\(.*\)\) > 1\)|\(2 <= .*\.count\(elem\(.*\)\)\)|!\(.*\.count\(elem\(.*\)\) < 2\)", t, re.S): ok = True
                if re.match(r"!?\(", t) and "len(" in t and ("!=" in t or t.startswith("!") and "==" in t or "<" in t): ok = True
                if re.search(r" in ", t) and not t.startswith("!") and (g.loops_of(b) or t is not lits[0]): ok = True
        ck.ob("places", "condition", ok, "objects at the same place are not what is refused", r.loc)
        for h in {h for b, s, pol in g.guard_atoms(r) for h in g.loops_of(b)}: ck.ob("places", "condition/every", complete(g, h), "not every place is compared", h.loc)
    tests = [b for r in rs for b, s, pol in g.guard_atoms(r)]
    hs = [h for b in tests for h in g.loops_of(b)]
    ck.ob("places", "always", bool(tests) and not g.path_avoiding(g.entry, g.exit, hs or tests), "a system is accepted without its places having been compared", f.loc)


def flows(g, c, rs, same):
    """is what a call gives collected into what every refusal depends on (duplicates may be dropped only if "same")?"""
    want = {("call", c.id)}; defs = set()
    def uses(t, n):
        if not isinstance(t, tuple) or not t: return False
        if t in want: return True
        if t[0] == "var": return any(d.id in defs for d in g.rd(tuple(t[1:]), n))
        return any(uses(x, n) for x in t if isinstance(x, tuple))
    while True:
        n0 = len(want), len(defs)
        for n in g.nodes:
            if n.id not in g.live(): continue
            if n.kind == "assign" and uses(n.value, n): defs.add(n.id)
            if n.kind == "call" and n.id != c.id:
                if n.name in ("extend", "append", "update", "add", "insert") and n.recv is not None and n.recv[0] == "var" and any(uses(a, n) for a in n.args): defs |= {d.id for d in g.rd(tuple(n.recv[1:]), n)}
                elif (same or n.name not in ("set", "frozenset", "fromkeys")) and (any(uses(a, n) for a in n.args) or n.recv is not None and uses(n.recv, n)): want.add(("call", n.id))
            if n.kind == "compelt":
                k = g.comps[n.comp]["kind"]
                if (same or not k.startswith("set")) and (uses(n.value, n) or any(uses(g.nodes[h].iter, g.nodes[h]) for h in g.comps[n.comp]["heads"])): want.add(("comp", k, n.comp))
        if (len(want), len(defs)) == n0: break
    ok = False
    for r in rs:
        for b, s, pol in g.guard_atoms(r):
            hs = [h for h in g.loops_of(b) if h.iter is not None]
            if all(uses(h.iter, h) for h in hs) and (uses(b.term, b) or hs): ok = True
    return ok


# ---- always ---------------------------------------------------------------------------------
ALL = ("assert_all_references_available", "assert_no_redudant_locations", "assert_required_processes_in_resources_available", "assert_all_links_available")


def validated(ck):
    A = ck.p.cls(MOD + ".ProductionSystemAdapter")
    f = A.find_method("validate_configuration"); ck.need("validate_configuration", 1 if f else 0)
    g = ck.graph(f, selfcls=A, stop=ALL)
    for a in ALL:
        cs = [n for n in g.nodes if n.kind == "call" and n.id in g.live() and g.r(n.func, n) == a and [g.r(x, n) for x in list(n.args) + list(n.kw.values())] == ["self"]]
        ck.ob("validated", a, bool(cs) and not g.path_avoiding(g.entry, g.exit, cs), "a configuration is accepted without this having been checked", f.loc)
    hs = [n for n in g.nodes if n.kind == "handler" and n.id in g.live() and g.reaches(n, g.exit)]
    ck.ob("validated", "refusal is final", not hs, "a refusal is swallowed", hs[0].loc if hs else f.loc)
    f = A.find_method("validate_proceses_available")
    if f:
        g = ck.graph(f, selfcls=A, stop=ALL)
        cs = [n for n in g.calls(ALL[2]) if n.id in g.live()]
        ck.ob("validated", "validate_proceses_available", bool(cs) and not g.path_avoiding(g.entry, g.exit, cs), "missing processes are accepted", f.loc)
    for c in ck.p.all_classes():
        if not c.qual.startswith("prodsys."): continue
        f = c.methods.get("initialize_simulation")
        if f is None or c.name != "Runner": continue
        g = ck.graph(f, selfcls=c, stop=("validate_configuration",), inline=lambda fn: fn.cls is c)
        cs = [n for n in g.calls("validate_configuration") if n.id in g.live() and n.recv is not None and g.r(n.recv, n) == "self.adapter"]
        env = [n for n in g.nodes if n.kind == "call" and n.id in g.live() and n.name.startswith("create_")]
        ck.need("factories of a run", len(env))
        ck.ob("validated", "before a run", bool(cs) and all(any(g.dominates(x, n) for x in cs) for n in env), "a simulation is built from a configuration that has not been validated", f.loc)
        hs = [n for n in g.nodes if n.kind == "handler" and n.id in g.live() and g.reaches(n, g.exit)]
        ck.ob("validated", "before a run/refused", not hs, "a refused configuration is simulated all the same", hs[0].loc if hs else f.loc)
    P = ck.p.cls("prodsys.express.production_system.ProductionSystem"); f = P.find_method("validate"); ck.need("validate", 1 if f else 0)
    g = ck.graph(f, selfcls=P, stop=("to_model", "validate_configuration"))
    cs = [n for n in g.calls("validate_configuration") if n.id in g.live() and n.recv is not None and g.r(n.recv, n) == "self.to_model()"]
    ck.ob("validated", "builder", bool(cs) and not g.path_avoiding(g.entry, g.exit, cs), "a system of the builder is accepted without having been checked", f.loc)
