"""P11 The configuration fingerprint covers behaviour and only behaviour."""
TECHNIQUE = "abstract interpretation of every hash function: the digest is expanded into the model fields and referenced elements it is made of (through inherited hash functions, helpers, accumulating loops, joins and sorts) and compared with the enumeration of all model fields"
NOTE = "The expansion gives, per element kind, which fields enter by value, which references enter by the content of the element they name, in which order, and where neighbouring components are separated. The random seed, scenario data and the draw buffer size of time models are not behaviour in the sense of the property. Elements of equal content are indistinguishable when referenced (structural identity); several defects of the original hash functions cannot be repaired because the existing tests pin the exact digests - see the known findings."
import ast, re
from ..lib import *
from .p18 import atoms
from .p09 import early_exit
from . import p10

M = "prodsys.models."
SEC = ("time_model_data", "state_data", "process_data", "resource_data", "queue_data", "node_data", "product_data", "sink_data", "source_data", "auxiliary_data")
IDENT = {"ID", "description", "product_type", "auxiliary_type"}          # names, not behaviour
NOT = {"model_config"} | IDENT
EXCLUDED = {("FunctionTimeModelData", "batch_size")}
KIND = {"type"}                                                         # literal that follows from the class
SEQ = {("ProductData", "processes")}                                     # order of the references is behaviour
PAIRS = {("ProductionResourceData", "process_capacities", "process_ids"), ("TransportResourceData", "process_capacities", "process_ids"), ("AuxiliaryData", "quantity_in_storages", "storages")}
ABSTRACT = {"ResourceData", "ProcessData", "StateData"}


class Part:
    """one component of a digest"""
    def __init__(self, kind, field=None, sec=None, txt="", node=None, match=None, exact=True, early=None, sub=()):
        self.sub = list(sub); self.kind, self.field, self.sec, self.txt, self.node, self.match, self.exact, self.early = kind, field, sec, txt, node, match, exact, early
    def __repr__(self): return f"{self.kind}:{self.field or ''}{'@' + self.sec if self.sec else ''}{self.txt}{self.sub if self.sub else ''}"


def flat(alt):
    """all components of a sequence, inside nested digests as well"""
    return [q for p in alt for q in ([p] + flat(p.sub))]


class Group:
    """list elements that follow each other: many = number not fixed; order: 'fixed', 'field' (order of the field), 'section' (order of the section), 'sorted'"""
    def __init__(self, alts, many, order, node): self.alts, self.many, self.order, self.node = alts, many, order, node
    def __repr__(self): return f"{'*' if self.many else ''}{self.alts}{'/' + self.order if self.many else ''}"


class Hash:
    def __init__(self, ck, C, f, depth=0):
        self.ck, self.C, self.f, self.depth = ck, C, f, depth
        ps = f.params(); self.me = ps[0]; self.ad = ps[1] if len(ps) > 1 else None
        self.g = ck.graph(f, selfcls=C, inline=lambda fn: fn.name != "hash")
        self.groups = []                                                # [(separator, [Group])] of every join on the way
        self.issues = []

    # --- text
    def alts(self, t, node, depth=0):
        """alternative component sequences of a string"""
        g = self.g; out = []
        if depth > 14: return [[Part("unknown", txt=g.r(t, node), node=node)]]
        for d, v in leaves(g, t, node):
            out += self.one(v, d, depth)
        uniq = {}
        for a in out: uniq.setdefault(repr(a), a)
        return list(uniq.values())

    def cat(self, xs, node, depth):
        res = [[]]
        for x in xs: res = [a + b for a in res for b in self.alts(x, node, depth + 1)][:16]
        return res

    def one(self, v, d, depth):
        g = self.g; k = v[0]
        if k == "const": return [[Part("const", txt=str(v[1]), node=d)]]
        if k == "bin" and v[1] == "+": return self.cat(v[2:4], d, depth)
        if k in ("fstr", "joined"): return self.cat([x for x in v[1]], d, depth)
        if k == "attr":
            txt = g.r(v, d)
            if txt in (f"{self.me}.__class__.__name__", f"type({self.me}).__name__"): return [[Part("cls", node=d)]]
            if v[2] in ("value", "name") and v[1][0] == "attr": return self.one(v[1], d, depth)
            f = self.field(v, d)
            if f: return [[Part("val", f, node=d)]]
            if v[2] in IDENT and re.match(r"^(\w+\()?elem\(.*_data", g.r(v[1], d)): return [[Part("ident", txt=g.r(v, d), node=d)]]
        if k == "call":
            c = g.nodes[v[1]]
            if c.name in ("hexdigest", "digest") and c.recv is not None: return [[Part("md5", node=c, sub=a)] for a in self.alts(c.recv, c, depth + 1)]
            if c.name in ("md5", "sha1", "sha256", "str", "repr", "format") and c.args and not (c.recv is not None and c.recv[0] == "const"): return self.alts(c.args[0], c, depth + 1)
            if c.name in ("encode", "decode", "strip", "lower", "upper") and c.recv is not None: return self.alts(c.recv, c, depth + 1)
            if c.name == "join" and c.recv is not None and c.args:
                sep = g.resolve(c.recv, c); gs = self.seq(c.args[0], c, depth + 1)
                self.groups.append((sep[1] if sep[0] == "const" else "?", gs, c))
                return [[p for gr in gs for a in gr.alts[:4] for p in a]]
            if c.name == "hash": return self.hashed(c)
        if k == "ifexp": return self.alts(v[2], d, depth + 1) + self.alts(v[3], d, depth + 1)
        if k == "elem":
            fs = self.element_fields(v, d)
            if fs: return [[Part("val", f, node=d)] for f in fs]
        fs = self.inside(v, d)
        if self.located and fs: return [[Part("val", fs[0], txt="location", node=d)]]
        if len(fs) >= 1: return [[Part("val", f, txt=g.render(v), node=d)] for f in [fs[0]]] if len(fs) == 1 else [[Part("val", f, txt=g.render(v), node=d) for f in fs]]
        return [[Part("unknown", txt=g.render(v), node=d)]]

    def field(self, t, node):
        """the model field a term denotes"""
        if t[0] == "attr" and self.g.r(t[1], node) == self.me and t[2] in self.C.all_fields(): return t[2]
        if t[0] == "bool" and t[1] == "or": return next((f for f in (self.field(x, node) for x in t[2]) if f), None)
        return None

    def inside(self, t, node):
        """fields of the element a value is computed from"""
        out = []; g = self.g; seen = set(); w = [(t, node)]; self.located = False
        while w:
            x, n = w.pop()
            if isinstance(x, tuple) and x and x[0] == "attr" and x[2] == "location" and self.g.r(x[1], n) != self.me: self.located = True
            if not isinstance(x, tuple) or not x or (id(x), n.id) in seen: continue
            seen.add((id(x), n.id))
            f = self.field(x, n) if x[0] == "attr" else None
            if f: out.append(f); continue
            if x[0] == "call":
                c = g.nodes[x[1]]; w += [(a, c) for a in ([c.recv] if c.recv is not None else []) + list(c.args)]; continue
            if x[0] == "elem" and isinstance(x[2], int): w.append((g.nodes[x[2]].iter, g.nodes[x[2]])); continue
            if x[0] == "var":
                for d, v in leaves(g, x, n): 
                    if v != x: w.append((v, d))
                continue
            if x[0] == "comp":
                e = g.nodes[g.comps[x[2]]["elt"]]; w += [(y, e) for y in e.vals]; continue
            w += [(y, n) for y in x[1:] if isinstance(y, tuple)] + [(z, n) for y in x[1:] if isinstance(y, tuple) for z in y if isinstance(z, tuple)]
        return list(dict.fromkeys(out))

    # --- lists
    def seq(self, t, node, depth=0):
        g = self.g; out = []
        if depth > 14: return [Group([[Part("unknown", txt=g.r(t, node), node=node)]], True, "field", node)]
        lv = leaves(g, t, node)
        for d, v in lv:
            k = v[0]
            f = self.field(v, d)
            if f: out.append(Group([[Part("val", f, node=d)]], True, "field", d)); continue
            if k in ("list", "tuple", "set"):
                cur = []
                for x in v[1]:
                    if x[0] == "star": cur += self.seq(x[1], d, depth + 1)
                    else: cur.append(Group(self.alts(x, d, depth + 1), False, "fixed", d))
                srt = self.sorted_in_place(d, k)
                for a, x in [(a, val) for a, val, tgt in additions(g) if tgt is not None and a.kind == "call" and any(dd.id == d.id and vv[0] == k for dd, vv in leaves(g, tgt, a))]:
                    cur += self.grown(a, x, depth, srt)
                out += cur; continue
            if k == "comp":
                c = g.comps[v[2]]; e = g.nodes[c["elt"]]
                out += self.grown(e, e.value, depth, False, [g.nodes[h] for h in c["heads"]]); continue
            if k == "bin" and v[1] == "+": out += self.seq(v[2], d, depth + 1) + self.seq(v[3], d, depth + 1); continue
            if k == "bool" and v[1] == "or": out += self.seq(v[2][0], d, depth + 1); continue
            if k == "call":
                c = g.nodes[v[1]]
                if c.name in ("list", "tuple", "iter") and c.args: out += self.seq(c.args[0], c, depth + 1); continue
                if c.name == "sorted" and c.args:
                    inner = self.seq(c.args[0], c, depth + 1)
                    out.append(Group([a for gr in inner for a in gr.alts], True, "sorted", c)); continue
                if c.name == "map" and len(c.args) == 2:
                    fn = g.resolve(c.args[0], c)
                    if fn[0] in ("glob",) and fn[-1] in ("str", "repr") or g.render(fn) in ("str", "repr"): out += self.seq(c.args[1], c, depth + 1); continue
            fs = self.inside(v, d)
            out.append(Group([[Part("val", f, txt=g.render(v), node=d)] for f in fs] or [[Part("unknown", txt=g.render(v), node=d)]], True, "field", d))
        return out

    def sorted_in_place(self, d, k):
        g = self.g
        return any(n.id in g.live() and n.recv is not None and any(dd.id == d.id and vv[0] == k for dd, vv in leaves(g, n.recv, n)) for n in g.calls("sort"))

    def grown(self, a, x, depth, srt, heads=None):
        """elements added in a loop"""
        g = self.g
        hs = ([h for h in (heads or [])] + g.loops_of(a)) if heads is not None else g.loops_of(a)
        hs = {h.id: h for h in hs if h.get("iter") is not None}.values()
        al = self.alts(x, a, depth + 1)
        order = "fixed"; many = False; lit = 1
        for h in sorted(hs, key=lambda h: h.id):
            t = g.resolve(h.iter, h)
            its = leaves(g, h.iter, h)
            if all(v[0] in ("list", "tuple") and not any(y[0] == "star" for y in v[1]) for d, v in its) and its: continue
            s = self.section(h.iter, h)
            if s: order = "section" if order == "fixed" and not self.picked(al, s) else order; many = many or not self.picked(al, s)
            else: order = "field" if order == "fixed" else order; many = True
        if srt: order = "sorted"
        refs = {p.field for alt in al for p in alt}
        return [Group(al, many, order, a)]

    def picked(self, al, s):
        """in the loop over the section exactly the element that is referred to is picked"""
        ps = [p for alt in al for p in alt if p.kind == "ref" and p.sec == s]
        return bool(ps) and all(p.exact for p in ps)

    def section(self, t, node):
        txt = self.g.r(t, node)
        who = self.ad or self.me
        m = re.match(rf"^\(?(?:\[\] or )?(?:{who})\.(\w+_data)(?: or \[\])?\)?$", txt)
        return m.group(1) if m and m.group(1) in SEC else None

    # --- digests of other elements
    def hashed(self, c):
        g = self.g
        r = c.recv
        if r is None: return [[Part("unknown", txt=g.render(("call", c.id)), node=c)]]
        t = g.resolve(r, c); txt = g.render(t)
        base = None
        if t[0] == "call" and g.nodes[t[1]].name == "super": base = self.above(self.f.cls)
        elif c.args and g.r(c.args[0], c) == self.me:
            k = next((b for b in [self.C] + list(self.C.mro()) if b.name == txt.split(".")[-1]), None)
            base = k.find_method("hash") if k else None
        elif txt == self.me: base = self.C.find_method("hash")
        if base is not None and self.depth < 6:
            sub = Hash(self.ck, self.C, base, self.depth + 1); res = sub.total()
            self.groups += sub.groups; self.issues += sub.issues
            return res
        return self.ref(c, t)

    def above(self, cls):
        mro = [self.C] + [b for b in self.C.mro() if b is not self.C]
        i = next((i for i, b in enumerate(mro) if b is cls), None)
        if i is None: return None
        for b in mro[i + 1:]:
            if "hash" in b.methods: return b.methods["hash"]
        return None

    def ref(self, c, t):
        g = self.g; out = []
        vs = leaves(g, c.recv, c)
        for d, v in vs:
            if v[0] == "call" and g.nodes[v[1]].name == "next" and g.nodes[v[1]].args:
                n = g.nodes[v[1]]
                for dd, vv in leaves(g, n.args[0], n):
                    if vv[0] == "comp":
                        e = g.nodes[g.comps[vv[2]]["elt"]]
                        for d3, v3 in leaves(g, e.value, e): out += self.refelem(v3, d3, e)
                continue
            if v[0] in ("item", "index") and v[2][0] == "const":
                for dd, vv in leaves(g, v[1], d):
                    if vv[0] == "comp":
                        e = g.nodes[g.comps[vv[2]]["elt"]]
                        for d3, v3 in leaves(g, e.value, e): out += self.refelem(v3, d3, e)
                continue
            if v[0] in ("item", "index") or v[0] == "call" and g.nodes[v[1]].name == "get":
                b, key = (v[1], v[2]) if v[0] != "call" else (g.nodes[v[1]].recv, g.nodes[v[1]].args[0])
                hit = self.indexed(b, key, d)
                if hit: out += hit; continue
            out += self.refelem(v, d, c)
        return out or [[Part("unknown", txt=g.render(t), node=c)]]

    def indexed(self, b, key, d):
        """content of an element looked up in a dictionary by identifier"""
        g = self.g
        for dd, vv in leaves(g, b, d):
            if vv[0] != "comp": return None
            co = g.comps[vv[2]]; heads = [g.nodes[h] for h in co["heads"]]
            s = self.section(heads[0].iter, heads[0]) if heads else None
            e = g.nodes[co["elt"]]; k = e.get("vals")[0] if co["kind"] == "dict" else None
            if not s or k is None or not g.r(k, e).endswith(".ID"): return None
            return [[Part("ref", f, s, node=d, match="ID")] for f in self.key_fields(key, d)] or None
        return None

    def refelem(self, v, d, c):
        g = self.g
        if not (v[0] == "elem" and isinstance(v[2], int)): return [[Part("unknown", txt=g.render(v), node=c)]]
        h = g.nodes[v[2]]; s = self.section(h.iter, h)
        if not s: return [[Part("unknown", txt=g.render(v), node=c)]]
        e = g.r(v, d); out = []; found = False
        for where in (c, d) if c.id != d.id else (c,):
            for b, t, q in atoms(g, where):
                if t[0] != "cmp": continue
                l, r = t[2], t[3]
                for x, y in ((l, r), (r, l)):
                    m = re.match(r"^" + re.escape(e) + r"\.(\w+)$", g.render(x))
                    if not m: continue
                    if t[1] in ("==", "!=") and (t[1] == "==") == q:
                        fs = self.key_fields(y, b)
                        early = early_exit(g, c, v, [], e)
                        for f in fs: out.append([Part("ref", f, s, node=c, match=m.group(1), early=early)]); found = True
                    if t[1] in ("in", "not in") and (t[1] == "in") == q and x is l:
                        f = self.field(g.resolve(y, b), b)
                        if f: out.append([Part("ref", f, s, node=c, match=m.group(1), exact=False)]); found = True
            if found: break
        if not found: out.append([Part("all", None, s, node=c)])
        uniq = {repr(a): a for a in out}
        return list(uniq.values())

    def key_fields(self, t, node):
        """fields whose (elements') value a key is"""
        g = self.g; out = []
        for d, v in leaves(g, t, node):
            f = self.field(v, d)
            if f: out.append(f); continue
            out += self.element_fields(v, d)
        return list(dict.fromkeys(out))

    def element_fields(self, v, d):
        g = self.g
        if v[0] == "unpack" and v[1][0] == "elem" and isinstance(v[1][2], int):
            h = g.nodes[v[1][2]]; out = []
            for dd, it in leaves(g, h.iter, h):
                if it[0] == "call" and g.nodes[it[1]].name in ("zip", "enumerate", "zip_longest"):
                    c = g.nodes[it[1]]; i = v[2] - (1 if c.name == "enumerate" else 0)
                    if 0 <= i < len(c.args): out += self.iter_fields(c.args[i], c)
                elif it[0] in ("list", "tuple"):
                    for x in it[1]:
                        if x[0] in ("tuple", "list") and v[2] < len(x[1]): out += self.key_fields(x[1][v[2]], dd)
            return out
        if v[0] == "elem" and isinstance(v[2], int):
            h = g.nodes[v[2]]
            return self.iter_fields(h.iter, h)
        if v[0] == "elem" and v[2] == "zip": return []
        return []

    def iter_fields(self, t, node):
        g = self.g; out = []
        for d, v in leaves(g, t, node):
            f = self.field(v, d)
            if f: out.append(f); continue
            if v[0] in ("list", "tuple"):
                for x in v[1]:
                    if x[0] == "star": out += self.iter_fields(x[1], d)
                    else: out += self.key_fields(x, d)
            elif v[0] == "bin" and v[1] == "+": out += self.iter_fields(v[2], d) + self.iter_fields(v[3], d)
            elif v[0] == "bool": 
                for x in v[2]: out += self.iter_fields(x, d)
            elif v[0] == "unpack" or v[0] == "elem": out += self.element_fields(v, d)
            elif v[0] == "call" and g.nodes[v[1]].name in ("list", "tuple", "sorted", "set", "reversed", "iter") and g.nodes[v[1]].args: out += self.iter_fields(g.nodes[v[1]].args[0], g.nodes[v[1]])
        return out

    def total(self):
        out = []
        for r in returns(self.g): out += self.alts(r.value, r)
        return out


def classes(ck):
    out = []
    for s in SEC:
        mod = ck.p.mod(M + {"process_data": "processes_data"}.get(s, s))
        for c in [x for x in ck.p.all_classes() if x.mod is mod]:
            if c.name in ABSTRACT or not c.base_names() or ck.p.is_enum(c) or not c.all_fields(): continue
            out.append((s, c))
    return out


def check(ck):
    refs = {}
    for sec, c, f, kind, shape in p10.references(ck)[0]: refs[(c.name, f)] = kind
    ck.need("element kinds", len(classes(ck)), 20)
    for s, C in classes(ck):
        f = C.find_method("hash")
        ck.ob("fingerprint", C.name, f is not None, "has no fingerprint", C.loc)
        if f is None: continue
        H = Hash(ck, C, f); al = H.total()
        parts = [p for a in al for p in flat(a)]
        loc = f.loc
        val = {p.field: p for p in parts if p.kind == "val"}
        ref = {}
        for p in parts:
            if p.kind == "ref": ref.setdefault(p.field, []).append(p)
        ann = lambda n: (ast.unparse(C.find_field(n)[1][0]) if C.find_field(n)[1][0] is not None else "")
        for n in C.all_fields():
            if n in NOT or (C.name, n) in EXCLUDED and n not in val: continue
            want = refs.get((C.name, n))
            if n in KIND:
                continue
            if want is None and n == "links":
                p = val.get(n)
                ck.ob("covered", f"{C.name}.{n}", p is not None, "does not enter the fingerprint: configurations that differ in it have the same fingerprint", loc)
                located = any("location" in q.txt for q in parts if q.kind == "val" and q.field == n)
                ck.ob("identity", f"{C.name}.{n}", p is None or located, "enters the fingerprint by the identifiers of the linked locations", loc)
                continue
            if want is None:
                ck.ob("covered", f"{C.name}.{n}", n in val, "does not enter the fingerprint: configurations that differ in it have the same fingerprint", loc)
                continue
            rs = ref.get(n, [])
            if not rs and any(p.kind == "unknown" and n in p.txt for p in parts): continue          # computed in a way that is not followed
            ck.ob("covered", f"{C.name}.{n}", bool(rs), f"the content of what it refers to does not enter the fingerprint{' (only the identifier does)' if n in val else ''}", loc)
            ck.ob("section", f"{C.name}.{n}", all(p.sec == want for p in rs), f"is looked up in {[p.sec for p in rs]} instead of {want}", loc)
            ck.ob("match", f"{C.name}.{n}", all(p.match in ("ID",) or p.match == "product_type" and want == "product_data" for p in rs), "is matched by something else than the identifier", loc)
            bad = next((p for p in rs if p.early is not None), None)
            ck.ob("search", f"{C.name}.{n}", bad is None, f"the search ends before all elements have been compared ({bad.early.loc if bad else ''})", loc)
            islist = ann(n).replace("Optional[", "").startswith(("List", "list", "Union"))
            if islist and rs:
                orders = {gr.order if gr.many else "fixed" for sep, gs, c in H.groups for gr in gs if any(p.kind == "ref" and p.field == n for a in gr.alts for p in a)}
                if (C.name, n) in SEQ:
                    ck.ob("order", f"{C.name}.{n}", orders == {"field"}, f"the order of its elements does not enter the fingerprint ({sorted(orders)})", loc)
                else:
                    ck.ob("order", f"{C.name}.{n}", orders == {"sorted"}, f"the fingerprint depends on the order in which elements are listed ({sorted(orders)})", loc)
        for n in sorted(set(val) & (IDENT | {k[1] for k in refs if k[0] == C.name})):
            ck.ob("identity", f"{C.name}.{n}", False, "an identifier or description enters the fingerprint", loc)
        ck.ob("identity", C.name, not (set(val) & (IDENT | {k[1] for k in refs if k[0] == C.name})), "identifiers enter the fingerprint", loc) if False else None
        for p in parts:
            if p.kind == "ident": ck.ob("identity", f"{C.name}/{p.txt}", False, "an identifier or description enters the fingerprint", p.node.loc)
            if p.kind == "all": ck.ob("match", f"{C.name}/{p.sec}", False, "the content of elements that are not referred to enters the fingerprint", p.node.loc)
        for c, a, b in PAIRS:
            if c == C.name and a in C.all_fields() and a in val and b in ref: paired(ck, H, C, a, b, loc)
        for a, b in (("input_queues", "output_queues"), ("loading_time_model_id", "unloading_time_model_id"), ("origin_setup", "target_setup"), ("relevant_processes", "relevant_transport_processes")):
            if a in ref and b in ref: sides(ck, H, C, a, b, loc, al)
        separated(ck, H, C, al, refs, loc, ann)
        raw_order(ck, H, C, loc, refs)
    distinct(ck, refs)
    system(ck)


def groups_with(H, pred):
    return [(sep, i, gr) for sep, gs, c in H.groups for i, gr in enumerate(gs) if any(pred(p) for a in gr.alts for p in a)]


def paired(ck, H, C, a, b, loc):
    """amount and the element it belongs to enter together"""
    ok = any(any(p.kind == "val" and p.field == a for p in alt) and any(p.kind == "ref" and p.field == b for p in alt) for sep, gs, c in H.groups for gr in gs for alt in gr.alts)
    if not ok:
        # two lists in the original order of both fields
        ga = groups_with(H, lambda p: p.kind == "val" and p.field == a); gb = groups_with(H, lambda p: p.kind == "ref" and p.field == b)
        ok = bool(ga) and bool(gb) and all(gr.order == "field" for s, i, gr in ga + gb)
    ck.ob("pairing", f"{C.name}.{a}", ok, f"does not enter the fingerprint together with the element of {b} it belongs to", loc)


def sides(ck, H, C, a, b, loc, al):
    """two references of the same kind stay distinguishable"""
    mixed = any(gr.order == "sorted" and all(any(p.kind == "ref" and p.field == x for alt in gr.alts for p in alt) for x in (a, b)) and not tagged(gr, a, b) for sep, gs, c in H.groups for gr in gs)
    mixed = mixed or any(sum(1 for alt in gr.alts for p in alt if p.kind == "ref" and p.field in (a, b)) == 2 and gr.many and gr.order in ("field", "section") and not tagged(gr, a, b) for sep, gs, c in H.groups for gr in gs)
    ck.ob("sides", f"{C.name}.{a}/{b}", not mixed, f"what {a} and {b} refer to is mixed into one sorted list", loc)


def tagged(gr, a, b):
    def tag(x): return {tuple(p.txt for p in alt if p.kind == "const") + tuple(p.field for p in alt if p.kind == "val") for alt in gr.alts if any(p.field == x and p.kind == "ref" for p in alt)}
    return bool(tag(a)) and bool(tag(b)) and not (tag(a) & tag(b)) and (("",) not in tag(a))


def word(ann): return bool(ann) and ("Enum" in ann or "Literal" in ann or "Policy" in ann or "Heuristic" in ann or ann == "bool")


def shape(p, C):
    """fixed (digest, constant text, enumeration) or variable length text"""
    if p.kind in ("const",): return "empty" if p.txt == "" else "fixed"
    if p.kind in ("cls", "md5", "ref", "all"): return "fixed"
    if p.kind == "val":
        a = C.find_field(p.field)[1][0]
        return "word" if a is not None and word(ast.unparse(a)) else "bracket" if a is not None and "list[float]" in ast.unparse(a) else "var"
    return "var"


def separated(ck, H, C, al, refs, loc, ann):
    """neighbouring components cannot be confused: (1) parts concatenated without separator (2) elements joined with the empty string"""
    bad = []
    for sep, gs, c in H.groups:
        if sep != "": continue
        prev = None
        for gr in gs:
            kinds = {("opt" if any(shape(p, C) == "empty" for a in gr.alts for p in a) and len(gr.alts) > 1 else None)} | {shape(p, C) for a in gr.alts for p in a if p.kind != "md5"}
            fl = {p.field or p.sec or p.txt for a in gr.alts for p in a if p.kind != "md5"}
            cur = "opt" if "opt" in kinds else "var" if "var" in kinds else "fixed"
            if gr.many: cur = "many-" + cur; 
            secs = frozenset(p.sec for a in gr.alts for p in a if p.kind in ("ref", "all"))
            if gr.many and "var" in kinds: bad.append((c, f"the values of {', '.join(sorted(map(str, fl)))} are joined without separator"))
            elif prev is not None:
                pc, pf, ps = prev
                if pc in ("var", "many-var") and cur in ("var", "many-var"): bad.append((c, f"{', '.join(sorted(map(str, pf)))} and {', '.join(sorted(map(str, fl)))} are joined without separator"))
                elif pc.startswith("many") and cur.startswith("many") and (ps & secs) : bad.append((c, f"the lists {', '.join(sorted(map(str, pf)))} and {', '.join(sorted(map(str, fl)))} are joined without separator"))
                elif "opt" in pc and "opt" in cur and ps & secs: bad.append((c, f"the optional {', '.join(sorted(map(str, pf)))} and {', '.join(sorted(map(str, fl)))} are joined without separator"))
            prev = (cur, fl, secs)
    # plain concatenation
    for a in al:
        pass
    for a, b, n in concatenated(H):
        sa, sb = {("empty" if not x else shape(x[-1], C)) for x in a}, {("empty" if not x else shape(x[0], C)) for x in b}
        fa = {p.field for x in a for p in x if p.field}; fb = {p.field for x in b for p in x if p.field}
        ra = {p.sec for x in a for p in x if p.kind == "ref"}; rb = {p.sec for x in b for p in x if p.kind == "ref"}
        if "var" in sa and "var" in sb: bad.append((n, f"{sorted(fa)} and {sorted(fb)} are concatenated without separator"))
        elif "empty" in sa and len(a) > 1 and "empty" in sb and len(b) > 1 and ra & rb: bad.append((n, f"the optional {sorted(fa)} and {sorted(fb)} are concatenated without separator"))
    for n, m in bad:
        what = re.sub(r"[^\w.,]+", "+", re.sub(r" (is|are|and|the|of|values|lists|optional|joined|concatenated|without|separator)\b", "", " " + m)).strip("+")
        ck.ob("separated", f"{C.name}/{what}", False, m + ": different configurations give the same text", n.loc)
    if not bad: ck.ob("separated", C.name, True, "", loc)


def concatenated(H):
    """[(alternatives left, alternatives right, node)] of all + in the texts"""
    g = H.g; out = []; seen = set()
    w = [(r.value, r) for r in returns(g)]
    while w:
        t, n = w.pop()
        for d, v in leaves(g, t, n):
            if (d.id, v) in seen: continue
            seen.add((d.id, v))
            if v[0] == "call":
                c = g.nodes[v[1]]
                if c.name == "hash": continue
                w += [(x, c) for x in ([c.recv] if c.recv is not None else []) + list(c.args)]
            if v[0] == "bin" and v[1] == "+":
                ops = []
                def flat(x, nn):
                    rs = leaves(g, x, nn)
                    if len(rs) == 1 and rs[0][1][0] == "bin" and rs[0][1][1] == "+":
                        flat(rs[0][1][2], rs[0][0]); flat(rs[0][1][3], rs[0][0])
                    else: ops.append((x, nn))
                flat(v, d)
                alts = [H.alts(x, nn) for x, nn in ops]
                if any(p.kind == "unknown" and p.txt.startswith("[") for a in alts for x in a for p in x): continue
                for i in range(len(alts) - 1): out.append((alts[i], alts[i + 1], d))
                w += ops
    return out


def raw_order(ck, H, C, loc, refs):
    """lists of plain values keep their order"""
    for sep, gs, c in H.groups:
        for gr in gs:
            for alt in gr.alts:
                for p in alt:
                    if p.kind == "val" and gr.many and len(alt) == 1 and p.field not in ("links",) and (C.name, p.field) not in refs:
                        paired_ = any(x[0] == C.name and x[1] == p.field for x in PAIRS)
                        ck.ob("order", f"{C.name}.{p.field}", gr.order == "field", "the order of its values does not enter the fingerprint", loc) if not paired_ else None


def nest(alt): return tuple(nest(p.sub) for p in alt if p.kind == "md5")


def distinct(ck, refs):
    """element kinds of one section that consist of the same components carry different tags"""
    sig = {}
    for s, C in classes(ck):
        f = C.find_method("hash")
        if f is None: continue
        H = Hash(ck, C, f); al = H.total()
        def comp(p):
            if p.kind == "cls": return "cls:" + C.name
            if p.kind == "val":
                a = C.find_field(p.field)[1][0]; a = ast.unparse(a) if a is not None else ""
                lits = re.match(r"^Literal\[([\w.]+)\]$", a)
                if lits: return "lit:" + lits.group(1)
                return "val" + ("*" if a.startswith(("List", "list", "Optional[List")) else "") + (":" + a if word(a) else "")
            if p.kind == "ref": return f"ref:{p.sec}"
            return p.kind + (":" + p.txt if p.kind == "const" else "")
        sig.setdefault(s, []).append((C, {tuple(comp(p) for p in flat(a)) + (nest(a),) for a in al}, f))
    for s, cs in sig.items():
        for i, (A, sa, f) in enumerate(cs):
            for B, sb, h in cs[i + 1:]:
                if A.name == "NodeData": continue
                ck.ob("kind", f"{A.name}/{B.name}", not (sa & sb), "elements of these kinds with equal settings have the same fingerprint although they behave differently", f.loc)


def system(ck):
    C = ck.p.cls("prodsys.adapters.adapter.ProductionSystemAdapter"); f = C.find_method("hash")
    H = Hash(ck, C, f); al = H.total(); g = H.g
    for sec in SEC:
        n = next((x for x in C.all_fields() if x == sec), None)
        gs = [(gr, a, p) for sep, gg, c in H.groups for gr in gg for a in gr.alts for p in flat(a) if p.kind in ("all", "ref") and p.sec == sec]
        if not gs and any(p.kind == "unknown" and f".{sec}" in p.txt for a in al for p in flat(a)) or not gs and any(p.kind == "val" and p.field == sec for a in al for p in flat(a)): continue
        ck.ob("system", sec, bool(gs), "its elements do not enter the fingerprint of the configuration", f.loc)
        ck.ob("system-order", sec, all(gr.order == "sorted" for gr, a, p in gs), "the fingerprint of the configuration depends on the order in which its elements are listed", f.loc)
        ck.ob("system-all", sec, all(p.kind == "all" and not filtered(H, p) for gr, a, p in gs), "only some of its elements enter the fingerprint of the configuration", f.loc)
    val = {p.field for a in al for p in flat(a) if p.kind == "val"}
    ck.ob("system-identity", "ID, seed", not (val & {"ID", "seed"}), "identifier or seed enters the fingerprint of the configuration", f.loc)


def filtered(H, p):
    g = H.g
    return any(True for b, s, pol in g.guard_atoms(p.node) if p.sec in s or "elem(" in s)
