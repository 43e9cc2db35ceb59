"""P10 Dangling references are rejected before a run."""
TECHNIQUE = "enumeration of every reference field of the configuration models; per field, reachability in the validators' control-flow graphs under the assumption that the reference dangles (branch outcomes decided from membership tests, kinds and shapes); lint of accumulators"
NOTE = "A reference counts as covered if some field validator or validate_configuration cannot complete normally when it dangles. Uniqueness of identifiers is not validated at all (known finding)."
import ast, re
from ..lib import *
from .p15 import origins, members, deep
from .p18 import atoms
from .steps import elements

AD = "prodsys.adapters.adapter"; M = "prodsys.models."
PROC, TIME, STATE, QUEUE, PRODUCT, AUX = "process_data", "time_model_data", "state_data", "queue_data", "product_data", "auxiliary_data"
SECTIONS = {"state_data": ["StateData"], "process_data": ["CoreAsset"], "resource_data": ["ResourceData"], "product_data": ["ProductData"], "sink_data": ["SinkData"], "source_data": ["SourceData"], "auxiliary_data": ["AuxiliaryData"]}
SUFFIX = [(r"time_model_id$", TIME), (r"process_ids?$", PROC), (r"^state_ids?$", STATE), (r"^(input|output)_queues$", QUEUE)]
NAMED = {("SinkData", "product_type"): PRODUCT, ("SourceData", "product_type"): PRODUCT, ("ProductData", "processes"): PROC, ("ProductData", "transport_process"): PROC, ("ProductData", "auxiliaries"): AUX,
         ("AuxiliaryData", "transport_process"): PROC, ("AuxiliaryData", "storages"): QUEUE, ("AuxiliaryData", "relevant_processes"): PROC, ("AuxiliaryData", "relevant_transport_processes"): PROC,
         ("SetupStateData", "origin_setup"): PROC, ("SetupStateData", "target_setup"): PROC}
PLAIN = {"ID", "description", "capability", "auxiliary_type", "product_type", "links", "metric"}
SHAPES = {("ProductData", "processes"): ("list", "nested", "dict-keys", "dict-values")}
LOCS = ("node_data", "resource_data", "source_data", "sink_data")


def references(ck):
    """[(section, class, field, kind, shape)]"""
    out = []; unknown = []
    for sec in SECTIONS:
        mod = ck.p.mod(M + {"process_data": "processes_data"}.get(sec, sec))
        for c in [x for x in ck.p.all_classes() if x.mod is mod]:
            if not c.base_names() or any("Enum" in b for b in c.base_names()): continue
            if c.name in ("ResourceData", "StateData", "ProcessData"): continue
            for n in c.all_fields():
                ann = c.find_field(n)[1][0]
                kind = NAMED.get((c.name, n)) or next((k for rx, k in SUFFIX if re.search(rx, n)), None)
                if kind:
                    for s in SHAPES.get((c.name, n), (None,)): out.append((sec, c, n, kind, s))
                elif ann is not None and n not in PLAIN and ast.unparse(ann) in ("str", "Optional[str]", "List[str]", "Optional[List[str]]"): unknown.append((c, n))
    return out, unknown


class Validator:
    def __init__(self, ck, f, sec=None):
        self.ck = ck; self.f = f; self.sec = sec
        self.g = ck.graph(f, inline=lambda fn: fn.mod.name == AD or fn.name == "flatten", stop=("assert_required_processes_in_resources_available",))
        self.par = None
        if sec:
            ps = [x for x in f.params() if x not in ("cls", "self")]
            self.par = ps[0] if ps else None
        self.memo = {}

    def section(self, txt):
        """the section of the configuration an expression denotes"""
        if self.par and txt == self.par: return self.sec
        m = re.match(r"^\(?(?:\[\] or )?(?:self|info\.data)(?:\.|\[')(\w+_data)(?:'\])?(?: or \[\])?\)?$", txt) or re.match(r"^(?:self|info\.data)\.(?:get\()'(\w+_data)'(?:, \[\])?\)$", txt)
        return m.group(1) if m else None

    def idset(self, t, node, depth=0):
        """sections whose identifiers make up a collection; None if it is something else"""
        g = self.g
        if depth > 8: return None
        out = set()
        for d, v in leaves(g, t, node):
            if v[0] == "call" and g.nodes[v[1]].name in ("set", "list", "frozenset", "tuple", "sorted", "union", "keys"):
                c = g.nodes[v[1]]
                for x in ([c.recv] if c.name in ("union", "keys") and c.recv is not None else []) + list(c.args):
                    r = self.idset(x, c, depth + 1)
                    if r is None: return None
                    out |= r
                continue
            if v[0] == "bin" and v[1] in ("|", "+"):
                for x in v[2:4]:
                    r = self.idset(x, d, depth + 1)
                    if r is None: return None
                    out |= r
                continue
            els = elements(g, v, d)
            if not els and v[0] == "comp": els = [(d, g.comps[v[2]].get("elt"))]
            if not els: return None
            for a, x in els:
                txt = g.r(x, a); m = re.match(r"^elem\((.*)\)\.ID$", txt)
                s = self.section(m.group(1)) if m else None
                if s is None: return None
                out.add(s)
        return out or None

    def isref(self, t, node, root, field):
        """the value depends on the field of the element"""
        g = self.g; want = f"{root}.{field}"
        return deep(g, t, node, lambda d, v: v[0] == "attr" and v[2] == field and g.r(v, d) == want)

    def whole(self, t, node, depth=0):
        """the collection certainly contains everything the field of the element refers to"""
        g = self.g; root, field, shape = self.root, self.field, self.shape
        if depth > 10: return False
        vs = self.live_leaves(t, node)
        if not vs: return False
        for d, v in vs:
            ok = False; k = v[0]
            if k == "attr": ok = v[2] == field and g.r(v, d) == f"{root}.{field}" and shape in (None, "list", "dict-keys")
            elif k == "call":
                c = g.nodes[v[1]]
                if c.name in ("set", "list", "frozenset", "tuple", "sorted", "dict") and c.args: ok = self.whole(c.args[0], c, depth + 1)
                elif c.name in ("flatten", "chain", "from_iterable") and c.args: ok = any(self.nested(x[1] if x[0] == "star" else x, c) or self.whole(x, c, depth + 1) for x in c.args)
                elif c.name == "keys" and c.recv is not None: ok = shape == "dict-keys" and g.r(c.recv, c) == f"{root}.{field}"
                elif c.name == "union" and c.recv is not None: ok = any(self.whole(x[1] if x[0] == "star" else x, c, depth + 1) or x[0] == "star" and self.nested(x[1], c) for x in [c.recv] + list(c.args))
            elif k == "bool" and v[1] == "or": ok = any(self.whole(x, d, depth + 1) for x in v[2])
            elif k == "bin" and v[1] in ("+", "|"): ok = any(self.whole(x, d, depth + 1) for x in v[2:4])
            elif k in ("list", "tuple", "set"):
                ok = any(self.scalar(x, d) or x[0] == "star" and self.whole(x[1], d, depth + 1) for x in (v[1] if v[1:] and isinstance(v[1], tuple) and v[1] and isinstance(v[1][0], tuple) else v[1:]) if isinstance(x, tuple) and x) or self.collected(v, d, depth)
            elif k == "comp": ok = self.collected(v, d, depth)
            if not ok: return False
        return True

    def collected(self, v, d, depth):
        """some addition to the list adds each of the references in its turn"""
        g = self.g
        for a, x in elements(g, v, d):
            if a.id in self.cur and self.value(x, a, depth + 1) and self.must(a): return True
        return False

    def must(self, a):
        """the addition is executed in the iteration that visits the reference"""
        g = self.g
        hs = [h for h in (g.loops_of(a) if a.kind != "compelt" else [g.nodes[i] for i in g.comps[a.comp]["heads"]] + g.loops_of(a)) if h.get("iter") is not None]
        hs = {h.id: h for h in hs if h.id != self.head and self.iterates(h)}
        if not hs: return True
        for h in hs.values():
            seen = {x for x, ph in self.explore([(iter_edge(g, h).id, ((h.id, 1),))], set(), block={a.id, h.id}, touch=True)}
            if h.id in seen: return False
        return True

    def nested(self, t, node):
        """a list of lists that holds every reference"""
        g = self.g; txt = g.r(t, node)
        if self.shape == "nested": return txt == f"{self.root}.{self.field}"
        if self.shape == "dict-values": return txt in (f"{self.root}.{self.field}.values()", f"list({self.root}.{self.field}.values())")
        return False

    def scalar(self, t, node):
        return self.g.r(t, node) == f"{self.root}.{self.field}" and not self.islist

    def value(self, t, node, depth=0):
        """the value is (in the right iteration) the dangling reference"""
        g = self.g
        if depth > 10: return False
        vs = leaves(g, t, node)
        if not vs: return False
        for d, v in vs:
            if self.scalar(v, d): continue
            if v[0] == "elem" and isinstance(v[2], int) and self.iterates(g.nodes[v[2]]): continue
            if v[0] == "unpack" and self.shape == "dict-keys" and v[2] == 0 and v[1][0] == "elem" and g.r(g.nodes[v[1][2]].iter, g.nodes[v[1][2]]) == f"{self.root}.{self.field}.items()": continue
            return False
        return True

    def iterates(self, h, inner=True):
        """the loop visits the dangling reference (or, one level up, the list it is in)"""
        g = self.g
        if h.get("iter") is None: return False
        key = ("it", h.id, self.ctx, len(self.cur))
        if key in self.memo: return self.memo[key]
        self.memo[key] = False
        r = self.whole(h.iter, h)
        if not r:
            # inner loop over one of the lists of a nested structure
            t = g.resolve(h.iter, h)
            if t[0] == "elem" and isinstance(t[2], int): r = self.nested(g.nodes[t[2]].iter, g.nodes[t[2]])
            if t[0] == "unpack" and t[2] == 1 and t[1][0] == "elem" and self.shape == "dict-values": r = g.r(g.nodes[t[1][2]].iter, g.nodes[t[1][2]]) == f"{self.root}.{self.field}.items()"
        self.memo[key] = r
        return r

    def tracked(self, h):
        g = self.g
        if h.get("iter") is None or h.id == self.head: return False
        return self.iterates(h) or self.nested(h.iter, h) or self.shape in ("dict-keys", "dict-values") and g.r(h.iter, h) == f"{self.root}.{self.field}.items()"

    def decide(self, b, phases):
        t = b.get("raw") or b.term; q = b.get("rawpol", True)
        while t[0] == "not": t = t[1]; q = not q
        if t[0] == "cmp" and t[1] in ("<=", ">=", "<", ">") and not any(x[0] == "const" for x in t[2:4]):
            if t[1] in ("<=", ">="):
                l, r = (t[2], t[3]) if t[1] == "<=" else (t[3], t[2])
                s = self.idset(r, b)
                if s and s <= self.kind and self.whole(l, b): return not q
            if "len(" not in self.g.r(b.term, b): return None
        t = self.g.resolve(b.term, b); q = True
        while t[0] == "not": t = t[1]; q = not q
        r = self.truth(t, b, phases)
        return None if r is None else r == q

    def turn(self, t, node, phases):
        """the term is the dangling reference in the current iterations"""
        if not self.value(t, node): return False
        g = self.g
        for d, v in leaves(g, t, node):
            e = v[1] if v[0] == "unpack" else v
            while e[0] == "elem" and isinstance(e[2], int):
                if e[2] != self.head and phases.get(e[2]) != 1: return False
                it = g.resolve(g.nodes[e[2]].iter, g.nodes[e[2]]); e = it[1] if it[0] == "unpack" else it
        return True

    def truth(self, t, b, phases):
        g = self.g; txt = g.render(t); root, field, shape, kind, C = self.root, self.field, self.shape, self.kind, self.C
        if t[0] == "const": return bool(t[1])
        if t[0] == "call":
            c = g.nodes[t[1]]
            if c.name == "isinstance" and len(c.args) == 2:
                what = g.r(c.args[0], c)
                kinds = {x.split(".")[-1] for x in re.split(r"[ ,()\[\]]+", g.r(c.args[1], c)) if x}
                if what == root: return bool(kinds & {x.name for x in C.mro()})
                if shape and what == f"{root}.{field}": return {"list": "list", "nested": "list"}.get(shape, "dict") in kinds
                if shape and what in (f"{root}.{field}[0]",) and not shape.startswith("dict"): return {"list": "str", "nested": "list"}[shape] in kinds
            if c.name == "hasattr" and len(c.args) == 2 and g.r(c.args[0], c) == root:
                n = g.r(c.args[1], c).strip("'"); return n in C.all_fields()
            if c.name == "issubset" and c.recv is not None and self.idset(c.args[0], c) and self.idset(c.args[0], c) <= kind and self.whole(c.recv, c): return False
            if c.name == "issuperset" and c.recv is not None and self.idset(c.recv, c) and self.idset(c.recv, c) <= kind and self.whole(c.args[0], c): return False
            if c.name == "bool" and c.args: return self.truth(g.resolve(c.args[0], c), c, phases)
            if c.name in ("len",): return self.nonempty(c.args[0], c)
        if t[0] == "cmp":
            l, r = t[2], t[3]
            if t[1] in ("in", "not in"):
                s = self.idset(r, b)
                if s and s <= kind and self.turn(l, b, phases): return t[1] == "not in"
            if t[1] in ("is", "==", "is not", "!=") and ("const", None) in (l, r):
                o = l if r == ("const", None) else r
                if g.render(o) == f"{root}.{field}" or self.turn(o, b, phases): return t[1] in ("is not", "!=")
            if t[1] in ("==", "!="):
                for a, o in ((l, r), (r, l)):
                    if g.render(o) in ("set()", "[]", "0", "{}"):
                        x = a
                        if g.render(o) == "0" and a[0] == "call" and g.nodes[a[1]].name == "len": x = g.nodes[a[1]].args[0]
                        n = self.nonempty(x, b)
                        if n is not None: return n == (t[1] == "!=")
            if t[1] == "<" and g.render(l) == "0" and r[0] == "call" and g.nodes[r[1]].name == "len": return self.nonempty(g.nodes[r[1]].args[0], b)
        return self.nonempty(t, b)

    def rawdiff(self, t, node, depth=0):
        """the unresolved operands of set differences a term is made of: [(left, right, node)]"""
        out = []
        if not isinstance(t, tuple) or not t or depth > 8: return out
        if t[0] == "bin" and t[1] == "-": return [(t[2], t[3], node)]
        if t[0] == "call":
            c = self.g.nodes[t[1]]
            if c.name == "difference" and c.recv is not None and c.args: return [(c.recv, c.args[0], c)]
            if c.name in ("set", "list", "len", "bool", "sorted", "tuple") and c.args: return self.rawdiff(c.args[0], c, depth + 1)
            return out
        if t[0] == "var":
            for d, v in leaves(self.g, t, node):
                if v != t and d.id in self.cur: out += self.rawdiff(d.get("value") if d.kind == "assign" and d.get("value") is not None else v, d, depth + 1)
            return out
        if t[0] in ("cmp", "not", "bool"):
            for x in (t[2] if t[0] == "bool" else t[1:]):
                if isinstance(x, tuple): out += self.rawdiff(x, node, depth + 1)
        return out

    def missing(self, l, r, n):
        s = self.idset(r, n)
        return bool(s) and s <= self.kind and self.whole(l, n)

    def nonempty(self, t, node):
        """a collection that certainly contains the dangling reference (or the section's element)"""
        g = self.g; root = self.root
        if g.r(t, node) == f"{root}.{self.field}": return True
        m = re.match(r"^elem\((.*)\)$", root)
        if m and g.r(t, node) == m.group(1): return True
        if (t[0] == "bin" and t[1] == "-" or t[0] == "call" and g.nodes[t[1]].name == "difference") and node.kind == "branch":
            if any(self.missing(l, r, n) for l, r, n in self.rawdiff(node.term, node)): return True
        if t[0] == "var" or t[0] == "phi":
            pass
        vs = self.live_leaves(node.term if node.kind == "branch" and node.term[0] == "var" else t, node)
        if not vs: return None
        res = set()
        for d, v in vs:
            ok = None
            if v[0] == "const": ok = bool(v[1])
            elif v[0] == "bin" and v[1] == "-": ok = True if self.missing(v[2], v[3], d) else None
            elif v[0] == "call" and g.nodes[v[1]].name == "difference": ok = True if self.missing(g.nodes[v[1]].recv, g.nodes[v[1]].args[0], g.nodes[v[1]]) else None
            elif v[0] == "call" and g.nodes[v[1]].name in ("set", "list", "sorted", "tuple") and g.nodes[v[1]].args: ok = self.nonempty(g.nodes[v[1]].args[0], g.nodes[v[1]])
            elif v[0] in ("comp", "list"):
                for a, x in elements(g, v, d):
                    if a.id in self.cur and (self.value(x, a) or g.r(x, a) == root) and self.must(a): ok = True
            elif v[0] == "bin" and v[1] == "+": ok = True if any(self.nonempty(x, d) for x in v[2:4]) else None
            res.add(ok)
        return res.pop() if len(res) == 1 else None

    def live_leaves(self, t, node):
        """values of a term among the definitions that can reach the node under the assumption"""
        g = self.g; ls = leaves(g, t, node); ids = {d.id for d, v in ls if d.id != node.id}; out = []
        for d, v in ls:
            if d.id == node.id: out.append((d, v)); continue
            if d.id not in self.cur: continue
            seen = set(); w = [s for s, l in d.succ if l != "exc"]; hit = False
            while w and not hit:
                x = w.pop()
                if x == node.id: hit = True
                if x in seen or x not in self.cur or x in ids: continue
                seen.add(x); w += [s for s, l in g.nodes[x].succ if l != "exc"]
            if hit: out.append((d, v))
        return out

    def rejects(self, C, field, kind, shape, root_sec):
        """the validator cannot complete normally when an element of class C has a dangling reference: None if so, else a reason"""
        g = self.g; why = "no validator looks at it"
        heads = [h for h in g.nodes if h.kind == "loophead" and h.id in g.live() and h.get("iter") is not None and self.section(g.r(h.iter, h)) == root_sec]
        self.C, self.field, self.kind, self.shape = C, field, kind, shape
        ann = C.find_field(field)[1][0]; self.islist = ann is not None and re.search(r"List|list|Dict|Union", ast.unparse(ann)) is not None
        live = {n.id for n in g.nodes if n.id in g.live()}
        for h in heads:
            self.root = f"elem({g.r(h.iter, h)})"; self.head = h.id; self.ctx = (C.name, field, shape, h.id)
            if not any(self.relevant(n) for n in g.nodes if n.id in live): continue
            ie = iter_edge(g, h); self.cur = live
            for _ in range(5):
                seen = {x for x, ph in self.explore([(ie.id, ())], set())}
                new = seen | self.before(h)
                if new == self.cur: break
                self.cur = new
            if g.exit.id in seen: why = f"{self.f.short} accepts it"; continue
            # the loop is reached whenever there is such an element, and never skipped
            seen = {x for x, ph in self.explore([(g.entry.id, ())], set(), block={h.id})}
            if g.exit.id in seen: why = f"{self.f.short} can be left before it is checked"; continue
            # other elements do not end the loop early
            seen = set(); w = [ie.id]
            while w:
                x = w.pop()
                if x in seen or x == h.id: continue
                seen.add(x); w += [s for s, l in g.nodes[x].succ if l != "exc"]
            if g.exit.id in seen: why = f"the loop over {g.r(h.iter, h)} can end before every element has been checked"; continue
            return None
        return why

    def relevant(self, n):
        if n.kind != "branch": return False
        key = (n.id, self.root, self.field)
        if key not in self.memo:
            t = self.g.resolve(n.term, n)
            while t[0] == "not": t = t[1]
            self.memo[key] = any(self.isref(x, n, self.root, self.field) for x in (t[2:4] if t[0] == "cmp" else (t,)) if isinstance(x, tuple))
        return self.memo[key]

    def before(self, h):
        g = self.g
        return {n.id for n in g.nodes if n.id in g.live() and g.reaches(n, h) and not g.dominates(iter_edge(g, h), n)}

    def explore(self, starts, stop, block=(), touch=False):
        """(node, loop phases) reachable under the assumption. Phases of a loop that visits the dangling reference: 0 before, 1 in, 2 after the
        iteration that visits it; the loop only ends normally in phase 2"""
        g = self.g; seen = set(); w = list(starts)
        while w:
            x, ph = w.pop()
            if (x, ph) in seen or x in stop: continue
            seen.add((x, ph)); n = g.nodes[x]; P = dict(ph)
            if x in block: continue
            tr = n.kind == "loophead" and self.tracked(n)
            if n.kind == "loophead" and x == self.head: P = {}
            for s, l in n.succ:
                if l == "exc": continue
                e = g.nodes[s]
                if e.kind == "edge" and g.nodes[e.of].kind == "branch":
                    r = self.decide(g.nodes[e.of], P)
                    if r is not None and bool(e.label) != r: continue
                Q = [dict(P)]
                if tr and e.kind == "edge" and e.of == x:
                    cur = P.get(x, 0); isiter = e.id == iter_edge(g, n).id
                    if isiter: Q = [dict(P, **{}) | {x: 1}] + [dict(P) | {x: cur}] if cur == 0 else [dict(P) | {x: 2}]
                    elif cur != 2: continue
                    else: Q = [{k: v for k, v in P.items() if k != x}]
                if e.kind == "loophead" and self.tracked(e):
                    back = g.dominates(iter_edge(g, e), n)
                    Q = [dict(q) | {s: (2 if q.get(s) in (1, 2) else 0) if back else 0} for q in Q]
                for q in Q: w.append((s, tuple(sorted(q.items()))))
        return seen


def members2(g, h):
    return elements(g, h.iter, h)


def validators(ck):
    A = ck.p.cls(AD + ".ProductionSystemAdapter"); out = []
    for n, f in A.methods.items():
        for d in f.node.decorator_list:
            if isinstance(d, ast.Call) and getattr(d.func, "id", getattr(d.func, "attr", "")) in ("field_validator", "validator"):
                for a in d.args:
                    if isinstance(a, ast.Constant): out.append(Validator(ck, f, a.value))
    out.append(Validator(ck, A.methods["validate_configuration"]))
    return A, out


def check(ck):
    A, vs = validators(ck)
    full = vs[-1]
    refs, unknown = references(ck)
    for c, n in unknown: ck.ob("reference", f"{c.name}.{n}", False, "a text field of the configuration is neither a known reference nor a known plain text", c.loc)
    for sec, C, field, kind, shape in refs:
        name = f"{C.name}.{field}" + (f"/{shape}" if shape else "")
        why = None; ok = False
        for v in vs:
            if v.sec not in (None, sec): continue
            r = v.rejects(C, field, {kind}, shape, sec)
            if r is None: ok = True; break
            if why is None or r != "no validator looks at it": why = r
        ck.ob("reference", name, ok, f"an unknown identifier in {C.name}.{field} reaches the simulation ({why})", C.loc)
    ck.need("reference fields", len(refs), 30)
    # every validator can see what it refers to: sections are declared before the ones that refer to them
    order = [n for n in A.fields]
    for v in vs[:-1]:
        for n in ast.walk(v.f.node):
            s = None
            if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str) and n.slice.value.endswith("_data"): s = n.slice.value
            if s: ck.ob("declared-before", f"{v.sec}/{s}", s in order and v.sec in order and order.index(s) < order.index(v.sec), f"{s} is not available yet when {v.sec} is validated", f"{v.f.mod.rel}:{n.lineno}")
    # a section that is replaced later is validated again
    cfg = A.find_field("model_config")[1][1]
    va = any(isinstance(k, ast.keyword) and k.arg == "validate_assignment" and isinstance(k.value, ast.Constant) and k.value.value is True for k in ast.walk(cfg))
    ck.ob("assignment", "ProductionSystemAdapter", va, "sections assigned after the construction are not validated", A.loc)
    links(ck, full); before_run(ck); capabilities(ck); accumulators(ck); unique(ck, vs)


def links(ck, v):
    """both ends of every link are known locations"""
    g = v.g; C = ck.p.cls(M + "processes_data.LinkTransportProcessData"); seen = {}
    for b in g.nodes:
        if b.kind != "branch" or b.id not in g.live(): continue
        t = g.resolve(b.term, b); q = True
        while t[0] == "not": t = t[1]; q = not q
        if t[0] != "cmp" or t[1] not in ("in", "not in"): continue
        ids = v.idset(t[3], b)
        if not ids or not deep(g, t[2], b, lambda d, x: x[0] == "attr" and x[2] == "links"): continue
        bad = [e for e in (g.nodes[s] for s, l in b.succ) if e.kind == "edge" and bool(e.label) == (q == (t[1] == "not in"))]
        rej = bad and not any(g.reaches(e, g.exit) for e in bad)
        side = re.search(r"\[(\d)\]$|#(\d)$", g.render(t[2])); s = t[2]
        while s[0] not in ("unpack", "item") and s[0] == "attr": s = s[1]
        i = s[2] if s[0] == "unpack" else (s[2][1] if s[0] == "item" and s[2][0] == "const" else "each")
        lits = [x for x in literals_of(g, b)]
        ok = consistent_link(lits) and rej
        hs = [h for h in g.loops_of(b) if h.iter is not None]
        for h in hs:
            body = set(); w = [iter_edge(g, h).id]
            while w:
                x = w.pop()
                if x in body or x == h.id: continue
                body.add(x); w += [y for y, l in g.nodes[x].succ if l != "exc"]
            ck.ob("links", "ends-early", g.exit.id not in body, "the links are not all checked", h.loc)
        ck.ob("links", f"end {i}", ok, "a link to an unknown location is not rejected", b.loc)
        ck.ob("links", f"end {i}/locations", ids == set(LOCS), f"the ends of links are looked for in {sorted(ids)}", b.loc)
        seen[i] = b
    ck.ob("links", "both-ends", set(seen) >= {0, 1} or "each" in seen, "not both ends of the links are checked", C.loc)
    # both representations of links are checked
    for shape in ("dict", "list"):
        keep = lambda lit: not (m := re.match(r"(!?)isinstance\((.*)\.links, (\w+)\)$", lit)) or (m.group(1) == "!") != (m.group(3) == shape)
        r = reach_under(g, keep)
        for i, b in seen.items():
            ck.ob("links", f"end {i}/{shape}", b.id in r and feeds(g, b, r), f"links given as {shape} are not checked", b.loc)


def feeds(g, b, r):
    t = g.resolve(b.term, b)
    while t[0] == "not": t = t[1]
    s = t[2]
    while s[0] in ("unpack", "item", "attr"): s = s[1]
    if s[0] != "elem": return True
    h = g.nodes[s[2]]
    return any(d.id in r and (v[0] not in ("list",) or v[1:] not in ((), ((),)) or elements(g, v, d)) for d, v in leaves(g, h.iter, h)) and any(a.id in r for a, x in elements(g, h.iter, h)) or any(d.id in r and v[0] == "attr" for d, v in leaves(g, h.iter, h))


def literals_of(g, b):
    return [("" if q else "!") + g.render(t) for _, t, q in atoms(g, b)]


def consistent_link(lits):
    rest = [l for l in lits if not re.search(r"isinstance\(", l) and not re.search(r" in |listcomp|_data", l)]
    return not rest


def before_run(ck):
    f = ck.p.func("prodsys.util.runner.Runner.initialize_simulation")
    g = ck.graph(f, stop=("validate_configuration", "add_resource", "add_time_model", "add_state", "add_processes", "add_queue", "add_sink", "add_source"))
    vs = [c for c in g.calls("validate_configuration") if c.id in g.live() and g.r(c.recv, c) == "self.adapter"]
    ck.ob("before-run", "Runner.initialize_simulation", bool(vs), "the configuration is not validated before a run", f.loc)
    makes = [c for c in g.nodes if c.kind == "call" and c.id in g.live() and re.match(r"create_|start_", c.name or "")]
    for c in makes:
        ck.ob("before-run", f"Runner.initialize_simulation/{c.name}", any(g.dominates(v, c) for v in vs), "simulation objects are created before the configuration has been validated", c.loc)
    ck.need("created object kinds", len(makes), 8)
    # nothing swallows the error
    for v in vs:
        hs = [n for n in g.nodes if n.kind == "handler" and n.id in g.live() and any(l == "exc" and g.reaches(g.nodes[s], n) and not g.dominates(v, n) is False for s, l in v.succ)]
        ck.ob("before-run", "Runner.initialize_simulation/error", not any(l == "exc" and g.nodes[s].kind == "handler" for s, l in v.succ), "the error of the validation can be swallowed", v.loc)


def capabilities(ck):
    """required processes and capabilities are among the available ones"""
    f = ck.p.func(AD + ".ProductionSystemAdapter.validate_configuration")
    g = ck.graph(f, inline=lambda fn: fn.mod.name == AD and not fn.name.startswith("get_") or fn.name == "flatten")
    found = []
    for b in g.nodes:
        if b.kind != "branch" or b.id not in g.live(): continue
        t = g.resolve(b.term, b); q = True
        while t[0] == "not": t = t[1]; q = not q
        diff = None
        if t[0] == "cmp" and t[1] in ("==", "!=") and any(g.render(x) in ("set()",) for x in t[2:4]):
            diff = t[2] if g.render(t[3]) == "set()" else t[3]; nonempty = (t[1] == "!=") == q
        elif t[0] == "bin" and t[1] == "-": diff = t; nonempty = q
        elif t[0] == "call" and g.nodes[t[1]].name == "issubset": c = g.nodes[t[1]]; diff = ("bin", "-", c.recv, c.args[0]); nonempty = not q
        elif t[0] == "cmp" and t[1] == "<=": diff = ("bin", "-", t[2], t[3]); nonempty = not q
        if diff is None or diff[0] != "bin" or diff[1] != "-": continue
        need, have = diff[2], diff[3]
        prod = lambda d, v: v[0] == "attr" and v[2] == "product_data"
        res = lambda d, v: v[0] == "attr" and v[2] == "resource_data"
        if not (deep(g, need, b, prod) or deep(g, have, b, prod)): continue
        a = {m for m in re.findall(r"\)\.(ID|capability)\b", g.render(need))}; bset = {m for m in re.findall(r"\)\.(ID|capability)\b", g.render(have))}
        found.append(b)
        last = lambda t: {x[2] for x in (g.resolve(e, n) for n, e in set_elements(g, t, b)) if x[0] == "attr"}
        ka, kb = last(need), last(have)
        ck.ob("available", f"check {len(found)}", deep(g, need, b, prod) and not deep(g, need, b, res) and deep(g, have, b, res) and not deep(g, have, b, prod), "what the resources offer is not compared with what the products need", b.loc)
        ck.ob("available", f"check {len(found)}/same-attribute", ka == kb and len(ka) == 1, f"{sorted(ka)} is compared with {sorted(kb)}", b.loc)
        bad = [e for e in (g.nodes[s] for s, l in b.succ) if e.kind == "edge" and bool(e.label) == nonempty]
        ck.ob("available", f"check {len(found)}/raises", bool(bad) and not any(g.reaches(e, g.exit) for e in bad), "a missing process is not rejected", b.loc)
        ck.ob("available", f"check {len(found)}/always", g.path_avoiding(g.entry, g.exit, [b]) is None, "the comparison can be skipped", b.loc)
    kinds = {tuple(sorted({m for m in re.findall(r"get_(\w+?)_processes_from_ids", g.r(b.term, b))})) for b in found}
    allk = {k for ks in kinds for k in ks}
    for k in ("production", "transport", "capability", "required_capability"): ck.ob("available", k, k in allk, f"{k} processes are not compared", f.loc)
    for b in found:
        ks = {m for m in re.findall(r"get_(\w+?)_processes_from_ids", g.r(b.term, b))} - {"compound", "required_capability"}
        ck.ob("available", f"{'/'.join(sorted(ks))}", len(ks) == 1, f"different kinds of processes are compared: {sorted(ks)}", b.loc)



def set_elements(g, t, node, depth=0):
    out = []
    if depth > 6: return out
    for d, v in leaves(g, t, node):
        if v[0] == "call" and g.nodes[v[1]].name in ("set", "list", "frozenset", "tuple") and g.nodes[v[1]].args: out += set_elements(g, g.nodes[v[1]].args[0], g.nodes[v[1]], depth + 1)
        else: out += elements(g, v, d)
    return out


def accumulators(ck):
    """a list a function collects its result in is not replaced while it is being filled"""
    k = 0
    for f in ck.p.all_funcs("prodsys."):
        if f.is_generator or not f.mod.name.startswith((AD, "prodsys.optimization.util", "prodsys.util.util", "prodsys.factories", "prodsys.express")): continue
        rets = {n.value.id for n in own(f.node) if isinstance(n, ast.Return) and isinstance(n.value, ast.Name)}
        for r in rets:
            outer = [n for n in f.node.body if isinstance(n, (ast.Assign, ast.AnnAssign)) and target(n) == r and isinstance(n.value, (ast.List, ast.Dict, ast.Call)) and not getattr(n.value, "elts", None) and not getattr(n.value, "keys", None) and (not isinstance(n.value, ast.Call) or getattr(n.value.func, "id", "") in ("list", "set", "dict") and not n.value.args)]
            if not outer: continue
            k += 1
            for lp in [n for n in own(f.node) if isinstance(n, (ast.For, ast.While))]:
                for n in ast.walk(lp):
                    if isinstance(n, (ast.Assign, ast.AnnAssign)) and target(n) == r:
                        ck.ob("accumulator", f"{f.mod.name.split('.')[-1]}.{f.short}", r in {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)}, f"{r} collects the result but is replaced inside the loop: what was found before is lost", f"{f.mod.rel}:{n.lineno}")
            ck.ob("accumulator", f"{f.mod.name.split('.')[-1]}.{f.short}", True, "", f.loc)
    ck.need("accumulating functions", k, 15)


def own(fn):
    st = list(fn.body)
    while st:
        n = st.pop(); yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)): continue
        st += list(ast.iter_child_nodes(n))


def target(n):
    ts = n.targets if isinstance(n, ast.Assign) else [n.target]
    return ts[0].id if len(ts) == 1 and isinstance(ts[0], ast.Name) else None


def unique(ck, vs):
    """identifiers are unique per kind: some validator compares how often an identifier occurs"""
    hit = {}
    for v in vs:
        g = v.g
        for b in g.nodes:
            if b.kind != "branch" or b.id not in g.live(): continue
            t = g.resolve(b.term, b)
            while t[0] == "not": t = t[1]
            if t[0] != "cmp": continue
            txt = g.render(t)
            m = re.search(r"len\(.*\)", txt)
            if not m or ".ID" not in txt: continue
            for s in ("time_model_data", "state_data", "process_data", "queue_data", "resource_data", "product_data", "sink_data", "source_data", "auxiliary_data"):
                if txt.count("len(") == 2 and s in txt and any(e.kind == "edge" and not g.reaches(e, g.exit) for e in (g.nodes[x] for x, l in b.succ)): hit[s] = b
    A = ck.p.cls(AD + ".ProductionSystemAdapter")
    for s in ("time_model_data", "state_data", "process_data", "queue_data", "resource_data", "product_data", "sink_data", "source_data", "auxiliary_data"):
        ck.ob("unique", s, s in hit, f"two elements of {s} can have the same identifier", A.loc)
