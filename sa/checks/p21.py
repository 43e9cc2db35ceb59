"""P21 Optimiser candidates are independent copies."""
TECHNIQUE = "ownership analysis of the whole optimisation package (objects a statement changes or hands over are traced backwards through locals, callbacks, closures, fields and call sites), plus symbolic evaluation of the lists a recombination operator exchanges"
NOTE = "Scenario data are treated as shared and read-only: every change that reaches an object through scenario_data is a violation, sharing them is not. Library calls (deap, simanneal, simulation runs, see P13) are taken at their documented ownership behaviour: deap clones before varying, simanneal deep-copies its state with the strategy 'deepcopy'."
import ast
from ..lib import *
from ..own import Own, FRESH, level, returns2
from ..index import FuncInfo
from .. import peval
from .p13 import is_config

OPT = "prodsys.optimization"
READ = ("prodsys.optimization", "prodsys.adapters", "prodsys.models", "prodsys.util.util")
AD = "prodsys.adapters.adapter.ProductionSystemAdapter"


def scope(ck):
    p = ck.p; fs = {}
    todo = list(p.all_funcs(OPT)) + [f for f in p.all_funcs("prodsys.util.util") if f.name.startswith("read_")]
    for c in p.all_classes():
        if c.outer is not None and c.mod.name.startswith(OPT): todo += list(c.methods.values())
    while todo:
        f = todo.pop()
        if f.qual in fs or not f.mod.name.startswith(READ): continue
        fs[f.qual] = f
        g = ck.graph(f, inline=lambda x: False, **({"selfcls": f.cls} if f.cls else {}))
        for n in g.nodes:
            if n.kind in ("call", "spawn"):
                todo += [m for m in n.get("cands") or () if isinstance(m, FuncInfo)]
    return list(fs.values())


def adapters_in(p, f, name):
    a = next((x.annotation for x in f.node.args.args + f.node.args.kwonlyargs if x.arg == name), None)
    if a is None: return False
    A = p.cls(AD)
    ts = p.ann_type(a, f.mod)
    return any(c.is_sub(A) for c in list(classes_in(ts)) + list(classes_in(p.elem_type(ts))))


class Opt(Own):
    def __init__(self, ck, funcs):
        self.callbacks = {}                      # qual -> (registered name, number of bound arguments, node)
        self.strict = False
        super().__init__(ck, funcs, is_config, self.root)
        p = ck.p
        self.drivers = set()
        m = p.modules[OPT]
        for name in m.imports:
            r = m.lookup(name)
            if r and r[0] == "func" and r[1].mod.name.startswith(OPT): self.drivers.add(r[1].qual)
        self.registered = []
        for f in funcs:
            if not f.mod.name.startswith(OPT): continue
            g = self.g(f)
            for n in g.nodes:
                if n.kind != "call" or n.id not in g.live() or n.name not in ("register", "partial"): continue
                args = n.args[1:] if n.name == "register" else n.args
                if not args: continue
                for d, v in leaves(g, args[0], n):
                    h = self.fn_of(v)
                    name = n.args[0][1] if n.name == "register" and n.args[0][0] == "const" else n.name
                    self.registered.append((f, g, n, name, h, v))
                    if h is not None: self.callbacks.setdefault(h.qual, []).append((name, len(args) - 1, set(n.kw)))

    def fn_of(self, v):
        if v[0] == "func": return self.byqual.get(v[1] if isinstance(v[1], str) else v[1].qual) or (v[1] if isinstance(v[1], FuncInfo) else None)
        if v[0] == "glob":
            m = self.p.modules.get(v[1]); r = m.lookup(v[2]) if m else None
            if r and r[0] == "func": return r[1]
        return None

    def free(self, fn, name):
        """parameter a registered callback receives from the library: a candidate"""
        for reg, k, kw in self.callbacks.get(fn.qual, ()):
            ps = fn.params()
            if name in ps and ps.index(name) >= k and name not in kw: return True
        return False

    def root(self, fn, name):
        if fn.qual in self.drivers and adapters_in(self.p, fn, name): return f"{name} given to {fn.name}"
        if fn.qual in self.callbacks and adapters_in(self.p, fn, name) and not self.free(fn, name): return "the base configuration"
        return None

    def param(self, fn, name, depth, seen):
        if self.free(fn, name): return self.callers(fn, name, depth, seen) | {("shared", "candidate " + name)}
        return super().param(fn, name, depth, seen)

    def calls(self):
        """call sites, with overriding methods and constructors"""
        if self._calls is None:
            base = super().calls(); out = {q: list(v) for q, v in base.items()}
            for q, sites in base.items():
                m = self.byqual.get(q)
                if m is None or m.cls is None: continue
                for h in self.funcs:
                    if h.cls is not None and h.cls is not m.cls and h.name == m.name and h.cls.is_sub(m.cls):
                        out.setdefault(h.qual, []).extend(x for x in sites if x not in out.get(h.qual, ()))
            for f in self.funcs:
                g = self.g(f)
                for n in g.nodes:
                    if n.kind != "call" or n.id not in g.live() or n.get("inlined"): continue
                    for c in self.constructed(g, n):
                        i = c.find_method("__init__")
                        if i is not None and (f, g, n) not in out.get(i.qual, ()): out.setdefault(i.qual, []).append((f, g, n))
            self._calls = out
        return self._calls

    def attr(self, fn, g, v, d, depth, seen):
        if v[2] == "scenario_data": return {("shared", "the scenario")}
        return super().attr(fn, g, v, d, depth, seen)

    def call(self, fn, g, c, depth, seen):
        if c.name == "clone" and c.args and not (c.get("cands") or ()): return {FRESH}
        if c.name in ("varAnd", "varOr"): return {FRESH}
        return super().call(fn, g, c, depth, seen)

    def field(self, ts, F, depth, seen):
        if self.strict: return {("unknown", f"kept state {F}")}
        return super().field(ts, F, depth, seen)

    def one(self, fn, g, v, d, depth, seen):
        if v[0] == "glob" and fn.cls is not None and getattr(fn.cls, "outer", None) is not None:
            F = fn.cls.outer; h = self.g(F)
            if v[2] in F.all_params() or any(n.kind == "assign" and n.key[1] == v[2] for n in h.nodes):
                if F.qual not in self.byqual: return {("unknown", "enclosing function")}
                return self.origin(F, h, ("var", h.root.id, v[2]), h.exit, depth + 1, seen)
        return super().one(fn, g, v, d, depth, seen)


def base_like(o): return o[0] in ("shared", "top") and not o[1].startswith("candidate") and not o[1].startswith("argument ")


def inplace_fields(own):
    """names of list fields some operation changes in place"""
    out = set()
    for f in own.funcs:
        g = own.g(f)
        for node, t, kind, txt in own.mutations(f):
            if kind == "attr": continue
            for d, v in leaves(g, t, node):
                if v[0] == "attr": out.add(v[2])
    return out


def changeable(own, ts, k, inplace):
    """is something k layers inside a value of this type changeable? (scalars and never-changed lists are not)"""
    for _ in range(k):
        nxt = set()
        for t in ts:
            if t[0] == "C":
                for F, (c, (ann, val)) in t[1].all_fields().items():
                    if F in ("model_config", "scenario_data") or ann is None: continue
                    ft = own.p.ann_type(ann, c.mod)
                    if any(x[0] == "C" and is_config(x[1]) and not own.p.is_enum(x[1]) for x in ft): nxt |= ft
                    elif F in inplace and any(x[0] in ("L", "D", "T") for x in ft): nxt |= {("M",)}
        ts = own.p.elem_type(frozenset(t for t in ts if t[0] not in ("C", "M"))) | frozenset(nxt)
    return any(t == ("M",) or t[0] == "C" and is_config(t[1]) and not own.p.is_enum(t[1]) for t in ts), any(t[0] in ("L", "D") for t in ts)


def handed_over(own, f, g):
    """(node, value, field, extra layers, text): values that become part of a configuration object"""
    p = own.p
    def cfg(t, n): return any(is_config(c) for c in classes_in(own.ttype(g, t, n)))
    for n in g.nodes:
        if n.id not in g.live(): continue
        if n.kind == "store" and n.attr != "scenario_data" and cfg(n.base, n):
            yield n, n.value, n.attr, 0, f"{g.r(n.base, n)}.{n.attr}"
        elif n.kind == "call" and n.name in ("append", "add", "insert") and n.recv is not None and n.args and cfg(n.recv, n):
            yield n, n.args[-1], None, 0, f"{g.r(n.recv, n)}.{n.name}(..)"
        elif n.kind == "call" and n.name == "extend" and n.recv is not None and n.args and cfg(n.recv, n):
            yield n, n.args[0], None, 1, f"{g.r(n.recv, n)}.extend(..)"
        elif n.kind == "assign" and n.get("aug") and n.value[0] == "bin" and n.value[1] == "+" and cfg(n.value[2], n):
            yield n, n.value[3], None, 1, f"{g.r(n.value[2], n)} += .."
        elif n.kind == "call" and not n.get("inlined"):
            cs = [c for c in own.constructed(g, n) if is_config(c)]
            for k, v in (n.kw.items() if cs else ()):
                if k and k != "scenario_data": yield n, v, None, 0, f"{cs[0].name}({k}=..)"


def callback_name(own, fn): return {x[0] for x in own.callbacks.get(fn.qual, ())}


# ---------------------------------------------------------------- recombination
class Lists:
    """what a list-valued expression contains, as pieces of the resource lists the two candidates entered with"""
    def __init__(self, ck, own, fn, g):
        self.ck, self.own, self.fn, self.g, self.p = ck, own, fn, g, ck.p
        self.cur = {}                           # (adapter, field) -> pieces, updated along the path
        self.env = {("var", g.root.id, q): ("=", ("param", q)) for q in fn.params()}

    def adapter(self, t):
        """entry parameter an adapter-valued term is (element 0 of)"""
        t = self.sub(t)
        if t[0] in ("item", "index", "elem", "unpack"): return self.adapter(t[1])
        if t[0] == "param": return t[1]
        return None

    def sub(self, t):
        """the term with the variables replaced by what they hold"""
        if t[0] == "var":
            v = self.env.get(t)
            return v[1] if v and v[0] == "=" else t
        return tuple(self.sub(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else tuple(self.sub(y) if isinstance(y, tuple) and y and isinstance(y[0], str) else y for y in x) if isinstance(x, tuple) else x for x in t)

    def ev(self, t):
        if t[0] == "var" and t in self.env: return self.env[t]
        v = self.pieces(t)
        if v is not None: return ("list", v)
        if t[0] in ("tuple", "list"): return ("tup", tuple(self.ev(x) for x in t[1]))
        if t[0] in ("unpack", "item", "index"):
            b = self.ev(t[1]); i = t[2] if not isinstance(t[2], tuple) else t[2][1] if t[2][0] == "const" else None
            if b[0] == "tup" and isinstance(i, int) and i < len(b[1]): return b[1][i]
        return ("=", self.sub(t))

    def kinds(self):
        A = self.p.cls(AD); f = A.find_field("resource_data")
        from .p12 import classes_in as members
        return sorted({c.name for c in members(self.p, f[0].mod, f[1][0])})

    def whole(self, a): return tuple((a, k, None, None) for k in self.kinds())

    def pieces(self, t):
        """-> tuple of (adapter, class, from, to) or None if not understood"""
        g = self.g
        if t[0] == "var":
            v = self.env.get(t)
            return v[1] if v is not None and v[0] == "list" else None
        if t[0] == "attr" and t[2] == "resource_data":
            a = self.adapter(t[1])
            if a is None: return None
            return self.cur.get(a, self.whole(a))
        if t[0] == "bin" and t[1] == "+":
            x, y = self.pieces(t[2]), self.pieces(t[3])
            return None if x is None or y is None else x + y
        if t[0] in ("list", "tuple"):
            out = ()
            for x in t[1]:
                if x[0] != "star": return None
                q = self.pieces(x[1])
                if q is None: return None
                out += q
            return out
        if t[0] == "item" and t[2][0] == "slice" or t[0] == "slice":
            return self.cut(t)
        if t[0] == "comp":
            return self.comp(t)
        if t[0] == "call":
            n = g.nodes[t[1]]
            if n.id in self.env: return self.env[n.id]
            return self.callv(n)
        if t[0] in ("unpack", "index") or t[0] == "item" and t[2][0] == "const":
            b = self.ev(t[1]); i = t[2] if isinstance(t[2], int) else t[2][1] if t[2][0] == "const" else None
            if b[0] == "tup" and isinstance(i, int) and i < len(b[1]) and b[1][i][0] == "list": return b[1][i][1]
        return None

    def callv(self, n):
        g = self.g
        if n.name in ("list", "copy", "sorted", "deepcopy") and (n.args or n.recv is not None):
            return self.pieces(n.args[0] if n.args else n.recv)
        for m in n.get("cands") or ():
            if not isinstance(m, FuncInfo): continue
            h = self.own.g(m)
            rs = returns2(h)
            if len(rs) != 1: return None
            vals = [v for _, v in leaves(h, rs[0][1], rs[0][0])]
            if len(vals) != 1 or vals[0][0] != "comp": return None
            s = Lists(self.ck, self.own, m, h)
            ps = s.comp(vals[0], entry=True)
            if ps is None: return None
            out = ()
            for a, k, lo, hi in ps:
                act = self.own.actual(m, n, a)
                b = self.adapter(act) if act is not None else None
                if b is None: return None
                now = self.cur.get(b, self.whole(b))
                out += tuple(x for x in now if x[1] == k)
            return out
        return None

    def comp(self, t, entry=False):
        g = self.g; c = g.comps[t[2]]
        if len(c["heads"]) != 1: return None
        en = g.nodes[c["elt"]]; h = g.nodes[c["heads"][0]]
        e = en.value
        for d, v in leaves(g, e, en): e = v
        if e[0] != "elem" : return None
        src = self.pieces(e[1])
        if src is None:
            a = self.adapter(e[1][1]) if e[1][0] == "attr" and e[1][2] == "resource_data" else None
            if a is None: return None
            src = self.whole(a)
        for edge in g.guards(en):
            b = g.nodes[edge.of]; pol = edge.label
            if b.kind != "branch": continue
            m = self.cls_test(g.resolve(b.term, b), e)
            if m is None: return None
            src = tuple(x for x in src if (x[1] in m) == pol)
        return src

    def cls_test(self, term, e):
        if term[0] == "call":
            n = self.g.nodes[term[1]]
            if n.name == "isinstance" and len(n.args) == 2: term = ("pcall", None, n.args, ())
        if term[0] == "pcall" and len(term[2]) == 2:
            out = set()
            for x in (term[2][1][1] if term[2][1][0] == "tuple" else (term[2][1],)):
                if x[0] != "class": return None
                c = self.p.cls(x[1])
                out |= {k for k in self.kinds() if any(d.name == k and d.is_sub(c) for d in self.p.all_classes())}
            return out
        return None

    def cut(self, t):
        base, sl = t[1], t[2]
        ps = self.pieces(base)
        if ps is None: return None
        lo, hi = (sl[1], sl[2]) if len(sl) > 2 else (None, None)
        if len(ps) != 1: return None
        a, k, l0, h0 = ps[0]
        if l0 is not None or h0 is not None: return None
        r = lambda x: None if x is None or x == ("const", None) or x == ("const", 0) else self.key(x)
        return ((a, k, r(lo), r(hi)),)

    def key(self, x):
        x = self.sub(x)
        return x


def recombination(ck, own, fn):
    """every way through the operator leaves the two candidates with a partition of the resources they had"""
    g = ck.graph(fn, inline=lambda f: f.mod is fn.mod)
    n = 0; params = [q for q in fn.params() if own.free(fn, q)]
    ends = list(peval.paths(g, limit=4000))
    seen = set()
    for p in ends:
        if p.end is not None and getattr(p.end, "kind", "") == "raise": continue
        L = Lists(ck, own, fn, g); ok = True; why = None
        for x in p.nodes:
            x = x[0] if isinstance(x, tuple) else x
            node = g.nodes[x] if isinstance(x, int) else x
            step(L, node)
        total = []
        for a in params: total += [(a, y) for y in L.cur.get(a, L.whole(a)) or ()]
        if any(v is None for v in L.cur.values()): why = "the resources a candidate ends with are not determined"; ok = None
        else:
            pieces = [y for _, y in total]
            why = partition(pieces, [w for a in params for w in L.whole(a)])
        choice = tuple((g.render(t)[:70], pol) for t, pol in p.order if not isinstance(t, tuple) or "isinstance" not in g.render(t))
        k = (why, str(sorted(map(str, total))))
        if k in seen: continue
        seen.add(k); n += 1
        ck.ob("recombination-partitions", f"{fn.name} {'; '.join(f'{c}={v}' for c, v in choice)[:160]}", not why, why or "", fn.loc, path=[f"{c} is {v}" for c, v in choice])
    return n


def step(L, n):
    g = L.g
    if n.kind == "assign":
        k = ("var",) + n.key
        if n.value is None: return
        L.env[k] = L.ev(n.value)
    elif n.kind == "store" and n.attr == "resource_data":
        a = L.adapter(n.base)
        if a is not None: L.cur[a] = L.pieces(n.value)
    elif n.kind == "call" and n.name in ("extend", "append", "remove", "pop", "clear", "insert") and n.recv is not None and n.recv[0] == "attr" and n.recv[2] == "resource_data":
        a = L.adapter(n.recv[1])
        if a is not None:
            old = L.cur.get(a, L.whole(a)); new = L.pieces(n.args[0]) if n.name == "extend" and n.args else () if n.name == "clear" else None
            L.cur[a] = () if n.name == "clear" else None if old is None or new is None else old + new
    elif n.kind == "call":
        v = L.callv(n)
        if v is not None: L.env[n.id] = v


def partition(pieces, atoms):
    for at in atoms:
        a, k = at[:2]
        ps = [(lo, hi) for x, y, lo, hi in pieces if (x, y) == (a, k)]
        name = f"the {k} objects of {a}"
        if not ps: return f"{name} are lost"
        if len(ps) == 1 and ps[0] == (None, None): continue
        if len(ps) == 2:
            (l1, h1), (l2, h2) = sorted(ps, key=lambda z: z[0] is not None)
            if l1 is None and h2 is None and h1 == l2 and h1 is not None: continue
        if any(x == (None, None) for x in ps): return f"{name} end up in both candidates"
        return f"{name} are not divided between the candidates exactly once ({len(ps)} part{'s' if len(ps) > 1 else ''})"
    return None


def check(ck):
    p = ck.p; fs = scope(ck); own = Opt(ck, fs)
    ck.need("functions of the optimisation", len(fs), 60)
    ck.ob("drivers", "prodsys.optimization", len(own.drivers) >= 4, "the optimisation methods are not exported")
    inplace = inplace_fields(own)
    n = m = 0
    for f in sorted(fs, key=lambda f: f.qual):
        g = own.g(f)
        if f.cls is not None and is_config(f.cls) and (f.name == "__init__" or any(d.split(".")[-1] in ("field_validator", "model_validator", "validator", "root_validator") for d in f.decorators)): continue
        for node, t, kind, txt in own.mutations(f):
            n += 1
            bad = sorted(o[1] for o in own.origin(f, g, t, node) if o[0] == "shared" and base_like(o))
            ck.ob("given-configuration-unchanged", f"{f.short} {txt[:60]}", not bad, f"{txt[:80]} changes {', '.join(bad)}", node.loc)
        two = sum(own.free(f, q) for q in f.params()) > 1
        for node, v, field, extra, txt in handed_over(own, f, g):
            m += 1; ts = own.ttype(g, v, node); bad = []
            for o in own.origin(f, g, v, node):
                if not base_like(o) or o[1] == "the scenario" and False: continue
                model, lst = changeable(own, ts, level(o) + (extra if level(o) == 0 else 0), inplace)
                if model or lst and field in inplace: bad.append(o[1])
            ck.ob("no-shared-parts", f"{f.short} {txt[:60]}", not bad, f"{txt[:80]} takes over a changeable part of {', '.join(sorted(set(bad)))} without copying it", node.loc)
    ck.need("statements that change an object", n, 60); ck.need("values handed over to a configuration", m, 20)

    # operators that change their argument get private copies
    ops = [f for f in fs if callback_name(own, f) & {"mate", "mutate"}]
    ck.ob("operators-registered", "evolutionary algorithm", len(ops) >= 2, "no recombination / mutation operator is registered")
    k = 0; own.strict = True
    for op in ops:
        for f, g, c in own.calls().get(op.qual, ()):
            for q in op.params():
                a = own.actual(op, c, q)
                if a is None: continue
                k += 1
                os = own.origin(f, g, a, c)
                ck.ob("operator-on-copy", f"{f.short} {op.name}({q})", os == {FRESH}, f"{op.name} changes {g.r(a, c)[:60]}, which is not a private deep copy", c.loc)
    for f in fs:
        if not f.mod.name.startswith(OPT): continue
        g = own.g(f)
        for c in g.nodes:
            if c.kind == "call" and c.id in g.live() and c.name in ("mate", "mutate") and c.recv is not None and not (c.get("cands") or ()):
                for a in c.args:
                    k += 1
                    os = own.origin(f, g, a, c)
                    ck.ob("operator-on-copy", f"{f.short} {c.name}", os == {FRESH}, f"{c.name} changes {g.r(a, c)[:60]}, which is not a clone", c.loc)
    own.strict = False
    ck.ob("operator-on-copy", "direct uses of the operators", k >= 2, "no search moves with a copy of its state any more")
    for f, g, c, name, h, v in own.registered:
        if name == "clone":
            ck.ob("clone-is-deep", f"{f.short} clone", g.render(v).split(".")[-1] == "deepcopy", f"individuals are cloned by {g.render(v)}, which is no deep copy", c.loc)
    for c in p.all_classes():
        if c.mod.name.startswith(OPT) and any(b.split(".")[-1] == "Annealer" for b in c.base_names()): annealer(ck, own, c)

    # recombination
    r = 0
    for op in ops:
        if sum(own.free(op, q) for q in op.params()) == 2: r += recombination(ck, own, op)
    ck.ob("recombination", "operators on two candidates", r >= 3, "no recombination operator could be followed")


def annealer(ck, own, c):
    """simanneal keeps copies of the state according to copy_strategy (default: deepcopy)"""
    vals = []
    f = c.find_field("copy_strategy")
    if f: vals.append((f[1][1].value if isinstance(f[1][1], ast.Constant) else None, c.loc))
    for fn in own.funcs:
        g = own.g(fn)
        for n in g.nodes:
            if n.kind == "store" and n.attr == "copy_strategy": vals.append((n.value[1] if n.value[0] == "const" else None, n.loc))
    bad = [(v, l) for v, l in vals if v != "deepcopy"]
    m = c.find_method("copy_state")
    if m: bad.append(("copy_state", m.loc))
    ck.ob("annealer-copies", c.name, not bad, f"the best and previous state are kept with strategy {bad and bad[0][0]!r} instead of deep copies", bad[0][1] if bad else c.loc)
