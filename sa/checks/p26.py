"""P26 The builder API hands over every setting and every element."""
TECHNIQUE = "access-path analysis: every builder class's conversion is traced field by field into the model it builds, and the closure of all reference fields is compared with the access paths the system's conversion collects, de-duplicates and hands over"
NOTE = "A builder object whose own identifier the user reuses for a different object is out of scope; links given as a mapping are unreachable (builder objects are not hashable)."
import ast
from ..lib import *
from .p12 import classes_in, AD

EX = "prodsys.express."
SYS = EX + "production_system.ProductionSystem"
THROUGH = {"list", "tuple", "sorted", "reversed", "iter", "flatten_object", "chain", "from_iterable", "set", "deepcopy", "copy", "values", "keys", "items", "str", "enumerate", "dict"}


class Path:
    """a value reached from the root: fields followed, class it may be of, de-duplicated by which loop, handed over as model"""
    __slots__ = ("chain", "cls", "dd", "model")
    def __init__(self, chain, cls, dd=None, model=False): self.chain, self.cls, self.dd, self.model = chain, cls, dd, model
    def key(self): return (self.chain, self.cls, self.dd, self.model)
    def __hash__(self): return hash(self.key())
    def __eq__(self, o): return self.key() == o.key()
    def with_(self, **k): return Path(k.get("chain", self.chain), k.get("cls", self.cls), k.get("dd", self.dd), k.get("model", self.model))
    def txt(self): return ".".join(f for _, f in self.chain) or "self"


class Kinds:
    def __init__(self, p):
        self.p = p; self.memo = {}
        self.ex = {c.qual: c for c in p.all_classes() if c.mod.name.startswith(EX[:-1])}

    def subs(self, c):
        out = {c.qual: c}
        for q, d in self.ex.items():
            if d.is_sub(c): out[q] = d
        return out

    def concrete(self, c):
        m = c.find_method("to_model")
        return m is not None and not m.is_abstract

    def of(self, c, f):
        """classes the values of field f of class c can have (project classes only)"""
        k = (c.qual, f)
        if k not in self.memo:
            r = c.find_field(f); out = {}
            if r:
                owner, (ann, val) = r
                for d in classes_in(self.p, owner.mod, ann):
                    if self.p.is_enum(d): continue
                    if d.qual in self.ex:
                        for q, e in self.subs(d).items():
                            if self.concrete(e): out[q] = e
                    else: out[d.qual] = d
            self.memo[k] = out
        return self.memo[k]


class Eval:
    def __init__(self, ck, g, root, kinds):
        self.ck, self.p, self.g, self.root, self.k = ck, ck.p, g, root, kinds
        self.notes = set(); self.memo = {}
        self.adds = [n for n in g.nodes if n.kind == "call" and n.name in ("append", "extend", "insert", "add", "update", "setdefault") and n.get("recv") is not None and n.id in g.live()]
        self.subs = [n for n in g.nodes if n.kind == "substore" and n.id in g.live()]

    def note(self, s, node): self.notes.add((s, node.loc))

    # ---- guards
    def rows(self, n):
        """guards under which n is reached, path by path inside its loops, plus the guards around the loops"""
        g = self.g
        heads = sorted(g.loops_of(n), key=lambda h: sum(g.dominates(x, h) for x in g.loops_of(n)))
        outer = [(g.nodes[e.of], e.label) for e in g.guards(n) if g.nodes[e.of].kind == "branch" and (not heads or g.dominates(g.nodes[e.of], heads[0]))]
        if not heads: return [outer]
        for h in heads:
            if visits_all(g, h) is not None: self.note(f"the loop over {g.r(h.iter, h)[:60]} may be left before every element has been seen", h)
        start = iter_edge(g, heads[0])
        res = []
        hid = {h.id for h in heads}
        def dfs(x, row, seen):
            if len(res) > 64: return
            if x.id == n.id: res.append(outer + row); return
            for s, l in x.succ:
                y = g.nodes[s]
                if l == "exc" or s in seen: continue
                if y.kind == "edge" and g.nodes[y.of].kind == "loophead" and y.of in hid and y.label != "iter": continue
                r = row
                if y.kind == "edge" and g.nodes[y.of].kind == "branch": r = row + [(g.nodes[y.of], y.label)]
                dfs(y, r, seen | {s})
        dfs(start, [], {start.id, heads[0].id})
        return res

    def literal(self, b, pol):
        """(kind, term, detail) of a guard"""
        g = self.g; t = g.resolve(b.term, b)
        while t[0] == "not": t = t[1]; pol = not pol
        if t[0] == "call":
            c = g.nodes[t[1]]
            if c.name == "isinstance" and len(c.args) == 2:
                ct = g.resolve(c.args[1], c)
                cs = ct[1] if ct[0] in ("tuple", "list") else (ct,)
                names = frozenset(x[1] for x in cs if x[0] == "class")
                ext = [x for x in cs if x[0] != "class"]
                return ("ext" if ext else "is", g.resolve(c.args[0], c), (names, pol))
            if c.name == "hasattr" and len(c.args) == 2: return "has", g.resolve(c.args[0], c), (g.resolve(c.args[1], c), pol)
            if c.name == "len" and c.args: return "truth", g.resolve(c.args[0], c), pol
        if t[0] == "cmp" and t[1] in ("in", "not in"): return "in", t, (t[1] == "in") == bool(pol)
        if t[0] == "cmp" and t[1] in ("is", "is not", "==", "!="):
            a, c = t[2], t[3]
            for x, y in ((a, c), (c, a)):
                if y == ("const", None): return "none", x, (t[1] in ("is not", "!=")) == bool(pol)
                if y[0] == "class" and t[1] in ("is", "==", "is not", "!="):
                    if x[0] == "call" and g.nodes[x[1]].name == "type" and g.nodes[x[1]].args:
                        return "exact", g.resolve(g.nodes[x[1]].args[0], g.nodes[x[1]]), (frozenset([y[1]]), (t[1] in ("is", "==")) == bool(pol))
        if t[0] == "cmp" and t[1] in (">", "!=") and t[2][0] == "call" and g.nodes[t[2][1]].name == "len" and t[3] == ("const", 0): return "truth", g.resolve(g.nodes[t[2][1]].args[0], g.nodes[t[2][1]]), pol
        return "truth", t, pol

    def under(self, n, vt, vn, env, rows=None):
        """values of term vt added at node n, filtered by the guards of n"""
        out = set()
        for row in self.rows(n) if rows is None else rows:
            e = dict(env); dd = None; truths = []; bad = None; dead = False
            for b, pol in row:
                k, t, d = self.literal(b, pol)
                if k in ("is", "exact", "has"): e.setdefault(t, []); e[t] = e[t] + [(k, d)]
                elif k == "ext": pass                     # isinstance of a builtin container: both cases are followed
                elif k == "in":
                    if not d and self.identity(t[2], vt, vn) and self.recorded(t, b, n): dd = b.id
                    elif not d: bad = bad or self.g.render(t)
                    else: bad = bad or self.g.render(t)
                else: truths.append((t, d, b, k))
            vals = self.val(vt, vn, e)
            if dd is not None: vals = {v.with_(dd=dd) for v in vals}
            for t, pol, b, kind in truths:
                tv = self.val(t, b, e)
                pre = {x.chain for x in tv}
                keep = set()
                for v in vals:
                    if any(v.chain[:len(c)] == c for c in pre):
                        if pol and kind == "truth" and v.cls is None and v.chain in pre and (t[0] == "elem" or not self.container(v)): bad = bad or self.g.render(t)
                        if pol: keep.add(v)             # absent values need not be handed over
                    else: keep.add(v); bad = bad or self.g.render(t)
                vals = keep
            if bad and vals: self.note(f"{', '.join(sorted({v.txt() for v in vals}))[:120]} only handed over under the condition '{bad[:80]}'", n)
            out |= vals
        return out

    def container(self, v):
        q, f = v.chain[-1] if v.chain else ("?", "")
        r = self.k.ex[q].find_field(f) if q in self.k.ex else None
        return bool(r) and "list" in ast.unparse(r[1][0]).lower()

    def identity(self, t, vt, vn):
        """is t the identifier of (or the very) element being added"""
        e = self.g.resolve(vt, vn)
        return t == e or t == ("attr", e, "ID") or t[0] == "attr" and t[2] == "ID" and t[1] == e

    def recorded(self, cmp, b, n):
        """the membership test runs against what has been added so far"""
        g = self.g
        def made(t, node): return {d.id for d in def_chain(g, t, node)}
        raw = b.term
        while raw[0] == "not": raw = raw[1]
        raw = raw if raw[0] == "cmp" else None
        tgt = made(raw[3], b) if raw is not None else set()
        if not tgt: return False
        if any(made(a.base, a) & tgt and g.resolve(a.index, a) == cmp[2] for a in self.subs): return True
        return any(made(a.recv, a) & tgt and any(self.identity(g.resolve(x, a), cmp[2], b) or g.resolve(x, a) == cmp[2] for x in a.args) for a in self.adds)

    # ---- values
    def filt(self, vals, term, env):
        for k, d in env.get(term, ()):
            out = set()
            for v in vals:
                c = self.k.ex.get(v.cls) if v.cls else None
                if k == "has":
                    f, pol = d
                    ok = c is None or (bool(c.find_field(f[1])) == pol if f[0] == "const" else True)
                elif k == "exact": ok = c is None or (c.qual in d[0]) == bool(d[1])
                else: ok = c is None or any(m.qual in d[0] for m in c.mro()) == bool(d[1])
                if ok: out.add(v)
            vals = out
        return vals

    def attr(self, vals, f, node):
        out = set()
        for v in vals:
            if v.cls is None: out.add(v.with_(chain=v.chain + (("?", f),), dd=None)); continue
            c = self.k.ex.get(v.cls)
            if c is None: out.add(v.with_(chain=v.chain + ((v.cls, f),), cls=None, dd=None)); continue
            if not c.find_field(f):
                self.note(f"{c.name} objects ({v.txt()}) have no {f}", node); continue
            ks = self.k.of(c, f)
            for q in ks or [None]: out.add(Path(v.chain + ((v.cls, f),), q, None, v.model))
        return out

    def val(self, t, node, env):
        g = self.g; t0 = t
        key = (t, node.id, tuple(sorted((repr(k), repr(v)) for k, v in env.items())))
        if key in self.memo: return self.memo[key]
        self.memo[key] = set()
        r = self.filt(self._val(t, node, env), g.resolve(t0, node), env)
        self.memo[key] = r
        return r

    def _val(self, t, node, env):
        g = self.g; k = t[0]
        if k == "param": return {Path((), self.root.qual)} if t[1] == g.fn.params()[0] else {Path((("?", "parameter " + t[1]),), None)}
        if k == "var":
            defs = g.rd((t[1], t[2]), node); out = set()
            if not defs: return {Path((("?", t[2]),), None)}
            for d in defs:
                if d.value is None: continue
                own = [(g.nodes[e.of], e.label) for e in g.guards(d) if g.nodes[e.of].kind == "branch" and not g.dominates(e, node)]
                out |= self.under(d, d.value, d, env, [own]) if own else self.val(d.value, d, env)
            # what is added to the list later
            mine = {d.id for d in def_chain(g, t, node)}
            for a in self.adds:
                if not g.reaches(a, node): continue
                if {d.id for d in def_chain(g, a.recv, a)} & mine:
                    vs = self.under(a, a.args[-1], a, env) if a.args else set()
                    if a.name == "setdefault" and len(a.args) == 2 and self.identity(g.resolve(a.args[0], a), a.args[1], a): vs = {v.with_(dd=a.id) for v in vs}
                    out |= vs
            for a in self.subs:
                if g.reaches(a, node) and {d.id for d in def_chain(g, a.base, a)} & mine:
                    vs = self.under(a, a.value, a, env)
                    if self.identity(g.resolve(a.index, a), a.value, a): vs = {v.with_(dd=a.id) for v in vs}
                    out |= vs
            # a value chosen by a condition: what the conditions exclude
            return out
        if k == "attr": return self.attr(self.val(t[1], node, env), t[2], node)
        if k in ("elem", "index"):
            h = g.nodes[t[2]]
            return self.val(h.iter, h, env) if h.iter is not None else self.val(t[1], node, env)
        if k == "unpack" or k == "star": return self.val(t[1], node, env)
        if k == "item":
            vs = self.val(t[1], node, env)
            i = t[2]
            if i[0] == "slice" and all(x in (None, ("const", None)) for x in i[1:]): return vs
            return {v.with_(chain=v.chain + (("?", f"[{g.render(i)}]"),), cls=None) for v in vs}
        if k in ("list", "tuple", "set"): 
            out = set()
            for x in t[1]: out |= self.val(x, node, env)
            return out
        if k == "bin" and t[1] in ("+", "|"):
            a, b = self.val(t[2], node, env), self.val(t[3], node, env)
            return a | b
        if k == "phi":
            out = set()
            for x in t[1]: out |= self.val(x, node, env)
            return out
        if k == "bool":
            out = set()
            parts = [self.val(x, node, env) for x in t[2]]
            for v in parts: out |= v
            if t[1] == "or" and sum(bool(v) for v in parts) > 1: out.add(Path((("?", g.render(t)[:50]),), None))
            if t[1] == "and":
                pre = [{x.chain for x in v} for v in parts[:-1]]
                out = parts[-1] if all(any(v.chain[:len(c)] == c for c in s) for s in pre for v in parts[-1]) else out | {Path((("?", g.render(t)[:50]),), None)}
            return out
        if k == "comp" and g.comps[t[2]]["kind"].startswith("dict"):
            e = g.nodes[g.comps[t[2]]["elt"]]
            vs = self.under(e, e.vals[1], e, env)
            return {v.with_(dd=e.id) for v in vs} if self.identity(g.resolve(e.vals[0], e), e.vals[1], e) else vs
        if k == "comp":
            e = g.nodes[g.comps[t[2]]["elt"]]; out = set()
            for v in e.vals if e.get("vals") else (e.value,): out |= self.under(e, v, e, env)
            return out
        if k == "const":
            return set() if t[1] is None else {Path((("?", repr(t[1])),), None)}
        if k == "call":
            n = g.nodes[t[1]]
            if n.name == "to_model" and n.get("recv") is not None: return {v.with_(model=True) for v in self.val(n.recv, n, env)}
            if n.name in THROUGH:
                xs = list(n.args) + ([n.recv] if n.get("recv") is not None and not n.args and n.name in ("copy", "values", "keys", "items") else [])
                out = set()
                for x in xs: out |= self.val(x, n, env)
                return out
            if n.get("ret") is not None: return self.val(n.ret, n, env)
            return {Path((("?", g.render(t)[:50]),), None)}
        if k == "dict":
            out = set()
            for a, b in t[1]: out |= self.val(b, node, env)
            return out
        return {Path((("?", g.render(t)[:50]),), None)}


# ------------------------------------------------------------------ one builder class
def singular(f):
    for a, b in (("ies", "y"), ("sses", "ss"), ("s", "")):
        if f.endswith(a): return f[:-len(a)] + b
    return f


def matches(F, K):
    return K in (F, F + "_id", singular(F) + "_id", singular(F) + "_ids", F + "_ids", F + "_type") or F.endswith("_stores") and K == F[:-len("_stores")] + "_queues" or F.startswith("_") and K == F[1:]


def settings(c):
    """declared settings of a builder class (init=False and private ones excluded)"""
    out = []
    for f, (o, (a, v)) in c.all_fields().items():
        if f.startswith("_") or f == "model_config" or a is None: continue
        if isinstance(v, ast.Call) and any(k.arg == "init" and ast.unparse(k.value) == "False" for k in v.keywords): continue
        out.append(f)
    return out


def ctor(p, g, t, node):
    """constructor call nodes of a returned model"""
    out = []
    for dn, v in leaves(g, t, node):
        if v[0] == "call":
            n = g.nodes[v[1]]
            f = g.resolve(n.func, n) if n.get("func") is not None else None
            if f and f[0] == "class": out.append((n, p.cls(f[1])))
    return out


def classes(ck):
    ks = Kinds(ck.p)
    return ks, [c for q, c in sorted(ks.ex.items()) if ks.concrete(c) and c.qual != SYS]


def convert(ck, ks, c):
    """settings of c that arrive in the model built by its conversion; returns the model class"""
    p = ck.p; g = ck.graph(c.find_method("to_model"), selfcls=c)
    made = []
    for rt, rn in [(n.value, n) for n in returns(g)] if True else []:
        cs = ctor(p, g, rt, rn)
        ck.ob("model-built", c.name, bool(cs), f"{c.name}.to_model does not return a model it has built", rn.loc)
        made += [(n, m, rn) for n, m in cs]
    if not made: return None
    arrived = {}
    model = made[0][1]
    for n, m, rn in made:
        ev = Eval(ck, g, c, ks)
        vals = {k: (v, n) for k, v in n.kw.items()}
        for s in g.nodes:
            if s.kind == "store" and s.id in g.live() and g.reaches(s, rn) and any(x.id == n.id for x, _ in ctor(p, g, s.base, s)): vals[s.attr] = (s.value, s)
        known = set(m.all_fields())
        for K, (v, at) in sorted(vals.items()):
            if K not in known: continue
            got = ev.val(v, at, {})
            # conditional on its own presence: leave out the constant None / empty branch
            fields = {}
            for x in got:
                if not x.chain: continue
                cq, F = x.chain[0]
                if cq == "?": fields.setdefault("?", []).append(x); continue
                fields.setdefault(F, []).append(x)
            swapped = [F for F in fields if F != "?" and not matches(F, K)]
            ck.ob("setting-in-place", f"{c.name}.{K}", not swapped, f"{c.name}.to_model hands {', '.join(swapped)} over as {K}", at.loc)
            for F, xs in fields.items():
                if F == "?" or not matches(F, K): continue
                refs = set(ks.of(c, F))
                want = {(((c.qual, F), (d, "ID"))) for d in refs} if refs else {((c.qual, F),)}
                have = {x.chain for x in xs}
                arrived.setdefault(F, []).append((K, have >= want and have <= want, have, at))
            own = [F for F in settings(c) if matches(F, K) and F != "ID" or F == K]
            if own and "?" in fields:
                ck.ob("setting-unchanged", f"{c.name}.{K}", False, f"{c.name}.to_model puts {', '.join(x.txt() for x in fields['?'])} into {K} instead of the setting", at.loc)
        for s, loc in sorted(ev.notes): ck.ob("setting-unchanged", f"{c.name} {s[:60]}", False, f"{c.name}.to_model: {s}", loc)
    for F in settings(c):
        if F == "internal_queue_size": continue
        a = arrived.get(F)
        ck.ob("setting-arrives", f"{c.name}.{F}", bool(a), f"the setting {F} of {c.name} does not arrive in the {model.name} that to_model builds", c.find_method("to_model").loc)
        for K, ok, have, at in a or ():
            ck.ob("setting-unchanged", f"{c.name}.{F} as {K}", ok, f"{c.name}.to_model hands {', '.join(sorted('.'.join(f for _, f in h) for h in have))} over as {K} instead of all of {F}", at.loc)
    private(ck, c, g, ks, model, arrived)
    return model


def private(ck, c, g, ks, model, arrived):
    """default queues made by the conversion: announced in the model, of the right direction and size"""
    for s in g.nodes:
        if s.kind != "store" or s.id not in g.live() or g.r(s.base, s) != g.fn.params()[0] or not s.attr.startswith("_"): continue
        F = s.attr
        ck.ob("own-queues-announced", f"{c.name}.{F}", any(ok or any(h[0][1] == F for h in have) for K, ok, have, at in arrived.get(F, ())), f"the queues in {F} are not announced in the model of {c.name}", s.loc)
        q = [n for n in sub_ctors(ck.p, g, s.value, s)]
        ck.ob("own-queues-right", f"{c.name}.{F} made", bool(q), f"{c.name}.to_model does not make the queues in {F} itself", s.loc)
        for n in q:
            want = "input" if "input" in F else "output"
            idt = " ".join(consts(g.resolve(n.kw["ID"], n))) if "ID" in n.kw else ""
            ck.ob("own-queues-right", f"{c.name}.{F}", want in idt, f"{F} of {c.name} gets the queue {idt[:60]}", s.loc)
            if c.find_field("internal_queue_size"):
                cap = g.r(n.kw["capacity"], n) if "capacity" in n.kw else "nothing"
                ck.ob("own-queues-right", f"{c.name}.{F} size", cap == f"{g.fn.params()[0]}.internal_queue_size", f"the capacity of the queues in {F} is {cap}, not the internal queue size", s.loc)


def consts(t):
    if not isinstance(t, tuple) or not t: return []
    if t[0] == "const": return [t[1]] if isinstance(t[1], str) else []
    return [y for x in t[1:] for y in (consts(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else [z for w in x if isinstance(w, tuple) for z in consts(w)] if isinstance(x, tuple) else [])]


def sub_ctors(p, g, t, node, depth=0):
    out = []
    if depth > 8: return out
    for dn, v in leaves(g, t, node):
        if v[0] == "call":
            n = g.nodes[v[1]]
            f = g.resolve(n.func, n) if n.get("func") is not None else None
            if f and f[0] == "class": out.append(n)
        elif v[0] in ("list", "tuple"):
            for x in v[1]: out += sub_ctors(p, g, x, dn, depth + 1)
        elif v[0] in ("unpack", "item"):
            i = v[2] if v[0] == "unpack" else (v[2][1] if v[2][0] == "const" else None)
            for dn2, w in leaves(g, v[1], dn):
                if w[0] in ("list", "tuple") and isinstance(i, int) and i < len(w[1]): out += sub_ctors(p, g, w[1][i], dn2, depth + 1)
    return out


# ------------------------------------------------------------------ the system
def closure(ks, root):
    """all access paths (chain, class) from the system to builder objects and queues"""
    out = []
    def go(chain, c, depth):
        if depth > 8: return
        for f, (o, (a, v)) in c.all_fields().items():
            for q, d in ks.of(c, f).items():
                ch = chain + ((c.qual, f),)
                if q in ks.ex and len(chain) > 0 and d.mod.name.split(".")[-1] in ("resources", "source", "sink", "production_system"): continue
                if q not in ks.ex and not d.mod.name.startswith("prodsys.models"): continue
                out.append((ch, d))
                if q in ks.ex: go(ch, d, depth + 1)
    go((), root, 0)
    return out


def collect(ck, ks, models):
    p = ck.p; S = p.cls(SYS); A = p.cls(AD)
    g = ck.graph(S.find_method("to_model"), selfcls=S, stop=("flatten_object",), inline=lambda f: f.name != "to_model" or f.cls is S)
    res = [(n, m, rn) for rn in returns(g) for n, m in ctor(p, g, rn.value, rn)]
    ck.ob("system-built", "ProductionSystem.to_model", bool(res), "ProductionSystem.to_model does not return a configuration it has built", S.find_method("to_model").loc)
    n_ob = 0
    for n, m, rn in res:
        ev = Eval(ck, g, S, ks)
        sect = {}
        for K, (o, (a, v)) in m.all_fields().items():
            cs = {c.qual for c in classes_in(p, o.mod, a)} if a is not None else set()
            if not cs or not K.endswith("_data"): continue
            sect[K] = cs
        def section(d):
            q = models.get(d.qual, d).qual
            best = [K for K, cs in sect.items() if q in cs or any(p.cls(x).is_sub(p.cls(q)) or p.cls(q).is_sub(p.cls(x)) for x in cs)]
            return best
        vals = {K: (n.kw[K], n) for K in sect if K in n.kw}
        for s in g.nodes:
            if s.kind == "store" and s.id in g.live() and any(x.id == n.id for x, _ in ctor(p, g, s.base, s)) and s.attr in sect: vals[s.attr] = (s.value, s)
        have = {}
        for K, (v, at) in vals.items(): have[K] = ev.val(v, at, {})
        groups = {}
        for ch, d in closure(ks, S):
            Ks = section(d)
            groups.setdefault((ch, tuple(Ks)), []).append(d)
        for (ch, Ks), ds in groups.items():
            txt = ".".join(f for _, f in ch)
            own = f"{ch[-1][0].split('.')[-1]}"
            miss = []
            for d in ds:
                ok = any(x.chain == ch and (x.cls == d.qual or x.cls is None) and (x.model or d.qual not in ks.ex) for K in Ks for x in have.get(K, ()))
                if not ok: miss.append(d.name)
            n_ob += 1
            ck.ob("element-collected", f"{txt} ({own}) in {'/'.join(Ks) or 'no section'}", not miss, f"{', '.join(sorted(set(miss)))} objects referred to as {txt} of a {own} do not arrive in the configuration ({'/'.join(Ks)})", n.loc)
        for K, xs in have.items():
            odd = sorted({x.txt() for x in xs if any(c == "?" for c, _ in x.chain)} | {x.txt() for x in xs if x.cls in ks.ex and not x.model})
            ck.ob("section-of-models", K, not odd, f"{K} also receives {', '.join(odd)[:150]}", n.loc)
            by = {}
            for x in xs:
                if x.cls is None: continue
                c = ks.ex.get(x.cls)
                if len(x.chain) <= 1 or x.chain[-1][1].startswith("_"): continue
                by.setdefault(x.dd, set()).add(x.txt())
            ck.ob("element-once", K, None not in by, f"{', '.join(sorted(by.get(None, ())))[:200]} may appear more than once in {K}", n.loc)
            fam = {}
            for x in xs:
                if x.cls in ks.ex and x.dd is not None: fam.setdefault(x.cls, {}).setdefault(x.dd, set()).add(x.txt())
            for q, dds in sorted(fam.items()):
                ck.ob("element-once", f"{K} {q.split('.')[-1]}", len(dds) <= 1, f"{q.split('.')[-1]} objects in {K} are de-duplicated in separate groups ({' / '.join(', '.join(sorted(v)) for v in dds.values())[:200]}): one that is in both appears twice", n.loc)
        for s, loc in sorted(ev.notes): ck.ob("element-collected", f"note {s[:80]}", False, s, loc)
        once_models(ck, g, ev, ks, have)
    return n_ob


def once_models(ck, g, ev, ks, have):
    """queues that a conversion makes are read only after that conversion"""
    for n in g.nodes:
        if n.kind != "compelt" and not (n.kind == "call" and n.name in ("append", "extend")): continue
        if n.id not in g.live(): continue
        t = g.resolve(n.value if n.kind == "compelt" else (n.args[0] if n.args else ("const", None)), n)
        if t[0] != "attr" or not t[2].startswith("_"): continue
        owners = {(x.chain, x.cls) for x in ev.val(t[1], n, {})}
        ow = {q for _, q in owners}
        done = []
        for m in g.nodes:
            if m.kind == "call" and m.name == "to_model" and m.id in g.live() and m.get("recv") is not None:
                rv = ev.val(m.recv, m, {})
                if {x.chain for x in rv} & {c for c, _ in owners}: done.append(m)
        ok = False
        for m in done:
            h = innermost(g, m)
            d = done_edge(g, h) if h is not None else m
            if d is not None and g.dominates(d, n): ok = True
            hn = innermost(g, n)
            if h is not None and hn is not None and h.id == hn.id and g.dominates(m, n): ok = True
        ck.ob("queues-after-conversion", f"{t[2]} {'/'.join(sorted(q.split('.')[-1] for q in ow if q))}", ok, f"{t[2]} is read before the objects' conversion has made the queues", n.loc)


def flattening(ck):
    f = ck.p.func("prodsys.util.util.flatten_object")
    g = ck.graph(f, stop=("flatten_object",))
    heads = [h for h in g.nodes if h.kind == "loophead" and h.id in g.live() and h.get("iter") is not None and g.r(h.iter, h) == f.params()[0]]
    ck.ob("flatten-complete", "flatten_object", bool(heads) and all(visits_all(g, h) is None for h in heads), "flatten_object does not go through the whole list", f.loc)
    for h in heads:
        el = [n for n in g.nodes if n.kind == "yield" and n.id in g.live()]
        ys = [n for n in el if g.resolve(n.value, n) == ("elem", g.resolve(h.iter, h), h.id) or "flatten_object(" in g.r(n.value, n) and f"elem({f.params()[0]})" in g.r(n.value, n)]
        e = iter_edge(g, h)
        ok = ys and not g.path_avoiding(e, h, [y for y in ys], exc=False)
        ck.ob("flatten-complete", "flatten_object each", bool(ok), "flatten_object leaves out some elements", f.loc)


def running(ck):
    p = ck.p; S = p.cls(SYS); f = S.find_method("run")
    g = ck.graph(f, selfcls=S, stop=("to_model", "initialize_simulation", "get_post_processor"), inline=lambda x: x.cls is S or x.cls is None)
    inits = [n for n in g.nodes if n.kind == "call" and n.name == "initialize_simulation" and n.id in g.live()]
    runs = [n for n in g.nodes if n.kind == "call" and n.name == "run" and n.id in g.live() and n.get("recv") is not None and g.r(n.recv, n) != "self"]
    seeds = [n for n in g.nodes if n.kind == "store" and n.attr == "seed" and n.id in g.live()]
    ck.ob("run-settings", "seed", len(seeds) >= 1 and all(g.r(s.value, s) == "seed" for s in seeds) and all(any(g.dominates(s, i) for s in seeds) for i in inits), "the seed does not reach the configuration before the simulation is initialised", f.loc)
    ck.ob("run-settings", "time range", bool(runs) and all(n.args and g.r(n.args[0], n) == "time_range" or "time_range" in n.kw and g.r(n.kw["time_range"], n) == "time_range" for n in runs), "the simulation does not run for the given time range", f.loc)
    ck.ob("run-settings", "initialised", bool(inits) and bool(runs) and all(any(g.dominates(i, r) for i in inits) for r in runs), "the simulation runs without being initialised", f.loc)


def links(ck):
    p = ck.p; c = p.cls(EX + "process.LinkTransportProcess")
    f = c.find_method("set_links")
    if f:
        g = ck.graph(f, selfcls=c); st = [n for n in g.nodes if n.kind == "store" and n.attr == "links" and n.id in g.live()]
        ck.ob("links-kept", "set_links", len(st) == 1 and g.r(st[0].value, st[0]).strip() in (f.params()[1], f"list({f.params()[1]})") and not g.guards(st[0]), "set_links does not keep all the links it is given", f.loc)
    f = c.find_method("add_link")
    if f:
        g = ck.graph(f, selfcls=c)
        ad = [n for n in g.nodes if n.kind == "call" and n.name == "append" and n.id in g.live() and n.args and g.r(n.args[0], n) == f.params()[1] and g.r(n.recv, n) == f"{f.params()[0]}.links"]
        ad += [n for n in g.nodes if n.kind == "store" and n.attr == "links" and n.id in g.live() and f.params()[1] in g.r(n.value, n) and ".links" in g.r(n.value, n)]
        ok = bool(ad) and all(s.startswith("isinstance(") for a in ad for s in g.guard_set(a))
        ck.ob("links-kept", "add_link", ok, "add_link does not keep the link it is given", f.loc)


def check(ck):
    ks, cs = classes(ck)
    ck.need("builder classes", len(cs), 15)
    models = {}
    for c in cs:
        m = convert(ck, ks, c)
        if m is not None: models[c.qual] = m
    n = collect(ck, ks, models)
    ck.need("access paths of builder objects", n, 60)
    flattening(ck); running(ck); links(ck)
