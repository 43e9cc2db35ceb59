"""Demand-driven ownership analysis: where does the object a statement changes come from?

Origins of a term are sets of labels
  ("shared", root)  the object is (a changeable part of) the root
  ("top", root, k)  a private container / copy, k layers deep, whose parts are shared with the root
  ("fresh",)        created here, nothing shared
  ("unknown", why)
Values are followed backwards through locals, comprehensions, calls (arguments and results), fields
(all stores and constructor arguments of the field in the analysed functions)."""
import ast
from .lib import *
from .index import FuncInfo

MUT = {"append", "extend", "insert", "remove", "pop", "clear", "update", "sort", "reverse", "add", "discard", "setdefault", "popitem", "appendleft", "popleft", "extendleft", "__setitem__", "__setattr__", "__delitem__",
       "difference_update", "intersection_update", "symmetric_difference_update"}
SHALLOW = {"list", "tuple", "set", "sorted", "dict", "frozenset", "reversed", "filter", "deque", "iter", "zip", "enumerate", "map", "chain", "sample", "choices"}
FRESH = ("fresh",)
SCALAR = {"str", "len", "int", "float", "bool", "range", "round", "abs", "hash", "isinstance", "format", "join", "uuid1", "uuid4", "type", "model_dump", "model_dump_json", "repr", "hexdigest", "md5", "encode"}


class Own:
    def __init__(self, ck, funcs, is_config, root_of_param, pydantic_copies=True, skip_writers=()):
        """funcs: analysed functions; is_config(ClassInfo); root_of_param(fn, name) -> root name | None"""
        self.ck, self.p = ck, ck.p; self.funcs = funcs; self.is_config = is_config; self.root_of_param = root_of_param
        self.graphs = {}; self.memo = {}; self.pyd = pydantic_copies
        self._calls = None; self._writes = None; self.byqual = {f.qual: f for f in funcs}

    # ------------------------------------------------------------------ infrastructure
    def g(self, fn):
        if fn.qual not in self.graphs:
            self.graphs[fn.qual] = self.ck.graph(fn, inline=lambda f: False, **({"selfcls": fn.cls} if fn.cls else {}))
        return self.graphs[fn.qual]

    def calls(self):
        """callee qual -> [(fn, g, call node)]"""
        if self._calls is None:
            self._calls = {}
            for f in self.funcs:
                g = self.g(f)
                for n in g.nodes:
                    if n.kind in ("call", "spawn") and n.id in g.live() and not n.get("inlined"):
                        for m in n.get("cands") or ():
                            self._calls.setdefault(m.qual, []).append((f, g, n))
        return self._calls

    def writes(self):
        """field name -> [(classes or None, fn, g, node, value term, how)]"""
        if self._writes is None:
            W = self._writes = {}
            for f in self.funcs:
                g = self.g(f)
                for n in g.nodes:
                    if n.id not in g.live(): continue
                    if n.kind == "store":
                        cs = classes_in(self.ttype(g, n.base, n))
                        W.setdefault(n.attr, []).append((cs, f, g, n, n.value, "store"))
                    elif n.kind in ("call", "spawn") and not n.get("inlined"):
                        cs = self.constructed(g, n)
                        if cs:
                            for k, v in n.kw.items():
                                if k: W.setdefault(k, []).append((cs, f, g, n, v, "ctor"))
                            for k, v, m in self.dict_entries(g, n): W.setdefault(k, []).append((cs, f, g, m, v, "ctor"))
                            for k, v in self.positional(cs, n): W.setdefault(k, []).append((cs, f, g, n, v, "ctor"))
        return self._writes

    def positional(self, cs, n):
        out = []
        for c in cs:
            if not n.args or c.find_method("__init__"): continue
            fs = [f for f, (o, (a, v)) in c.all_fields().items() if f != "model_config"]
            if n.name in ("validate_python", "model_validate", "parse_obj"): continue
            out += list(zip(fs, n.args))
        return out

    def constructed(self, g, n):
        """classes a call creates an instance of"""
        if n.name in ("validate_python", "model_validate", "parse_obj") and n.recv is not None:
            out = []
            for d, r in leaves(g, n.recv, n):
                if r[0] == "call" and g.nodes[r[1]].name == "TypeAdapter" and g.nodes[r[1]].args: out += self.type_term(g, g.nodes[r[1]].args[0], g.nodes[r[1]])
                elif r[0] == "class": out.append(self.p.cls(r[1]))
            return out
        f = n.get("func")
        if f is not None:
            r = g.resolve(f, n)
            if r[0] == "class": return [self.p.cls(r[1])]
        return []

    def type_term(self, g, t, n):
        from .checks.p12 import term_classes
        return term_classes(self.p, g.resolve(t, n))

    def dict_entries(self, g, n):
        """entries of the dictionary a constructor call is given (literal, then extended by update)"""
        out = []; ds = []
        if n.name in ("validate_python", "model_validate", "parse_obj"): ds = list(n.args[:1])
        ds += [v for k, v in n.kw.items() if k in (None, "**")] + [a[1] for a in n.args if a[0] in ("star2", "dstar")]
        for t in ds:
            chain = [x for d, x in leaves(g, t, n)]
            for x in chain:
                if x[0] == "dict":
                    for k, v in x[1]:
                        if k[0] == "const": out.append((k[1], v, n))
            # updates of the same variable
            name = t[2] if t[0] == "var" else None
            for u in g.nodes:
                if u.id not in g.live(): continue
                if u.kind == "call" and u.name == "update" and u.recv is not None and u.recv[0] == "var" and u.recv[2] == name:
                    for a in u.args:
                        for d, x in leaves(g, a, u):
                            if x[0] == "dict":
                                for k, v in x[1]:
                                    if k[0] == "const": out.append((k[1], v, u))
                    for k, v in u.kw.items():
                        if k: out.append((k, v, u))
                if u.kind == "substore" and u.base[0] == "var" and u.base[2] == name and u.get("index") is not None and u.index[0] == "const": out.append((u.index[1], u.value, u))
        return out

    # ------------------------------------------------------------------ types
    def ttype(self, g, t, n, depth=0):
        if depth > 10 or t is None: return frozenset()
        k = t[0]
        if k == "param": return g.root.types.get(t[1], frozenset())
        if k == "var":
            out = frozenset()
            for c in contexts(g):
                if c.id == t[1]: out |= c.types.get(t[2], frozenset())
            if out: return out
            for d, v in leaves(g, t, n):
                if v != t: out |= self.ttype(g, v, d, depth + 1)
            return out
        if k == "attr": return self.p.attr_type(self.ttype(g, t[1], n, depth + 1), t[2])
        if k in ("elem", "item", "unpack", "index"): return self.p.elem_type(self.ttype(g, t[1], n, depth + 1))
        if k == "phi":
            out = frozenset()
            for x in t[1]: out |= self.ttype(g, x, n, depth + 1)
            return out
        if k == "bool":
            out = frozenset()
            for x in t[2]: out |= self.ttype(g, x, n, depth + 1)
            return out
        if k == "comp":
            en = g.nodes[g.comps[t[2]]["elt"]]
            return frozenset([("L", self.ttype(g, en.value, en, depth + 1))]) if en.get("value") else frozenset()
        if k in ("list", "tuple"):
            out = frozenset()
            for x in t[1]: out |= self.ttype(g, x, n, depth + 1)
            return frozenset([("L", out)]) if out else frozenset()
        if k == "call":
            c = g.nodes[t[1]]
            cs = self.constructed(g, c)
            if cs: return frozenset(("C", x) for x in cs)
            if c.name in ("model_copy", "copy", "deepcopy"): return self.ttype(g, c.recv if c.recv is not None and not (c.args and c.name != "model_copy") else (c.args[0] if c.args else None), c, depth + 1)
            if c.name in ("pop", "popleft", "get", "next", "choice") :
                b = c.recv if c.name not in ("next", "choice") else (c.args[0] if c.args else None)
                return self.p.elem_type(self.ttype(g, b, c, depth + 1)) if b is not None else frozenset()
            if c.name in ("list", "sorted", "reversed", "tuple", "set", "sample") and c.args: return self.ttype(g, c.args[0], c, depth + 1)
            out = frozenset()
            for m in c.get("cands") or ():
                if isinstance(m, FuncInfo) and m.node.returns is not None: out |= self.p.ann_type(m.node.returns, m.mod)
            return out
        return frozenset()

    # ------------------------------------------------------------------ origins
    def origin(self, fn, g, t, node, depth=0, seen=frozenset()):
        out = set()
        if depth > 14: return {("unknown", "depth")}
        for d, v in leaves(g, t, node):
            out |= self.one(fn, g, v, d, depth, seen)
        return out

    def one(self, fn, g, v, d, depth, seen):
        k = v[0]
        if k in ("const", "fstr", "cmp", "not", "neg", "lambda", "localfunc", "class", "member", "bin2"): return {FRESH}
        if k == "param": return self.param(fn, v[1], depth, seen)
        if k == "attr": return self.attr(fn, g, v, d, depth, seen)
        if k in ("elem", "item", "unpack", "index"):
            return {part(o) for o in self.origin(fn, g, v[1], d, depth + 1, seen)}
        if k in ("list", "tuple", "set"): return self.container(fn, g, v[1], d, depth, seen)
        if k == "dict": return self.container(fn, g, [x for kv in v[1] for x in kv[1:]], d, depth, seen)
        if k == "star": return {part(o) for o in self.origin(fn, g, v[1], d, depth + 1, seen)}
        if k == "comp":
            c = g.comps[v[2]]; en = g.nodes[c["elt"]]
            es = [en.value] if en.get("value") is not None else list(en.get("vals") or ())
            return self.container(fn, g, es, en, depth, seen)
        if k == "bin":
            out = set()
            for x in v[2:4]: out |= {top(o) for o in self.origin(fn, g, x, d, depth + 1, seen)}
            return out
        if k == "bool":
            out = set()
            for x in v[2]: out |= self.origin(fn, g, x, d, depth + 1, seen)
            return out
        if k == "call": return self.call(fn, g, g.nodes[v[1]], depth, seen)
        if k == "glob": return {("unknown", "global " + str(v[-1]))}
        return {("unknown", g.render(v)[:60])}

    def container(self, fn, g, xs, d, depth, seen):
        out = {FRESH}
        for x in xs: out |= {top(o) if x[0] == "star" else wrap(o) for o in self.origin(fn, g, x[1] if x[0] == "star" else x, d, depth + 1, seen)}
        return out

    def param(self, fn, name, depth, seen):
        r = self.root_of_param(fn, name)
        if r: return {("shared", r)}
        key = ("param", fn.qual, name)
        if key in seen: return set()
        seen = seen | {key}
        ps = fn.params()
        if ps and name == ps[0] and fn.cls is not None and "staticmethod" not in fn.decorators:
            if self.is_config(fn.cls): return self.callers(fn, name, depth, seen, recv=True) or {("shared", f"{fn.cls.name}")}
            return {("unknown", "self")}
        out = self.callers(fn, name, depth, seen)
        if out: return out
        a = next((x.annotation for x in fn.node.args.args + fn.node.args.kwonlyargs if x.arg == name), None)
        if a is not None and any(self.is_config(c) for c in classes_in(self.p.ann_type(a, fn.mod))): return {("shared", f"argument {name} of {fn.short}")}
        return {("unknown", f"parameter {name} of {fn.short}")}

    def callers(self, fn, name, depth, seen, recv=False):
        out = set(); ps = fn.params()
        for f, g, n in self.calls().get(fn.qual, ()):
            if recv:
                if n.recv is not None: out |= self.origin(f, g, n.recv, n, depth + 1, seen)
                continue
            a = self.actual(fn, n, name)
            if a is not None: out |= self.origin(f, g, a, n, depth + 1, seen)
        return out

    def actual(self, fn, n, name):
        if name in n.kw: return n.kw[name]
        ps = list(fn.params())
        bound = fn.cls is not None and "staticmethod" not in fn.decorators and ps
        if bound: ps = ps[1:]
        if name in ps:
            i = ps.index(name)
            if i < len(n.args) and not any(a[0] == "star" for a in n.args[:i + 1]): return n.args[i]
        return None

    def attr(self, fn, g, v, d, depth, seen):
        b, F = v[1], v[2]
        ts = classes_in(self.ttype(g, b, d))
        cfg = [c for c in ts if self.is_config(c)]
        if cfg:
            os = self.origin(fn, g, b, d, depth + 1, seen)
            out = set()
            for o in os:
                if o[0] in ("shared", "top"): out.add(part(o))
                elif o == FRESH: out |= {FRESH}
                else: out.add(o)
            return out
        return self.field(ts, F, depth, seen)

    def field(self, ts, F, depth, seen):
        key = ("field", tuple(sorted(c.qual for c in ts)), F)
        if key in seen: return set()
        seen = seen | {key}; out = set(); hit = False
        for cs, f, g, n, v, how in self.writes().get(F, ()):
            if ts and cs and not any(a.is_sub(b) or b.is_sub(a) for a in ts for b in cs): continue
            if not ts and not cs: continue
            if any(self.is_config(c) for c in cs): continue
            hit = True
            os = self.origin(f, g, v, n, depth + 1, seen)
            if how == "ctor" and self.pyd:
                if any(copies(self.p, c, F) for c in cs): os = {top(o) for o in os}
            out |= os
        if not hit:
            for c in ts:
                ff = c.find_field(F)
                if ff and ff[1][0] is not None and any(self.is_config(x) for x in classes_in(self.p.ann_type(ff[1][0], ff[0].mod))): out.add(("shared", f"{c.name}.{F}"))
        return out or {("unknown", f"field {F}")}

    def call(self, fn, g, c, depth, seen):
        n = c.name
        if n in SCALAR: return {FRESH}
        if n in ("model_copy", "copy", "deepcopy", "replace"):
            deep = n == "deepcopy" or any(k == "deep" and v == ("const", True) for k, v in c.kw.items())
            if deep: return {FRESH}
            b = c.args[0] if c.args and n in ("copy", "replace") else c.recv
            if b is None: return {("unknown", n)}
            return {top(o) for o in self.origin(fn, g, b, c, depth + 1, seen)}
        if n in SHALLOW and c.args:
            out = set()
            for a in c.args: out |= {top(o) for o in self.origin(fn, g, a, c, depth + 1, seen)}
            return out
        if n in ("pop", "popleft", "get", "values", "items", "keys", "setdefault") and c.recv is not None and not (c.get("cands") or ()):
            os = self.origin(fn, g, c.recv, c, depth + 1, seen)
            return {part(o) if n in ("pop", "popleft", "get", "setdefault") else top(o) for o in os}
        if n in ("next", "choice", "max", "min") and c.args:
            return {part(o) for o in self.origin(fn, g, c.args[0], c, depth + 1, seen)}
        if n in ("validate_python", "model_validate", "parse_obj") and c.args and not self.is_dict(g, c.args[0], c):
            return self.origin(fn, g, c.args[0], c, depth + 1, seen)      # instances pass through unchanged
        cs = self.constructed(g, c)
        if cs:
            out = {FRESH}
            if any(self.is_config(x) for x in cs):
                for a in list(c.args) + list(c.kw.values()) + [v for _, v, _ in self.dict_entries(g, c)]: out |= {wrap(o) for o in self.origin(fn, g, a, c, depth + 1, seen) if o[0] in ("shared", "top")}
            return out
        ms = [m for m in c.get("cands") or () if isinstance(m, FuncInfo)]
        out = set()
        for m in ms: out |= self.result(m, depth, seen, (fn, g, c))
        return out or {("unknown", f"result of {n}")}

    def is_dict(self, g, t, n):
        return all(x[0] == "dict" or x[0] == "call" and g.nodes[x[1]].name in ("dict", "model_dump", "load", "loads") for d, x in leaves(g, t, n))

    def result(self, m, depth, seen, site=None):
        """what a function returns; arguments are those of the one call site followed"""
        key = ("ret", m.qual, site[2].id if site else None, site[0].qual if site else None)
        if key in seen or m.is_abstract: return set()
        seen = seen | {key}
        if m.qual not in self.byqual: return {("unknown", m.short)}
        g = self.g(m); out = set()
        sub = _Site(self, m, site) if site else self
        for d, v in returns2(g): out |= sub.origin(m, g, v, d, depth + 1, seen)
        return out

    # ------------------------------------------------------------------ mutations
    def mutations(self, fn):
        """[(node, changed object term, kind, text)]"""
        g = self.g(fn); out = []
        for n in g.nodes:
            if n.id not in g.live(): continue
            if n.kind in ("store", "substore", "assign") and n.get("aug") and n.value[0] == "bin" and n.value[1] in ("+", "|", "*", "-", "&"):
                ld, v = n.value[2], n.aug[1]
                if self.listy(g, ld, n) or self.listy(g, v, n): out.append((n, ld, "call", f"{g.r(ld, n)} {n.value[1]}= .."))
            if n.kind == "store": out.append((n, n.base, "attr", f"{g.r(n.base, n)}.{n.attr}"))
            elif n.kind == "substore": out.append((n, n.base, "sub", f"{g.r(n.base, n)}[..]"))
            elif n.kind == "del" and n.get("base") is not None: out.append((n, n.base, "del", f"del {g.r(n.base, n)}"))
            elif n.kind == "call" and not n.get("inlined") and n.name in MUT and n.recv is not None and not [m for m in n.get("cands") or ()]:
                if n.name == "update" and not n.args and not n.kw: continue
                out.append((n, n.recv, "call", f"{g.r(n.recv, n)}.{n.name}(..)"))
            elif n.kind == "call" and n.name in ("setattr", "delattr", "heappush", "heappop", "heapify", "shuffle", "setitem", "insort") and n.args: out.append((n, n.args[0], "call", f"{n.name}({g.r(n.args[0], n)}, ..)"))
        return out


    def listy(self, g, t, n):
        if any(k[0] in ("L", "D") for k in self.ttype(g, t, n)): return True
        return any(v[0] in ("list", "comp", "dict", "set") or v[0] == "call" and g.nodes[v[1]].name in ("list", "sorted", "set", "dict") for d, v in leaves(g, t, n))


class _Site(Own):
    """a function seen from one call site: its parameters are that call's arguments"""
    def __init__(self, own, m, site):
        self.__dict__.update(own.__dict__); self.own, self.m, self.site = own, m, site

    def param(self, fn, name, depth, seen):
        if fn.qual == self.m.qual:
            f, g, n = self.site; ps = fn.params()
            r = self.root_of_param(fn, name)
            if ps and name == ps[0] and fn.cls is not None and "staticmethod" not in fn.decorators:
                if not self.is_config(fn.cls): return {("unknown", "self")}
                return self.own.origin(f, g, n.recv, n, depth + 1, seen) if n.recv is not None else {("unknown", "self")}
            a = self.actual(fn, n, name)
            if a is not None: return self.own.origin(f, g, a, n, depth + 1, seen)
            return {r and ("shared", r) or FRESH}
        return self.own.param(fn, name, depth, seen)


def level(o): return None if o[0] not in ("shared", "top") else 0 if o[0] == "shared" else o[2]
def at(o, k): return ("shared", o[1]) if k <= 0 else ("top", o[1], min(k, 4))


def part(o):
    """an element / attribute of the object"""
    return o if level(o) is None else at(o, level(o) - 1)


def top(o):
    """a shallow copy of the object"""
    return o if level(o) is None else at(o, max(1, level(o)))


def wrap(o):
    """a new container the object is put into"""
    return o if level(o) is None else at(o, level(o) + 1)


def contexts(g): return g.ctxs


def returns2(g):
    return [(n, n.value) for n in g.nodes if n.kind == "assign" and n.id in g.live() and n.key == (g.root.id, "$ret") and n.value is not None]


def copies(p, c, F):
    """a container handed to the constructor is copied by the field's validation"""
    f = c.find_field(F)
    if not f or f[1][0] is None: return False
    if not any(b.split(".")[-1] in ("BaseModel",) for k in c.mro() for b in k.base_names()): return False
    return any(k[0] in ("L", "D", "T") for k in p.ann_type(f[1][0], f[0].mod))
