"""Tables of the analyses: which table (cached result, recorded log) does the object a statement changes share its
data with, and which rows does a selection keep?

Labels of a term: ("table", name)   the term is, or is a view of, a cached table or the recorded log
                  ("parts", name)   a new container that holds the objects of such a list
                  ("param", name)   the object a parameter denotes
An empty set means a new object."""
import ast
from .lib import *
from .own import Own

VIEW = {"head", "tail", "to_frame", "to_numpy", "squeeze", "transpose", "view", "ravel", "get", "pipe", "swapaxes", "xs", "set_flags", "get_group"}
ACC = {"loc", "iloc", "at", "iat", "values", "T", "str", "dt", "index", "columns", "array"}
LISTY = {"list", "sorted", "reversed", "tuple", "filter", "enumerate", "zip", "iter", "chain"}
MUTATORS = {"insert", "pop", "update", "append", "extend", "remove", "clear", "sort", "reverse", "setdefault", "popitem", "put", "fill", "add", "__setitem__", "__delitem__", "isetitem", "partition", "resize"}
MASKCALL = {"isin", "notna", "isna", "notnull", "isnull", "duplicated", "between", "contains", "startswith", "endswith", "eq", "ne", "gt", "lt", "ge", "le", "fullmatch", "match"}
PURE = {"drop", "rename", "sort_values", "sort_index", "reset_index", "set_index", "fillna", "drop_duplicates", "dropna", "replace", "astype", "assign", "merge", "query", "where", "mask", "shift", "clip", "round", "copy", "reindex", "ffill", "bfill", "join"}
SAMEROWS = {"copy", "rename", "fillna", "astype", "sort_values", "sort_index", "assign", "drop_duplicates", "dropna", "head", "tail", "round", "clip", "replace", "infer_objects", "where", "mask", "ffill", "bfill", "shift", "abs"}


def is_const(t): return t is not None and t[0] in ("const", "member", "neg")


class Frames:
    def __init__(self, ck, funcs, owners):
        """owners: {class name: predicate(attribute name) -> is shared data}"""
        self.ck, self.p, self.funcs = ck, ck.p, funcs
        self.own = Own(ck, funcs, lambda c: False, lambda f, n: None)
        self.owners = owners; self.names = {}
        for c in ck.p.all_classes():
            if c.name in owners:
                for x in list(c.all_fields()) + [m for k in c.mro() for m in k.methods]:
                    if owners[c.name](c, x): self.names.setdefault(x, set()).add(c.name)
        self.byq = {f.qual: f for f in funcs}; self._mp = {}

    def g(self, fn): return self.own.g(fn)

    # ------------------------------------------------------------------ sharing
    def shared_attr(self, g, t, node):
        b, name = t[1], t[2]
        ty = [c for c in classes_in(self.own.ttype(g, b, node))]
        if b == ("var", g.root.id, "self") and g.fn.cls is not None: ty = [g.fn.cls]
        if ty:
            for c in ty:
                for m in c.mro():
                    if m.name in self.owners and self.owners[m.name](c, name): return f"{m.name}.{name}"
            return None
        if name in self.names and len(self.names[name]) == 1 and name not in ("kpis",): return f"{next(iter(self.names[name]))}.{name}"
        return None

    def shares(self, fn, t, node, depth=0, seen=frozenset()):
        g = self.g(fn); out = set()
        if t is None or depth > 14: return out
        for d, v in leaves(g, t, node): out |= self._one(fn, g, v, d, depth + 1, seen)
        return out

    def _one(self, fn, g, v, d, depth, seen):
        k = v[0]; S = lambda t, n=d: self.shares(fn, t, n, depth, seen)
        if k == "param":
            return {("param", v[1])}
        if k == "attr":
            s = self.shared_attr(g, v, d)
            if s: return {("table", s)}
            if v[1] == ("var", g.root.id, "self"): return set()
            cs = classes_in(self.own.ttype(g, v[1], d))
            for c in cs:
                m = c.find_method(v[2])
                if m is not None and m.qual in self.byq and m.qual not in seen and any("property" in x for x in m.decorators): return self.result(m, {}, depth, seen)
            return {x for x in S(v[1]) if x[0] in ("table", "param")}
        if k == "item":
            ix = v[2]; ixs = [x for _, x in leaves(g, ix, d)]
            b = v[1]
            if b[0] == "attr" and b[2] in ("at", "iat"): return set()
            acc = b[0] == "attr" and b[2] in ("loc", "iloc")
            src = S(b)
            if not src: return src
            one = ixs[0] if len(ixs) == 1 else ("?",)
            if one[0] == "const" and isinstance(one[1], str) and not acc: return {x for x in src if x[0] != "parts"} | {("table", x[1]) for x in src if x[0] == "parts"}
            if is_const(one):                                   # a row, an element, a scalar
                return set() if acc else {("table", x[1]) if x[0] == "parts" else x for x in src if x[0] == "parts" or self.listy(x)}
            if one[0] in ("slice",) or one[0] == "call" and g.nodes[one[1]].get("name") == "slice":
                return {("parts", x[1]) if self.listy(x) else x for x in src}
            if acc and one[0] == "tuple" and any(y[0] == "slice" for y in one[1][:1]) and is_const(one[1][-1]): return src
            return set()
        if k in ("elem",):
            it = v[1]; out = set()
            for dd, w in leaves(g, it, d):
                if w[0] == "call" and g.nodes[w[1]].get("name") in ("iterrows", "itertuples", "items", "groupby", "unique", "tolist"): continue
                for x in self._one(fn, g, w, dd, depth + 1, seen):
                    if x[0] == "parts": out.add(("table", x[1]))
                    elif self.listy(x): out.add(x)
            return out
        if k == "unpack": return S(v[1])
        if k == "comp":
            en = g.nodes[g.comps[v[2]]["elt"]]
            return {("parts", x[1]) for x in S(en.value, en) if x[0] in ("table", "parts")} if en.get("value") is not None else set()
        if k == "bool":
            out = set()
            for x in v[2]: out |= S(x)
            return out
        if k in ("list", "tuple"):
            out = set()
            for x in v[1]: out |= {("parts", y[1]) for y in S(x) if y[0] in ("table", "parts")}
            return out
        if k == "bin" and v[1] == "+":
            return {("parts", y[1]) for x in v[2:4] for y in S(x) if y[0] == "parts" or self.listy(y)}
        if k == "call":
            c = g.nodes[v[1]]; nm = c.get("name")
            if nm in ("copy", "deepcopy", "model_copy"):
                x = c.recv if c.recv is not None and not (c.args and nm != "model_copy" and c.args[0][0] != "const") else (c.args[0] if c.args else None)
                deep = c.kw.get("deep", c.args[0] if nm == "copy" and c.args and c.args[0][0] == "const" else None)
                if deep == ("const", False): return S(x, c)
                return {("parts", y[1]) for y in S(x, c) if y[0] in ("table", "parts") and self.listy(y)} if nm == "copy" else set()
            if nm in LISTY and c.recv is None:
                return {("parts", y[1]) for a in c.args for y in S(a, c) if y[0] in ("table", "parts")}
            cands = [m for m in c.get("cands") or () if m.qual in self.byq]
            if cands:
                out = set()
                for m in cands:
                    if m.qual in seen: continue
                    out |= self.result(m, self.actuals(fn, c, m), depth, seen, fn, c)
                return out
            if c.recv is not None and nm in VIEW: return S(c.recv, c)
            if nm in ("astype", "rename", "set_axis", "infer_objects") and c.kw.get("copy") == ("const", False): return S(c.recv, c)
            if nm in ("asarray", "DataFrame", "Series") and c.args:
                return {x for x in S(c.args[0], c) if not self.listy(x)} if c.kw.get("copy") != ("const", True) else set()
            if nm == "getattr" and c.args: return S(c.args[0], c)
            return set()
        return set()

    def listy(self, x): return x[0] == "table" and (x[1].endswith(("KPIs", "KPIS", "_log", ".kpis", "event_data")) or x[1].startswith("Performance."))

    def actuals(self, fn, c, m):
        out = {}
        ps = [p for p in m.params()]
        if m.cls is not None and ps and ps[0] == "self":
            if c.recv is not None: out["self"] = c.recv
            ps = ps[1:]
        for i, a in enumerate(c.args):
            if i < len(ps): out[ps[i]] = a
        for k, v in c.kw.items():
            if k: out[k] = v
        return out

    def result(self, m, actuals, depth, seen, fn=None, c=None):
        g = self.g(m); out = set()
        for r in returns(g):
            for x in self.shares(m, r.value, r, depth + 1, seen | {m.qual}):
                if x[0] == "param":
                    if x[1] in actuals and fn is not None: out |= self.shares(fn, actuals[x[1]], c, depth + 1, seen | {m.qual})
                else: out.add(x)
        return out

    # ------------------------------------------------------------------ changes
    def mutations(self, fn):
        """[(node, changed term, text)]"""
        g = self.g(fn); out = []
        for n in g.nodes:
            if n.id not in g.live(): continue
            if n.kind == "substore" or n.kind == "del" and n.get("base") is not None:
                b = n.base
                while b[0] == "attr" and b[2] in ACC: b = b[1]
                out.append((n, b, f"{g.render(b)}[{g.render(n.index) if n.get('index') else ''}]"))
            elif n.kind == "store":
                b = n.base
                while b[0] == "attr" and b[2] in ACC: b = b[1]
                out.append((n, b, f"{g.render(b)}.{n.attr}"))
            elif n.kind == "assign" and n.get("aug") and n.key[1] != "$ret":
                out.append((n, ("var",) + tuple(n.key), f"{n.key[1]} {n.aug[0]}="))
            elif n.kind == "call" and n.recv is not None and not [m for m in n.get("cands") or () if m.qual in self.byq]:
                if "inplace" in n.kw and n.kw["inplace"] != ("const", False) or n.get("name") in MUTATORS: out.append((n, n.recv, f"{g.render(n.recv)}.{n.name}()"))
            elif n.kind == "call" and n.get("name") == "setattr" and n.args: out.append((n, n.args[0], f"setattr({g.render(n.args[0])})"))
        return out

    def changed_params(self, fn, seen=frozenset()):
        """{parameter: (node, text)} whose object the function changes, itself or through the functions it calls"""
        if fn.qual in self._mp: return self._mp[fn.qual]
        if fn.qual in seen: return {}
        g = self.g(fn); out = {}
        for n, t, text in self.mutations(fn):
            for x in self.shares(fn, t, n):
                if x[0] == "param" and x[1] != "self": out.setdefault(x[1], (n, text))
        for n in g.nodes:
            if n.kind != "call" or n.id not in g.live(): continue
            for m in n.get("cands") or ():
                if m.qual not in self.byq: continue
                ch = self.changed_params(m, seen | {fn.qual})
                ac = self.actuals(fn, n, m)
                for q, (nn, text) in ch.items():
                    if q in ac:
                        for x in self.shares(fn, ac[q], n):
                            if x[0] == "param" and x[1] != "self": out.setdefault(x[1], (n, f"{m.short}() changes it"))
        if not seen: self._mp[fn.qual] = out
        return out

    def violations(self, fn):
        """[(node, table, text)], number of statements examined"""
        g = self.g(fn); out = []; k = 0
        for n, t, text in self.mutations(fn):
            k += 1
            for x in self.shares(fn, t, n):
                if x[0] == "table": out.append((n, x[1], text))
        for n in g.nodes:
            if n.kind != "call" or n.id not in g.live(): continue
            for m in n.get("cands") or ():
                if m.qual not in self.byq: continue
                ac = self.actuals(fn, n, m)
                for q, (nn, text) in self.changed_params(m).items():
                    if q not in ac: continue
                    k += 1
                    for x in self.shares(fn, ac[q], n):
                        if x[0] == "table": out.append((n, x[1], f"{m.short}({q}), which does {text}"))
        return out, k

    # ------------------------------------------------------------------ selections
    def leaf(self, g, t, n):
        ls = leaves(g, t, n)
        return ls[0] if len(ls) == 1 else (n, t)

    def is_mask(self, g, t, n, depth=0):
        if depth > 8: return False
        d, v = self.leaf(g, t, n)
        if v[0] == "cmp": return any(self.columns(g, x, d) for x in v[2:4])
        if v[0] == "bin" and v[1] in ("&", "|", "^"): return self.is_mask(g, v[2], d, depth + 1) or self.is_mask(g, v[3], d, depth + 1)
        if v[0] == "un": return self.is_mask(g, v[2], d, depth + 1)
        if v[0] == "call": return g.nodes[v[1]].get("name") in MASKCALL and g.nodes[v[1]].recv is not None and bool(self.columns(g, g.nodes[v[1]].recv, g.nodes[v[1]]))
        return False

    def columns(self, g, t, n, depth=0):
        """[(frame term, node, column)] a row-wise expression reads"""
        if depth > 10 or not isinstance(t, tuple) or not t: return []
        d, v = self.leaf(g, t, n)
        if v[0] == "item":
            c = self.leaf(g, v[2], d)[1]
            if c[0] == "const" and isinstance(c[1], str): return [(v[1], d, c[1])]
            if v[1][0] == "attr" and v[1][2] == "loc" and c[0] == "tuple" and c[1][-1][0] == "const": return [(("item", v[1], c[1][0]), d, c[1][-1][1])]
            return []
        if v[0] == "attr" and v[2] in ("str", "dt", "values"): return self.columns(g, v[1], d, depth + 1)
        if v[0] in ("cmp", "bin"): return self.columns(g, v[2], d, depth + 1) + self.columns(g, v[3], d, depth + 1)
        if v[0] == "un": return self.columns(g, v[2], d, depth + 1)
        if v[0] == "neg": return self.columns(g, v[1], d, depth + 1)
        if v[0] == "call":
            c = g.nodes[v[1]]
            if c.recv is not None and c.get("name") not in ("unique", "min", "max", "sum", "mean", "count", "tolist", "to_list", "nunique", "std", "first", "last", "any", "all"): return self.columns(g, c.recv, c, depth + 1)
        return []

    def rows(self, g, t, n, depth=0, seen=frozenset()):
        """nodes at which the row labels of a frame were made; None if unknown"""
        if depth > 14: return None
        out = set()
        for d, v in leaves(g, t, n):
            if v[0] == "param": out.add(("param", v[1])); continue
            if v[0] == "attr" and v[2] in ("loc", "iloc"): v = v[1]
            if v[0] == "attr":
                out.add(("attr", g.render(v))); continue
            if v[0] == "var": out.add(("var",) + v[1:]); continue
            if v[0] == "item":
                c = self.leaf(g, v[2], d)[1]
                b = v[1]
                if b[0] == "attr" and b[2] in ("loc", "iloc"): b = b[1]
                r = self.rows(g, b, d, depth + 1, seen)
                if r is None: return None
                out |= r; continue
            if v[0] == "call":
                c = g.nodes[v[1]]
                if c.get("name") in SAMEROWS and c.recv is not None:
                    r = self.rows(g, c.recv, c, depth + 1, seen)
                    if r is None: return None
                    out |= r; continue
                out.add(("node", c.id)); continue
            return None
        # statements that renew the labels in place
        return out

    def selections(self, fn):
        """[(node, frame term, mask term)] of every selection of rows by a condition"""
        g = self.g(fn); out = []; seen = set()
        def terms(n):
            for k in ("value", "base", "recv", "index", "iter", "cond", "test", "term"):
                x = n.get(k)
                if isinstance(x, tuple): yield x
            for x in n.get("args") or (): yield x
            for x in (n.get("kw") or {}).values(): yield x
            for x in n.get("vals") or (): yield x
        def walk(t, n):
            if not isinstance(t, tuple) or not t: return
            if t[0] == "item":
                ix = self.leaf(g, t[2], n)[1]
                m = ix[1][0] if ix[0] == "tuple" and ix[1] else ix
                b = t[1]
                if b[0] == "attr" and b[2] in ("loc", "iloc"): b = b[1]
                if self.is_mask(g, m, n) and (n.id, t) not in seen: seen.add((n.id, t)); out.append((n, b, m))
            for x in t:
                if isinstance(x, tuple): walk(x, n)
        for n in g.nodes:
            if n.id not in g.live(): continue
            for x in terms(n): walk(x, n)
            if n.kind == "substore":
                ix = self.leaf(g, n.index, n)[1]
                m = ix[1][0] if ix[0] == "tuple" and ix[1] else ix
                b = n.base
                if b[0] == "attr" and b[2] in ("loc", "iloc"): b = b[1]
                if self.is_mask(g, m, n): out.append((n, b, m))
        return out

    def conjuncts(self, g, t, n, out, depth=0):
        """all sub-conditions of a mask with the node they are read at"""
        if depth > 10: return
        d, v = self.leaf(g, t, n)
        out.append((d, v))
        if v[0] == "bin" and v[1] in ("&", "|", "^"):
            for x in v[2:4]: self.conjuncts(g, x, d, out, depth + 1)
        elif v[0] == "un": self.conjuncts(g, v[2], d, out, depth + 1)
        elif v[0] == "call" and g.nodes[v[1]].get("name") in MASKCALL: self.conjuncts(g, g.nodes[v[1]].recv, g.nodes[v[1]], out, depth + 1)
        elif v[0] == "attr" and v[2] in ("str", "dt"): self.conjuncts(g, v[1], d, out, depth + 1)
        elif v[0] == "cmp":
            for x in v[2:4]: self.conjuncts(g, x, d, out, depth + 1)
