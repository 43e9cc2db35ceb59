"""Algebraic normal forms of arithmetic terms: rational functions over atoms, power products under square roots and logarithms,
and lists of such values (for list comprehensions, zip, range, slices over a list of symbolic elements)."""
from __future__ import annotations
from fractions import Fraction as F

ONE = {(): F(1)}


def pmul(a, b):
    out = {}
    for m, c in a.items():
        for n, d in b.items():
            e = dict(m)
            for x, k in n:
                e[x] = e.get(x, 0) + k
                if e[x] == 0: del e[x]
            key = tuple(sorted(e.items(), key=repr)); out[key] = out.get(key, 0) + c * d
            if out[key] == 0: del out[key]
    return out


def padd(a, b, k=1):
    out = dict(a)
    for m, c in b.items():
        out[m] = out.get(m, 0) + k * c
        if out[m] == 0: del out[m]
    return out


class Rat:
    def __init__(self, num, den=None): self.n = num; self.d = den or dict(ONE)
    @staticmethod
    def atom(s): return Rat({((s, 1),): F(1)})
    @staticmethod
    def const(c): return Rat({(): F(c).limit_denominator(10 ** 9)} if c else {})
    def add(self, o, k=1): return Rat(padd(pmul(self.n, o.d), pmul(o.n, self.d), k), pmul(self.d, o.d))
    def mul(self, o): return Rat(pmul(self.n, o.n), pmul(self.d, o.d))
    def div(self, o): return Rat(pmul(self.n, o.d), pmul(self.d, o.n)) if o.n else None
    def neg(self): return Rat({m: -c for m, c in self.n.items()}, self.d)
    def constant(self):
        if not self.n: return F(0)
        if len(self.n) == 1 and () in self.n and len(self.d) == 1 and () in self.d: return self.n[()] / self.d[()]
        return None
    def pp(self):
        """coefficient, {base: exponent}"""
        c = F(1); out = {}
        for p, s in ((self.n, 1), (self.d, -1)):
            if not p: return F(0), {}
            mono = None
            for m in p:
                e = dict(m)
                mono = e if mono is None else {x: min(mono[x], e[x]) for x in mono if x in e}
            rest = pmul(p, {tuple((x, -k) for x, k in sorted(mono.items(), key=repr)): F(1)})
            lead = rest[min(rest, key=lambda m: (-max((k for _, k in m), default=0), repr(m)))]
            c *= lead if s > 0 else 1 / lead
            rest = {m: v / lead for m, v in rest.items()}
            for x, k in mono.items(): out[x] = out.get(x, 0) + s * k
            if rest != ONE:
                b = tuple(sorted(rest.items(), key=repr)); out[b] = out.get(b, 0) + s
        return c, {x: F(k) for x, k in out.items() if k}
    def key(self): c, p = self.pp(); return (c, frozenset(p.items()))


class PP:
    """coefficient times a product of bases with rational exponents"""
    def __init__(self, c, p): self.c = c; self.p = {k: v for k, v in p.items() if v}
    def key(self): return (self.c, frozenset(self.p.items()))
    def pp(self): return self.c, self.p
    def constant(self): return self.c if not self.p else None


def topp(v): return v.pp()


def mul(a, b, sign=1):
    if not isinstance(a, (Rat, PP)) or not isinstance(b, (Rat, PP)): return None
    if isinstance(a, Rat) and isinstance(b, Rat): return a.mul(b) if sign > 0 else a.div(b)
    (c, p), (d, q) = topp(a), topp(b)
    if sign < 0 and d == 0: return None
    out = dict(p)
    for x, k in q.items(): out[x] = out.get(x, 0) + sign * k
    return PP(c * d if sign > 0 else c / d, out)


def sqrt(v):
    if not isinstance(v, (Rat, PP)): return None
    c, p = topp(v)
    r = {F(1): F(1), F(0): F(0), F(4): F(2)}.get(c)
    q = {x: k / 2 for x, k in p.items()}
    if r is None: q[("coefficient", c)] = F(1, 2); r = F(1)
    return PP(r, q)


def power(v, e):
    if isinstance(e, F) and e.denominator == 1 and isinstance(v, Rat) and 0 <= e <= 6:
        out = Rat.const(1)
        for _ in range(int(e)): out = out.mul(v)
        return out
    if e == F(1, 2): return sqrt(v)
    c, p = topp(v)
    return PP(c, {x: k * e for x, k in p.items()}) if c == 1 else None


def log(v):
    if not isinstance(v, (Rat, PP)): return None
    c, p = topp(v)
    if c != 1: return None
    out = Rat({})
    for x, k in p.items(): out = out.add(Rat({((("log", x), 1),): F(k)}))
    return out


def absv(v):
    if not isinstance(v, Rat): return None
    c, p = v.pp()
    return Rat({((("abs", tuple(sorted(p.items(), key=repr))), 1),): abs(c)})


def same(a, b):
    if a is None or b is None: return False
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, Rat) and isinstance(b, Rat): return not a.add(b, -1).n
    return a.key() == b.key()


class Alg:
    """evaluates terms; atoms: rendered text -> value (Rat, list); everything else becomes an atom of its own rendering"""
    def __init__(self, g, known, opaque=True):
        self.g = g; self.known = known; self.opaque = opaque

    def node_term(self, nid):
        n = self.g.nodes[nid]; R = lambda x: self.g.resolve(x, n)
        return ("pcall", R(n.func) if n.func else ("unk", n.name), tuple(R(x) for x in n.args), tuple(sorted((str(q), R(v)) for q, v in n.kw.items())))

    def ev(self, t, b=None, d=0):
        b = b or {}
        if d > 60 or not isinstance(t, tuple) or not t: return None
        g = self.g; k = t[0]; E = lambda x: self.ev(x, b, d + 1)
        if k in ("attr", "param", "undef", "item"):
            s = g.render(t)
            if s in self.known: return self.known[s]
        if k == "const":
            return Rat.const(t[1]) if isinstance(t[1], (int, float)) and not isinstance(t[1], bool) else (t if t[1] is None else None)
        if k in ("elem", "index"):
            if t[2] not in b: return None
            if k == "index": return Rat.const(b[t[2]])
            s = E(t[1]); h = g.nodes[t[2]]
            if getattr(h, "lkind", None) == "zip" and t[1] == h.iter: return [x[b[t[2]]] for x in s] if isinstance(s, list) and all(isinstance(x, list) and b[t[2]] < len(x) for x in s) else None
            return s[b[t[2]]] if isinstance(s, list) and b[t[2]] < len(s) else None
        if k == "unpack":
            v = E(t[1]); return v[t[2]] if isinstance(v, list) and t[2] < len(v) else None
        if k == "item":
            v = E(t[1])
            if isinstance(v, list):
                if t[2][0] == "slice":
                    idx = []
                    for x in t[2][1:]:
                        if x == ("const", None): idx.append(None); continue
                        y = E(x); y = y.constant() if isinstance(y, Rat) else None
                        if y is None: return None
                        idx.append(int(y))
                    return v[slice(*idx)]
                i = E(t[2]); i = i.constant() if isinstance(i, Rat) else None
                return v[int(i)] if i is not None and -len(v) <= i < len(v) else None
        if k in ("list", "tuple"):
            out = []
            for x in t[1]:
                if x[0] == "star":
                    v = E(x[1])
                    if not isinstance(v, list): return None
                    out += v
                else: out.append(E(x))
            return out
        if k == "neg": return self.elt(E(t[1]), lambda x: x.neg() if isinstance(x, Rat) else None)
        if k == "bin":
            a, c = E(t[2]), E(t[3]); op = t[1]
            if isinstance(a, list) and isinstance(c, list) and op == "+" and not getattr(a, "vec", False): return a + c
            if op == "*" and isinstance(a, list) != isinstance(c, list) and not (getattr(a, "vec", False) or getattr(c, "vec", False)):
                lst, n = (a, c) if isinstance(a, list) else (c, a)
                return Rep(lst, n)
            return self.bin(op, a, c)
        if k == "comp": return self.comp(t, b, d)
        if k in ("call", "spawn"): return self.call(self.node_term(t[1]), b, d)
        if k == "pcall": return self.call(t, b, d)
        if k == "ctxval": return E(t[1])
        return self.atom(t)

    def atom(self, t):
        if not self.opaque: return None
        return Rat.atom(self.g.render(t))

    def elt(self, v, f):
        if isinstance(v, list):
            r = [self.elt(x, f) for x in v]
            return Vec(r) if getattr(v, "vec", False) else r
        return None if v is None or isinstance(v, tuple) else f(v)

    def bin(self, op, a, c):
        if isinstance(a, list) or isinstance(c, list):
            if isinstance(a, list) and isinstance(c, list):
                if len(a) != len(c): return None
                return Vec([self.bin(op, x, y) for x, y in zip(a, c)])
            return Vec([self.bin(op, x, c) for x in a]) if isinstance(a, list) else Vec([self.bin(op, a, x) for x in c])
        if not isinstance(a, (Rat, PP)) or not isinstance(c, (Rat, PP)): return None
        if op in ("+", "-"): return a.add(c, 1 if op == "+" else -1) if isinstance(a, Rat) and isinstance(c, Rat) else None
        if op == "*": return mul(a, c)
        if op == "/": return mul(a, c, -1)
        if op == "**": e = c.constant(); return power(a, e) if e is not None else None
        return None

    def comp(self, t, b, d):
        g = self.g; info = g.comps[t[2]]; n = g.nodes[info["elt"]]
        heads = info["heads"]
        if any(g.nodes[e.of].kind == "branch" for e in g.guards(n) if any(g.dominates(g.nodes[h], g.nodes[e.of]) for h in heads)): return None
        out = []
        def rec(i, bb):
            if i == len(heads):
                out.append(self.ev(g.resolve(n.value, n), bb, d + 1)); return True
            h = g.nodes[heads[i]]; s = self.ev(g.resolve(h.iter, h), bb, d + 1)
            if not isinstance(s, list): return False
            if getattr(h, "lkind", None) == "zip":
                if not all(isinstance(x, list) for x in s): return False
                size = min(map(len, s), default=0)
            else: size = len(s)
            for j in range(size):
                if not rec(i + 1, {**bb, h.id: j}): return False
            return True
        return out if rec(0, dict(b)) else None

    def call(self, t, b, d):
        g = self.g; f = t[1]; E = lambda x: self.ev(x, b, d + 1)
        s = g.render(t)
        if s in self.known: return self.known[s]
        name = str(f[2] if f[0] == "attr" else f[-1]).split(".")[-1]
        a = list(t[2]); kw = dict(t[3])
        recv = None
        if f[0] == "attr":
            base = f[1]
            if base[0] not in ("ext", "mod", "glob", "class"): recv = base
        if recv is not None and name in ("sum", "tolist", "copy"): a = [recv] + a
        if name in ("array", "asarray") and a:
            v = E(a[0]); return Vec(v) if isinstance(v, list) else None
        if name in ("list", "tuple", "iter", "float", "copy", "deepcopy", "tolist") and len(a) == 1:
            v = E(a[0]); return list(v) if isinstance(v, list) and name != "float" else v
        if name in ("abs", "absolute", "fabs") and len(a) == 1: return self.elt(E(a[0]), absv)
        if name == "sqrt": return self.elt(E(a[0]), sqrt)
        if name == "log" and len(a) == 1: return self.elt(E(a[0]), log)
        if name == "log1p": return self.elt(E(a[0]), lambda x: log(x.add(Rat.const(1))) if isinstance(x, Rat) else None)
        if name == "square": return self.elt(E(a[0]), lambda x: power(x, F(2)))
        if name in ("pow", "power") and len(a) == 2: return self.bin("**", E(a[0]), E(a[1]))
        if name in ("subtract", "add", "divide", "multiply") and len(a) == 2: return self.bin({"subtract": "-", "add": "+", "divide": "/", "multiply": "*"}[name], E(a[0]), E(a[1]))
        if name in ("mean", "fmean", "average") and len(a) == 1:
            v = E(a[0])
            if not isinstance(v, list) or not v: return None
            out = Rat({})
            for x in v:
                if not isinstance(x, Rat): return None
                out = out.add(x)
            return out.div(Rat.const(len(v)))
        if name in ("sum", "fsum"):
            v = E(a[0])
            if not isinstance(v, list): return self.atom(t)
            out = Rat({})
            for x in v:
                if not isinstance(x, Rat): return None
                out = out.add(x)
            return out
        if name in ("norm", "hypot", "dist"):
            vs = [E(x) for x in a]
            o = kw.get("ord") or (a[1] if name == "norm" and len(a) > 1 else None)
            if name == "dist": v = self.bin("-", *vs) if len(vs) == 2 else None
            elif name == "hypot": v = vs
            else: v = vs[0] if vs else None
            if not isinstance(v, list) or any(not isinstance(x, Rat) for x in v): return None
            if o is not None and o == ("const", 1):
                out = Rat({})
                for x in v: out = out.add(absv(x))
                return out
            if o is not None and o not in (("const", 2), ("const", None)): return None
            out = Rat({})
            for x in v: out = out.add(x.mul(x))
            return sqrt(out)
        if name == "zip":
            vs = [E(x) for x in a]
            return [list(x) for x in zip(*vs)] if all(isinstance(v, list) for v in vs) else None
        if name == "pairwise":
            v = E(a[0]); return [list(x) for x in zip(v, v[1:])] if isinstance(v, list) else None
        if name == "enumerate":
            v = E(a[0]); return [[Rat.const(i), x] for i, x in enumerate(v)] if isinstance(v, list) and len(a) == 1 else None
        if name == "range":
            vs = [E(x) for x in a]; vs = [x.constant() if isinstance(x, Rat) else None for x in vs]
            return [Rat.const(i) for i in range(*map(int, vs))] if all(x is not None for x in vs) else None
        if name == "len":
            v = E(a[0]); return Rat.const(len(v)) if isinstance(v, list) else self.atom(t)
        if name == "diff" and len(a) == 1:
            v = E(a[0])
            p = kw.get("prepend")
            if p is not None and isinstance(v, list): v = [E(p)] + v
            return [self.bin("-", y, x) for x, y in zip(v, v[1:])] if isinstance(v, list) else None
        if name == "chain":
            vs = [E(x) for x in a]
            return [y for x in vs for y in x] if all(isinstance(v, list) for v in vs) else None
        return self.atom(t)


class Vec(list):
    vec = True


class Rep(list):
    """a list repeated n times (n symbolic)"""
    def __init__(self, lst, n): super().__init__(lst); self.times = n


class Cycle(list):
    """the elements, repeated for ever"""


class Made:
    """the result of a call that is not modelled"""
    def __init__(self, name, args, kw): self.name = name; self.args = args; self.kw = kw
    def key(self): return (self.name, tuple(map(repr, self.args)), repr(self.kw))
    def values(self):
        out = []; todo = list(self.args) + list(self.kw.values())
        while todo:
            x = todo.pop()
            if isinstance(x, Made): todo += list(x.args) + list(x.kw.values())
            elif isinstance(x, dict): todo += list(x.values())
            elif isinstance(x, list): todo += x
            else: out.append(x)
        return out


class Interp(Alg):
    """walks the graph with algebraic values for locals (loops over lists of known length are unrolled, appends are carried out);
    undecidable branches fork on the text of their condition"""
    def __init__(self, g, known, limit=4000, attrs=None):
        super().__init__(g, known, opaque=False); self.limit = limit; self.attrs0 = attrs or {}

    def ev(self, t, b=None, d=0):
        if isinstance(t, tuple) and t:
            st = self.st; k = t[0]
            if k == "var": return st["env"].get((t[1], t[2]))
            if k in ("call", "spawn") and t[1] in st["calls"]: return st["calls"][t[1]]
            if k == "comp": return st["comps"].get(t[2])
            if k == "ctxval": return self.ev(t[1], b, d + 1)
            if k == "dict": return {x[1]: self.ev(v) for x, v in t[1] if x[0] == "const"}
            if k in ("elem", "index") and t[2] in st["at"]:
                j = st["at"][t[2]]
                if k == "index": return Rat.const(j)
                h = self.g.nodes[t[2]]; it = st["iters"][t[2]]
                if h.lkind == "zip":
                    if t[1] == h.iter: return [x[j] for x in it]
                    return it[h.iter[1].index(t[1])][j]
                return it[j] if j < len(it) else None
            if k == "attr":
                s = self.text(t)
                if s in st["attrs"]: return st["attrs"][s]
                if s in self.known: return self.known[s]
        return super().ev(t, b, d)

    def text(self, t): return self.g.render(self.open(t))

    def open(self, t):
        """locals replaced by the terms they were assigned (for naming attributes and conditions)"""
        if isinstance(t, tuple) and t and t[0] == "var": return self.st["terms"].get((t[1], t[2]), ("undef", t[2]))
        if isinstance(t, tuple) and t and t[0] == "ctxval": return self.open(t[1])
        return tuple(self.open(x) if isinstance(x, tuple) else x for x in t) if isinstance(t, tuple) else t

    def call(self, t, b, d):
        f = t[1]; name = str(f[2] if f[0] == "attr" else f[-1]).split(".")[-1]
        if name == "cycle" and len(t[2]) == 1:
            v = self.ev(t[2][0]); return Cycle(v) if isinstance(v, list) else None
        if name in ("sorted", "reversed", "set"): return None
        if name in ("accumulate", "cumsum") and t[2]:
            v = self.ev(t[2][0]); out = []; acc = None
            for x in v if isinstance(v, list) else []:
                acc = x if acc is None else self.bin("+", acc, x); out.append(acc)
            return out
        if f[0] == "attr" and name in ("append", "extend", "insert", "pop", "popleft", "appendleft"):
            lst = self.ev(f[1])
            if isinstance(lst, list) and not getattr(lst, "vec", False):
                a = [self.ev(x) for x in t[2]]
                if name == "append": lst.append(a[0])
                elif name == "appendleft": lst.insert(0, a[0])
                elif name == "extend" and isinstance(a[0], list): lst.extend(a[0])
                elif name == "insert" and isinstance(a[0], Rat) and a[0].constant() is not None: lst.insert(int(a[0].constant()), a[1])
                elif name in ("pop", "popleft"):
                    i = 0 if name == "popleft" else int(a[0].constant()) if a and isinstance(a[0], Rat) and a[0].constant() is not None else -1
                    return lst.pop(i) if lst else None
                return None
        v = super().call(t, b, d)
        if v is None: v = Made(name, ([self.ev(f[1])] if f[0] == "attr" else []) + [self.ev(x) for x in t[2]], {k: self.ev(x) for k, x in t[3]})
        return v

    def truth(self, t):
        """True, False or (text, polarity)"""
        pol = True
        while t[0] == "not": t = t[1]; pol = not pol
        if t[0] == "cmp":
            x, y = self.ev(t[2]), self.ev(t[3])
            if isinstance(x, Rat) and isinstance(y, Rat):
                c = x.add(y, -1).constant()
                if c is not None and t[1] in ("==", "!=", "<", "<=", ">", ">="):
                    return {"==": c == 0, "!=": c != 0, "<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0}[t[1]] == pol
        else:
            v = self.ev(t)
            if isinstance(v, list): return bool(v) == pol
            if isinstance(v, Rat) and v.constant() is not None: return bool(v.constant()) == pol
        if t[0] == "const": return bool(t[1]) == pol
        return (self.text(t), pol)

    def run(self):
        """[(literals, returned value, attributes)] of the paths that end normally"""
        import copy
        g = self.g; out = []; steps = 0
        st0 = {"env": {}, "terms": {}, "calls": {}, "comps": {}, "at": {}, "iters": {}, "attrs": dict(self.attrs0), "lits": {}}
        work = [(g.entry.id, st0)]
        while work:
            nid, st = work.pop(); n = g.nodes[nid]; self.st = st; steps += 1
            if steps > self.limit: return None
            if n is g.exit: out.append((st["lits"], st["env"].get((g.root.id, "$ret")), st["attrs"], st["terms"].get((g.root.id, "$ret")))); continue
            if n is g.rexit or not n.succ: continue
            k = n.kind
            if k == "assign":
                v = self.ev(n.value); tm = self.open(n.value)
                st["env"][n.key] = v; st["terms"][n.key] = tm
            elif k == "store": st["attrs"][self.text(n.base) + "." + n.attr] = self.ev(n.value)
            elif k in ("call", "spawn"):
                st["calls"][nid] = self.call(("pcall", n.func if n.func else ("unk", n.name), n.args, tuple(sorted((str(q), v) for q, v in n.kw.items()))), None, 0)
            elif k == "compelt":
                c = st["comps"].setdefault(n.comp, [])
                c.append(self.ev(n.value))
            elif k == "loophead" and n.iter is not None:
                if nid not in st["at"]:
                    for c, info in g.comps.items():
                        if info["heads"] and info["heads"][0] == nid: st["comps"][c] = []
                    v = self.ev(n.iter)
                    if n.lkind == "zip" and isinstance(v, list) and all(isinstance(x, list) for x in v): st["iters"][nid] = [list(x) for x in v]; size = min(map(len, v), default=0)
                    elif isinstance(v, list) and n.lkind != "zip" and not isinstance(v, (Cycle, Rep)): st["iters"][nid] = v; size = len(v)
                    else: return None
                    st["at"][nid] = -1
                else:
                    it = st["iters"][nid]; size = min(map(len, it), default=0) if n.lkind == "zip" else len(it)
                st["at"][nid] += 1
                more = st["at"][nid] < size
                if not more: del st["at"][nid]; del st["iters"][nid]
                for s, l in n.succ:
                    if l == "exc": continue
                    if (l == "iter") == more: work.append((s, st))
                continue
            nxt = []
            for s, l in n.succ:
                if l == "exc" and k != "raise": continue
                e = g.nodes[s]
                if k == "branch" and e.kind == "edge":
                    v = self.truth(n.term)
                    if isinstance(v, tuple):
                        want = v[1] == bool(e.label)
                        if v[0] in st["lits"] and st["lits"][v[0]] != want: continue
                        nxt.append((s, (v[0], want)))
                    elif v == bool(e.label): nxt.append((s, None))
                else: nxt.append((s, None))
            for i, (s, lit) in enumerate(nxt):
                q = st if i == len(nxt) - 1 else copy.deepcopy(st)
                if lit: q["lits"][lit[0]] = lit[1]
                work.append((s, q))
        return out
