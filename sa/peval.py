"""Path-wise constant and term propagation over an inlined graph: every (bounded) path is walked once and the values of locals,
attributes and calls are substituted into the terms met on the way; branches whose test becomes constant are decided."""
from __future__ import annotations
from .lib import _lin
from .index import AnchorError

LEAF = {"const", "param", "class", "func", "mod", "ext", "glob", "member", "lambda", "comp", "unk", "rec", "undef", "default", "missing", "localfunc", "sent", "exc", "proc"}


class PathState:
    def __init__(self, g):
        self.g = g; self.env = {}; self.attrs = {}; self.calls = {}; self.lits = {}; self.order = []; self.nodes = []; self.count = {}; self.events = []; self.outer = None

    def fork(self):
        q = PathState.__new__(PathState); q.g = self.g; q.outer = self.outer
        q.env = dict(self.env); q.attrs = dict(self.attrs); q.calls = dict(self.calls); q.lits = dict(self.lits); q.order = list(self.order)
        q.nodes = list(self.nodes); q.count = dict(self.count); q.events = list(self.events)
        return q

    # ---- terms
    def close(self, t, d=0):
        if not isinstance(t, tuple) or not t: return t
        k = t[0]
        if d > 40 or k in LEAF: return t
        if k == "var":
            v = self.env.get((t[1], t[2]))
            if v is None: v = self.g.resolve(t, self.outer) if self.outer is not None else ("undef", t[2])
            return v
        if k == "attr":
            b = self.close(t[1], d + 1); key = self.g.render(b) + "." + t[2]
            return self.attrs.get(key, ("attr", b, t[2]))
        if k in ("call", "spawn"): return self.calls.get(t[1], t)
        if k in ("elem", "index"): return (k, self.close(t[1], d + 1), t[2])
        if k == "item":
            b, i = self.close(t[1], d + 1), self.close(t[2], d + 1)
            if b[0] in ("list", "tuple") and i[0] == "const" and isinstance(i[1], int) and not isinstance(i[1], bool) and -len(b[1]) <= i[1] < len(b[1]) and not any(x[0] == "star" for x in b[1]): return b[1][i[1]]
            return ("item", b, i)
        if k == "unpack":
            b = self.close(t[1], d + 1)
            if b[0] in ("list", "tuple") and isinstance(t[2], int) and t[2] < len(b[1]) and not any(x[0] == "star" for x in b[1]): return b[1][t[2]]
            return ("unpack", b, t[2])
        if k == "ctxval": return self.close(t[1], d + 1)
        out = tuple(self._any(x, d + 1) for x in t)
        return fold(out)

    def _any(self, x, d):
        if isinstance(x, tuple) and x:
            if isinstance(x[0], str): return self.close(x, d)
            return tuple(self._any(y, d) if isinstance(y, tuple) else y for y in x)
        return x

    def r(self, t): return self.g.render(self.close(t))
    def lin(self, t): return _lin(self.g, self.close(t))
    def attr(self, text): return self.attrs.get(text)


def fold(t):
    k = t[0]
    if k == "not" and t[1][0] == "const": return ("const", not t[1][1])
    if k == "cmp" and t[2][0] == "const" and t[3][0] == "const":
        a, b = t[2][1], t[3][1]
        try:
            return ("const", {"==": lambda: a == b, "!=": lambda: a != b, "is": lambda: a is b, "is not": lambda: a is not b, "<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b}[t[1]]())
        except Exception: return t
    if k == "cmp" and t[1] in ("is", "==", "is not", "!="):
        kinds = {"list", "tuple", "dict", "set", "class", "func", "lambda", "index", "fstr"}
        for a, b in ((t[2], t[3]), (t[3], t[2])):
            if a == ("const", None) and b[0] in kinds: return ("const", t[1] in ("is not", "!="))
        if t[2] == t[3] and t[2][0] in ("param", "member"): return ("const", t[1] in ("is", "=="))
        if t[2][0] == t[3][0] == "member" and t[2] != t[3] and t[2][1] == t[3][1]: return ("const", t[1] in ("is not", "!="))
    if k == "bin" and t[2][0] == "const" and t[3][0] == "const" and t[1] in ("+", "-", "*"):
        try: return ("const", {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b}[t[1]](t[2][1], t[3][1]))
        except Exception: return t
    return t


def truth(c):
    if c[0] == "const": return bool(c[1])
    if c[0] in ("list", "tuple", "dict", "set"):
        if not c[1]: return False
        if not any(x[0] == "star" for x in c[1] if c[0] != "dict"): return True
    if c[0] in ("lambda", "func", "class", "localfunc"): return True
    return None


def paths(g, stop=None, start=None, init=None, loop=1, limit=6000, exc=False, consistent=True, on=None, outer=None):
    """list of PathState, one per path from start to a stop node (or to an exit); .end is the node the path ends at"""
    out = []; s0 = PathState(g); s0.outer = outer
    if init: s0.env.update(init)
    work = [((start or g.entry).id, s0)]
    while work:
        nid, st = work.pop(); n = g.nodes[nid]
        st.nodes.append(n); st.count[nid] = st.count.get(nid, 0) + 1
        if (stop and len(st.nodes) > 1 and stop(n)) or n is g.exit or n is g.rexit or not n.succ or n is getattr(g, "texit", None) or n is getattr(g, "fexit", None):
            st.end = n; out.append(st)
            if len(out) > limit: raise AnchorError(f"too many paths in {g.fn.qual}")
            continue
        k = n.kind
        if k == "assign": st.env[n.key] = st.close(n.value)
        elif k == "store":
            b = st.r(n.base); key = b + "." + n.attr; v = st.close(n.value)
            st.attrs[key] = v
            for l in [l for l in st.lits if ("." + n.attr) in l]: del st.lits[l]
        elif k in ("call", "spawn"):
            a = tuple(st.close(x) for x in n.args); kw = tuple(sorted(((str(q), st.close(v)) for q, v in n.kw.items())))
            st.calls[nid] = ("pcall", st.close(n.func), a, kw)
        elif k == "edge" and g.nodes[n.of].kind == "branch":
            c = st.close(g.nodes[n.of].term); pol = bool(n.label)
            while c[0] == "not": c = c[1]; pol = not pol
            v = truth(c)
            if v is not None:
                if v != pol: continue
            else:
                s = g.render(c)
                if consistent and s in st.lits and st.lits[s] != pol: continue
                st.lits[s] = pol; st.order.append((c, pol))
        if on: on(st, n)
        nxt = [(s, l) for s, l in n.succ if (l != "exc" or exc or n.kind == "raise") and st.count.get(s, 0) <= loop]
        for i, (s, l) in enumerate(nxt):
            work.append((s, st if i == len(nxt) - 1 else st.fork()))
    return out
