"""Model of the REST application: endpoints, the storage backend, and the paths through them as events on stored collections."""
import ast, os, re
from ..lib import *
from ..peval import paths
from ..index import FuncInfo
from . import p12

BACKEND = "app.dependencies"
WRITERS = {"append": "add", "insert": "add", "extend": "grow", "pop": "drop", "remove": "drop", "clear": "wipe", "popitem": "drop", "update": "grow", "setdefault": "put", "__setitem__": "put", "__delitem__": "drop", "sort": "order", "reverse": "order"}


class Endpoint:
    def __init__(self, mod, fn, method, sub, prefix, model):
        self.mod, self.fn, self.method, self.sub, self.prefix, self.model = mod, fn, method, sub, prefix, model
        self.path = prefix + sub
        self.keys = [s[1:-1] for s in self.path.split("/") if s.startswith("{")]
        self.name = f"{method.upper()} {self.path}"
        self.params = {a.arg: a.annotation for a in fn.node.args.args + fn.node.args.kwonlyargs}


def text(p, md, e):
    """constant string of an expression (literals, module constants, concatenations)"""
    if isinstance(e, ast.Constant) and isinstance(e.value, str): return e.value
    if isinstance(e, ast.Name) and e.id in md.consts: return text(p, md, md.consts[e.id])
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        a, b = text(p, md, e.left), text(p, md, e.right)
        return a + b if a is not None and b is not None else None
    if isinstance(e, ast.JoinedStr):
        out = [text(p, md, v.value if isinstance(v, ast.FormattedValue) else v) for v in e.values]
        return "".join(out) if None not in out else None
    return None


def handler(md, st):
    """the function behind a route (a module may define the same name for several routes)"""
    f = FuncInfo(st, md)
    twins = [x for x in md.tree.body if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)) and x.name == st.name]
    if len(twins) > 1: f.name += f"#{twins.index(st)}"
    return f


def endpoints(p):
    out = []
    for name, md in sorted(p.modules.items()):
        if not name.startswith("app.routers"): continue
        routers = {}
        for st in ast.walk(md.tree):
            if isinstance(st, ast.Assign) and isinstance(st.value, ast.Call) and ast.unparse(st.value.func).split(".")[-1] == "APIRouter":
                kw = {k.arg: k.value for k in st.value.keywords}
                pre = text(p, md, kw["prefix"]) if "prefix" in kw else ""
                for t in st.targets:
                    if isinstance(t, ast.Name): routers[t.id] = pre
        for st in md.tree.body:
            if not isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)): continue
            for d in st.decorator_list:
                if not (isinstance(d, ast.Call) and isinstance(d.func, ast.Attribute) and isinstance(d.func.value, ast.Name) and d.func.value.id in routers): continue
                kw = {k.arg: k.value for k in d.keywords}
                sub = text(p, md, d.args[0] if d.args else kw.get("path"))
                out.append(Endpoint(md, handler(md, st), d.func.attr, sub or "", routers[d.func.value.id] or "", kw.get("response_model")))
    return out


def backend_classes(p):
    """the classes get_backend can hand out"""
    f = p.func(BACKEND + ".get_backend"); out = []
    for n in ast.walk(f.node):
        if isinstance(n, ast.Return) and isinstance(n.value, ast.Call):
            r = f.mod.resolve_expr(n.value.func)
            if r and r[0] == "class": out.append(r[1])
    if not out:
        for ci in p.all_classes():
            if ci.mod.name.startswith("app.backends") and ci.find_method("get_adapter") and not any("Protocol" in b for b in ci.base_names()): out.append(ci)
    return out


def peel(t):
    while t and t[0] == "pcall" and len(t[2]) == 1 and not t[3] and t[1][-1] in ("list", "tuple", "iter", "builtins.list", "copy", "enumerate", "reversed", "set"): t = t[2][0]
    return t


def fname(t):
    return str(t[1][2] if t[1][0] == "attr" else t[1][-1]).split(".")[-1] if t[0] == "pcall" else ""


class Run:
    """one path: literals, events on stored things, outcome"""
    def __init__(self, g, st, events):
        self.g, self.st, self.ev = g, st, events
        self.order = st.order; self.end = st.end
        self.kind = "return" if st.end is g.exit else "raise"
        self.value = st.close(("var", g.root.id, "$ret")) if self.kind == "return" else None
        if self.kind == "return" and self.value and self.value[0] in ("undef",): self.value = ("const", None)
        r = [n for n in st.nodes if n.kind == "raise"]
        self.raised = r[-1] if r and self.kind == "raise" else None
        self.loc = (self.raised or (st.nodes[-2] if len(st.nodes) > 1 else st.nodes[-1])).loc
        self.status = None
        if self.raised is not None:
            v = st.close(self.raised.value) if self.raised.get("value") else None
            self.exc = v
            if v and v[0] == "pcall" and fname(v) == "HTTPException":
                kw = dict(v[3]); s = kw.get("status_code", v[2][0] if v[2] else None)
                self.status = status(s)

    def writes(self): return [e for e in self.ev if e[0] != "call"]


def status(s):
    if s is None: return None
    if s[0] == "const": return s[1]
    t = str(s[-1])
    import re
    m = re.search(r"HTTP_(\d+)", t)
    return int(m.group(1)) if m else t


def stored(t, roots, d=0):
    """whether a term denotes something kept by the backend (and not a fresh value)"""
    if not isinstance(t, tuple) or not t or d > 30: return False
    if roots(t): return True
    if t[0] in ("attr", "item"): return stored(t[1], roots, d + 1)
    if t[0] in ("elem", "index"): return stored(peel(t[1]), roots, d + 1)
    if t[0] == "unpack": return stored(t[1], roots, d + 1)
    if t[0] == "pcall":
        if t[1][0] == "attr" and t[1][2] in ("get", "values", "items", "pop", "setdefault"): return stored(t[1][1], roots, d + 1)
        if fname(t) == "next" and t[2]: return stored(t[2][0], roots, d + 1)
    return False


def runs(g, roots, loop=1, exc=False, limit=4000):
    """paths with their events; roots(term) says which terms are handles into the storage"""
    out = []
    for st in paths(g, loop=loop, exc=exc, limit=limit, on=_recorder(g, roots)):
        out.append(Run(g, st, [e for e in st.events]))
    return out


def _recorder(g, roots):
    def comp_ok(t): return stored(t, roots)
    def on(st, n):
        k = n.kind
        if k == "call":
            if n.get("inlined"): return
            f = st.close(n.func) if n.func else None
            t = st.calls.get(n.id)
            if f and f[0] == "attr" and f[2] in WRITERS and comp_ok(f[1]):
                st.events.append((WRITERS[f[2]], f[1], f[2], t[2], n))
            elif f and roots(("pcall", f, t[2], t[3])):
                st.events.append(("call", t, n))
        elif k == "substore":
            b = st.close(n.base)
            if comp_ok(b): st.events.append(("put", b, "[]", (st.close(n.index), st.close(n.value)), n))
        elif k == "del":
            b = n.get("base")
            if b is not None:
                b = st.close(b)
                if comp_ok(b): st.events.append(("drop", b, "del", (st.close(n.index),) if n.get("index") else (), n))
        elif k == "store":
            b = st.close(n.base)
            if comp_ok(b): st.events.append(("set", b, n.attr, (st.attrs.get(g.render(b) + "." + n.attr, st.close(n.value)),), n))
        elif k == "edge" and n.label == "iter" and g.nodes[n.of].kind == "loophead" and g.nodes[n.of].get("iter"):
            # what was said about the previous element does not hold for this one
            e = "elem(" + g.render(st.close(g.nodes[n.of].iter))
            for l in [l for l in st.lits if e in l]: del st.lits[l]
    return on


# ---------------------------------------------------------------- facts on a path
def callbind(p, t, cands):
    """{parameter: term} of a path call"""
    for c in cands:
        ps = [x for x in c.params() if x != "self"]; out = dict(zip(ps, t[2]))
        out.update({k: v for k, v in t[3]}); return out
    return dict(t[3])


class Facts:
    """what one path knows about the presence of keys in stored collections"""
    def __init__(self, run, tested, field):
        self.run, self.g, self.F = run, run.g, field
        self.found, self.absent, self.cond = [], [], []          # (collection text, key text, element term | None)
        g = run.g; st = run.st
        for c, pol in run.order: self.literal(c, pol)
        # loops that ran to their end
        iters = {}; seq = []
        for n in st.nodes:
            if n.kind != "edge" or g.nodes[n.of].kind != "loophead": continue
            h = g.nodes[n.of]
            if n.label == "iter": iters[h.id] = iters.get(h.id, 0) + 1
            elif n.label == "done": seq.append(h)
        self.empty = set(); self.iters = iters
        for h in seq:
            if not h.get("iter"): continue
            for (hid, C, K) in tested:
                if hid != h.id: continue
                mism = [1 for c, pol in run.order for x in [self.match(c)] if x and x[3] == hid and x[1] == K and pol == x[4]]
                if mism: continue                                 # a match was seen in this loop
                no = [1 for c, pol in run.order for x in [self.match(c)] if x and x[3] == hid and x[1] == K]
                if iters.get(h.id, 0) == 0 or len(no) >= iters[h.id]: self.absent.append((C, K, None))
            if iters.get(h.id, 0) == 0: self.empty.add(h.id)

    def R(self, t): return self.g.render(peel(t))

    def element(self, t):
        """(collection text, loop id) if t is an element of a stored collection"""
        if t[0] == "elem": return self.R(t[1]), t[2]
        if t[0] == "unpack" and t[1][0] == "elem": return self.R(t[1][1]), t[1][2]
        if t[0] == "item" and t[2][0] == "index" : return self.R(t[1]), t[2][2]
        return None

    def match(self, c):
        """(collection, key, element, loop, polarity that means found) of a literal comparing an element's identifier with a key"""
        if c[0] != "cmp" or c[1] not in ("==", "!="): return None
        for a, b in ((c[2], c[3]), (c[3], c[2])):
            if a[0] == "attr" and a[2] == self.F:
                e = self.element(a[1])
                if e and not (b[0] == "attr" and self.element(b[1]) == e): return e[0], self.g.render(b), a[1], e[1], c[1] == "=="
        return None

    def comp(self, t):
        """(collection, filter key | None, element is the identifier) of a comprehension over a stored collection"""
        g = self.g
        if t[0] != "comp": return None
        info = g.comps[t[2]]; n = g.nodes[info["elt"]]
        if len(info["heads"]) != 1: return None
        h = g.nodes[info["heads"][0]]; C = g.r(h.iter, h)
        brs = [e for e in g.guards(n) if g.nodes[e.of].kind == "branch" and g.dominates(h, g.nodes[e.of])]
        elt = g.resolve(n.value, n) if n.value is not None else None
        val = g.r(n.value, n) if n.value is not None else ""
        if info["kind"] == "dict" or n.get("vals"):
            ks = n.get("vals"); val = g.r(ks[0], n) if ks else val
        flt = None
        for e in brs:
            b = g.nodes[e.of]; m = self.match(g.resolve(b.term, b)) if b.term[0] == "cmp" else None
            m = m or self.match(self.run.st.close(b.term))
            if not m: return None
            flt = (m[1], e.label == m[4])
        return C, flt, val.endswith("." + self.F), elt

    def lookup(self, t):
        """(collection, key) if t is the element found under a key, or None when there is none: next(...), dict.get"""
        if fname(t) == "next" and t[2] and t[2][0][0] == "comp":
            c = self.comp(t[2][0])
            if c and c[1] and c[1][1] and len(t[2]) > 1 and t[2][1] == ("const", None): return c[0], c[1][0]
        if t[0] == "pcall" and t[1][0] == "attr" and t[1][2] == "get" and len(t[2]) >= 1: return self.R(t[1][1]), self.g.render(t[2][0])
        return None

    def literal(self, c, pol):
        add = lambda hit, C, K, E=None: (self.found if hit else self.absent).append((C, K, E))
        m = self.match(c)
        if m:
            if pol == m[4]: self.found.append((m[0], m[1], m[2]))
            return
        if c[0] == "cmp" and c[1] in ("in", "not in"):
            hit = pol == (c[1] == "in"); X = c[3]; K = self.g.render(c[2])
            X = peel(X)
            if X[0] == "pcall" and X[1][0] == "attr" and X[1][2] == "keys": X = X[1][1]
            cc = self.comp(X)
            if cc and cc[1] is None and cc[2]: add(hit, cc[0], K)
            elif X[0] in ("attr", "item"): add(hit, self.R(X), K)
            return
        if c[0] == "cmp" and c[1] in ("is", "is not", "==", "!=") and ("const", None) in (c[2], c[3]):
            t = c[3] if c[2] == ("const", None) else c[2]; l = self.lookup(t)
            if l: add(pol == (c[1] in ("is not", "!=")), l[0], l[1], t)
            return
        l = self.lookup(c)
        if l: add(pol, l[0], l[1], c); return
        cc = self.comp(peel(c)) if c[0] in ("comp", "pcall") else None
        if cc and cc[1] and cc[1][1]: add(pol, cc[0], cc[1][0], ("item", peel(c), ("const", 0)))

    def has(self, C, K): return next((f for f in self.found if f[0] == C and f[1] == K), None)
    def lacks(self, C, K): return (C, K, None) in self.absent or any(a[0] == C and a[1] == K for a in self.absent)


def tests(rs, field):
    """(loop, collection, key) tested anywhere in the function"""
    out = set()
    for r in rs:
        f = Facts.__new__(Facts); f.run, f.g, f.F = r, r.g, field
        for c, pol in r.order:
            m = f.match(c)
            if m: out.add((m[3], m[0], m[1]))
    return out


def facts(rs, field="ID"):
    """feasible paths with their facts"""
    T = tests(rs, field); out = []
    for r in rs:
        f = Facts(r, T, field)
        if any(f.lacks(a[0], a[1]) for a in f.found): continue                     # found by one search, missed by another
        # a collection an element was found in is not empty when it is searched (before anything was removed)
        if any(C == a[0] and h in f.empty for a in f.found for (h, C, K) in T): continue
        out.append((r, f))
    return out


def effects(r, f):
    """canonical changes of a path: (what, collection text, key / value texts, node)"""
    out = []; g = r.g
    for e in r.ev:
        if e[0] == "call": continue
        kind, C, how, a, n = e; Ct = f.R(C)
        isdict = kind == "put" and not any(x[0] in ("index", "const") for x in a[:1])
        if kind == "put":
            ix, v = a[0], a[1] if len(a) > 1 else ("const", None)
            k = position(f, Ct, ix)
            out.append(("replace" if k is not None else "put", Ct, k if k is not None else g.render(ix), g.render(v), n))
        elif kind == "drop":
            if how == "remove": k = next((x[1] for x in f.found if x[0] == Ct and a and (x[2] == a[0] or g.render(x[2] or ("const", 0)) == g.render(a[0]))), None)
            elif how == "popitem" or not a: k = None
            else:
                k = position(f, Ct, a[0])
                if k is None and a[0][0] not in ("index", "const"): k = g.render(a[0])
            out.append(("drop", Ct, k, None, n) if k is not None else ("?", Ct, how, None, n))
        elif kind == "add": out.append(("add", Ct, None, g.render(a[-1]), n) if how in ("append", "insert") and a else ("?", Ct, how, None, n))
        elif kind == "grow" and how == "extend" and a and a[0][0] == "list" and len(a[0][1]) == 1: out.append(("add", Ct, None, g.render(a[0][1][0]), n))
        elif kind == "set":
            tgt = Ct + "." + how; v = a[0]; c = f.comp(peel(v))
            if c and c[0] == tgt and c[1] and not c[1][1] and c[3] and f.element(c[3]): out.append(("drop", tgt, c[1][0], None, n))
            elif v[0] == "bin" and v[1] == "+" and f.R(v[2]) == tgt and v[3][0] == "list" and len(v[3][1]) == 1: out.append(("add", tgt, None, g.render(v[3][1][0]), n))
            elif v[0] == "list" and len(v[1]) == 2 and v[1][0][0] == "star" and f.R(v[1][0][1]) == tgt: out.append(("add", tgt, None, g.render(v[1][1]), n))
            else: out.append(("set", tgt, None, g.render(v), n))
        else: out.append(("?", Ct, how, None, n))
    return out


def position(f, C, ix):
    """the key whose element stands at this index of the collection"""
    for (c, K, E) in f.found:
        if c != C: continue
        if E is not None:
            e = f.element(E)
            if e and ix[0] == "index" and ix[2] == e[1]: return K
            if e and ix[0] == "unpack" and ix[1][0] == "elem" and ix[1][2] == e[1] and ix[2] == 0: return K
            if e and ix[0] == "const" and not isinstance(ix[1], bool) and ix[1] == f.iters.get(e[1], 0) - 1: return K
            if fname(ix) == "index" and ix[1][0] == "attr" and f.R(ix[1][1]) == C and ix[2] and f.g.render(ix[2][0]) == f.g.render(E): return K
        if fname(ix) == "index" and ix[1][0] == "attr" and ix[2] and f.g.render(ix[2][0]) == K:
            cc = f.comp(peel(ix[1][1]))
            if cc and cc[0] == C and cc[1] is None and cc[2]: return K
    if fname(ix) == "next" and ix[2] and ix[2][0][0] == "comp":
        info = f.g.comps[ix[2][0][2]]; n = f.g.nodes[info["elt"]]; cc = f.comp(ix[2][0])
        if cc and cc[0] == C and cc[1] and cc[1][1] and n.value is not None and f.g.resolve(n.value, n)[0] in ("index",): return cc[1][0]
    return None


def same(f, a, b):
    """literal knowledge about the equality of two texts: True / False / None"""
    if a == b: return True
    for c, pol in f.run.order:
        if c[0] == "cmp" and c[1] in ("==", "!=") and {f.g.render(c[2]), f.g.render(c[3])} == {a, b}: return pol == (c[1] == "==")
    return None


class Contract:
    """compares the paths of one operation with what it has to do"""
    def __init__(self, ck, report, construct, loc):
        self.ck, self.rep, self.con, self.loc = ck, report, construct, loc
        self.bad = {}
        self.n = 0

    def fail(self, prop, rule, r, msg):
        self.bad.setdefault((prop, rule), (r.loc if r is not None else self.loc, msg, self.show(r)))

    def show(self, r):
        if r is None: return None
        return [f"{'' if pol else 'not '}{r.g.render(c)}"[:160] for c, pol in r.order] + [f"{r.kind} {r.status or ''}"]

    def done(self, rules):
        for prop, rule in rules:
            b = self.bad.get((prop, rule))
            self.rep(prop, rule, self.con, b is None, b[1] if b else "", b[0] if b else self.loc, b[2] if b else None)
        for k in self.bad:
            if k not in rules: b = self.bad[k]; self.rep(k[0], k[1], self.con, False, b[1], b[0], b[2])


def judge(co, rs, op, C, K, B, F="ID", isdict=False, outer=(), extra=lambda r, f, effs: effs, value=None, invalid=lambda r, f: False, body_missing=None):
    """op in list/get/add/update/delete on collection text C, key text K, body text B; outer: (collection, key) that must be present too"""
    bk = f"{B}.{F}" if B and not isdict else None
    if isdict and isinstance(isdict, str): bk = isdict
    nret = 0
    for r, f in facts(rs, F):
        effs = effects(r, f); co.n += 1
        if r.kind == "raise":
            if effs: co.fail("P27", "refused-unchanged", r, f"{effs[0][0]} on {effs[0][1]} although the request is refused with {r.status}")
            if r.status is None: co.fail("P27", "error-is-an-answer", r, "fails with something else than an HTTP error"); continue
            gone = [x for x in outer if f.lacks(*x)]
            if r.status == 404 and (gone or (K and f.lacks(C, K)) or invalid(r, f)): continue
            if r.status == 409 and op in ("add", "update") and f.has(C, bk) and (op == "add" or same(f, bk, K) is False): continue
            if r.status in (404, 409):
                have = f.found
                if op in ("add", "update") and bk and f.has(C, bk) and r.status == 404: co.fail("P27", "conflict-status", r, "an existing identifier is answered with 404 instead of a conflict")
                elif r.status == 409 and K and f.lacks(C, K): co.fail("P27", "missing-status", r, "a missing object is answered with a conflict instead of 404")
                else: co.fail("P27", "no-needless-refusal", r, f"refused with {r.status} although nothing shows that the request must be refused")
            elif not invalid(r, f): co.fail("P27", "refusal-status", r, f"refused with status {r.status}")
            continue
        nret += 1
        for x in outer:
            if not f.has(*x): co.fail("P27", "missing-is-404", r, f"answers without having found {x[1]} in {x[0]}")
        if op in ("get", "update", "delete") and not f.has(C, K): co.fail("P27", "missing-is-404", r, f"answers without having found {K} in {C}")
        if op == "add" and not f.lacks(C, bk): co.fail("P27", "duplicate-is-conflict", r, f"adds without having established that {bk} is not yet in {C}")
        if op == "update" and bk and same(f, bk, K) is not True and not f.lacks(C, bk): co.fail("P27", "duplicate-is-conflict", r, f"an update can give the object the identifier of another one ({bk} is not looked up in {C})")
        effs = extra(r, f, effs)
        want = {"list": [], "get": [], "add": [("put", C, bk or "?", B)] if isdict else [("add", C, None, B)], "delete": [("drop", C, K, None)]}.get(op)
        if op == "update":
            want = [("replace", C, K, B)]
            if isdict: want = [("put", C, bk or K, B)]
            if isdict and bk and same(f, bk, K) is not True: want = [("drop", C, K, None)] + want
        got = [tuple(e[:4]) for e in effs]
        if isdict: got = [("put",) + x[1:] if x[0] == "replace" else x for x in got]
        if isdict and op == "update" and bk and same(f, bk, K) is True: got = [x if x != ("put", C, K, B) else ("put", C, bk, B) for x in got if x != ("drop", C, K, None) or True]
        if sorted(map(str, got)) != sorted(map(str, want)):
            co.fail("P28", "exactly-the-addressed", r, f"changes {describe(got)} instead of {describe(want)}")
        elif isdict and op == "update" and len(got) == 2 and got[0][0] != "drop": co.fail("P28", "exactly-the-addressed", r, "the new entry is dropped again")
        if value is not None:
            v = value(r, f, effs)
            if v: co.fail("P28", "answers-the-object", r, v)
    if not nret: co.fail("P27", "no-needless-refusal", None, "no request is ever answered")


def describe(es): return "; ".join(f"{e[0]} {e[1]}{'[' + str(e[2]) + ']' if e[2] else ''}{' = ' + str(e[3]) if e[3] else ''}" for e in es) or "nothing"


# ---------------------------------------------------------------- the application
VERB = {"list": "get", "get": "get", "add": "create", "update": "update", "delete": "delete"}
SINGULAR = {"projects": "project", "adapters": "adapter"}


class App:
    def __init__(self, ck, report):
        self.ck, self.p, self.rep = ck, ck.p, report
        self.eps = endpoints(self.p); self.bks = backend_classes(self.p)
        ck.need("REST endpoints", len(self.eps), 50); ck.need("storage backends", len(self.bks))
        self.BK = self.bks[0]

    def is_backend(self, t):
        return t[0] == "glob" and t[2] == "prodsys_backend" or t[0] == "attr" and t[2] == "prodsys_backend"

    def backend_call(self, t): return t[0] == "pcall" and t[1][0] == "attr" and self.is_backend(t[1][1])

    def bind(self, t):
        m = self.BK.find_method(t[1][2])
        if not m: return None
        ps = [x for x in m.params() if x != "self"]; out = dict(zip(ps, t[2])); out.update(dict(t[3]))
        return out if set(out) == set(ps) and len(t[2]) + len(t[3]) == len(ps) else None

    def runs(self, fn, **kw):
        g = self.ck.graph(fn, inline=lambda f: f.mod.name.startswith("app."))
        rec = _recorder(g, self.backend_call)
        def on(st, n):
            if n.kind == "call" and not n.get("inlined"):
                t = st.calls.get(n.id)
                if t and self.backend_call(t):
                    b = self.bind(t)
                    if b: st.calls[n.id] = ("pcall", t[1], tuple(b.values()) if False else tuple(b[x] for x in self.BK.find_method(t[1][2]).params() if x != "self"), ())
            rec(st, n)
        return g, [Run(g, st, list(st.events)) for st in paths(g, loop=kw.get("loop", 1), on=on, exc=kw.get("exc", False))]

    # ---- endpoints
    def op(self, e):
        last = e.sub.strip("/")
        item = last.startswith("{") and "/" not in last
        if last == "" : return {"get": "list", "post": "add"}.get(e.method)
        if item: return {"get": "get", "put": "update", "delete": "delete"}.get(e.method)
        return None

    def body(self, e):
        """the request body: the parameter of a model type"""
        out = []
        for n, a in e.params.items():
            if n in e.keys or a is None: continue
            cs = [c for c in p12.classes_in(self.p, e.mod, a) if not self.p.is_enum(c)]
            if cs: out.append((n, cs))
        return out

    def collection(self, e):
        seg = [s for s in (e.prefix + e.sub).split("/") if s and not s.startswith("{")]
        return seg[-1] if seg else ""

    def addressed(self, e, rs):
        """every access to the storage names the addressed project and adapter"""
        bad = None; n = 0
        for r in rs:
            for ev in r.ev:
                if ev[0] != "call": continue
                t = ev[1]; n += 1; b = self.bind(t)
                if b is None: bad = ("P29", "storage-signature", ev[2].loc, f"{r.g.render(t)[:120]} does not fit the storage's {t[1][2]}"); break
                own = {r.g.render(r.st.close(x.value)) for x in r.st.nodes if x.kind == "store" and x.attr == "ID"}      # identifiers of adapters created on the way
                for k in ("project_id", "adapter_id"):
                    if k == "adapter_id" and k in b and r.g.render(b[k]) in own and any(c[0] == "call" and c[1][1][2] == "create_adapter" for c in r.ev): continue
                    if k in b and k in e.keys and b[k] != ("param", k): bad = ("P28", "addressed-adapter", ev[2].loc, f"{t[1][2]} is called with {r.g.render(b[k])} as {k}"); break
            if bad: break
        for prop, rule in (("P29", "storage-signature"), ("P28", "addressed-adapter")):
            hit = bad and bad[1] == rule
            self.rep(prop, rule, e.name, not hit, bad[3] if hit else "", bad[2] if hit else e.fn.loc)
        return n

    def passthrough(self, e):
        """project and adapter endpoints hand the request over to the storage"""
        op = self.op(e); noun = SINGULAR.get(self.collection(e))
        if not op or not noun: return False
        want = f"{VERB[op]}_{noun}" + ("s" if op == "list" else "")
        g, rs = self.runs(e.fn); co = Contract(self.ck, self.rep, e.name, e.fn.loc)
        self.addressed(e, rs)
        bodies = [n for n, cs in self.body(e)]
        for r in rs:
            calls = [ev for ev in r.ev if ev[0] == "call"]
            if r.kind == "raise": co.fail("P27", "no-needless-refusal", r, f"refused with {r.status} by the endpoint itself"); continue
            if len(calls) != 1 or calls[0][1][1][2] != want:
                co.fail("P28", "exactly-the-addressed", r, f"calls {', '.join(c[1][1][2] for c in calls) or 'nothing'} instead of {want}"); continue
            if len(r.writes()): co.fail("P28", "exactly-the-addressed", r, "changes the stored objects beside the storage call")
            b = self.bind(calls[0][1]) or {}
            for k, v in b.items():
                ok = v == ("param", k) if k in e.params else v[0] == "param" and v[1] in bodies
                if not ok: co.fail("P28", "exactly-the-addressed", r, f"{want} gets {r.g.render(v)} as {k}")
            if op != "delete" and r.g.render(peel(r.value)) != r.g.render(calls[0][1]) and not (op in ("add", "update") and r.value[0] == "param" and r.value[1] in bodies): co.fail("P28", "answers-the-object", r, f"answers {r.g.render(r.value)[:80]}")
        co.done([("P27", "no-needless-refusal"), ("P28", "exactly-the-addressed"), ("P28", "answers-the-object")])
        return True

    def sections(self):
        """element routers: prefix -> [endpoints]"""
        out = {}
        for e in self.eps:
            seg = [s for s in e.prefix.split("/") if s]
            if len(seg) == 5 and seg[0] == "projects" and seg[2] == "adapters" and seg[4] not in ("simulate", "optimize", "performance", "plots", "scenario"): out.setdefault(e.prefix, []).append(e)
        return out

    def section_field(self, es):
        """the adapter's section that holds the elements this router speaks of: the one with the classes of the request bodies"""
        ad = self.p.cls(p12.AD); kinds = {}
        for n, (own, (ann, v)) in ad.all_fields().items():
            cs = frozenset(c.qual for c in p12.classes_in(self.p, own.mod, ann))
            if cs and n.endswith("_data"): kinds[cs] = n
        votes = {}
        for e in es:
            for n, cs in self.body(e):
                S = {c.qual for c in cs}
                for k, f in kinds.items():
                    if S & k: votes[f] = votes.get(f, 0) + 1
        best = sorted(votes, key=lambda f: -votes[f])
        return (best[0], next(k for k, f in kinds.items() if f == best[0])) if best else (None, frozenset())

    def elements(self):
        seen = {}
        for pre, es in sorted(self.sections().items()):
            S, kinds = self.section_field(es)
            if not S: self.rep("P29", "body-type", pre, False, "no request body of this collection is an element of a configuration section", es[0].fn.loc); continue
            self.rep("P29", "own-section", pre, S not in seen, f"{S} is served by {seen.get(S)} as well", es[0].fn.loc); seen[S] = pre
            ops = {}
            for e in es:
                op = self.op(e); ops.setdefault(op, []).append(e)
                g, rs = self.runs(e.fn); self.addressed(e, rs)
                co = Contract(self.ck, self.rep, e.name, e.fn.loc)
                other = set()
                for r in rs:
                    texts = [g.render(c) for c, pol in r.order] + [g.render(ev[1]) for ev in r.ev if ev[0] != "call"] + ([g.render(r.value)] if r.value else [])
                    for t in texts: other |= set(re.findall(r"get_adapter\([^()]*\)\.(\w+_data)\b", t)) - {S}
                self.rep("P29", "own-kind", e.name, not other, f"touches {', '.join(sorted(other))} instead of {S} alone", e.fn.loc)
                A = None
                for r in rs:
                    for ev in r.ev:
                        if ev[0] == "call" and ev[1][1][2] == "get_adapter": A = A or g.render(ev[1])
                if op is None:
                    for r in rs:
                        if r.kind == "return" and (A is None or A not in g.render(r.value)): co.fail("P28", "answers-the-object", r, f"answers {g.render(r.value)[:90]}, which is not taken from the addressed adapter")
                        if r.writes(): co.fail("P28", "exactly-the-addressed", r, "a reading request changes the configuration")
                    co.done([("P28", "answers-the-object"), ("P28", "exactly-the-addressed")]); continue
                if A is None: self.rep("P28", "exactly-the-addressed", e.name, False, "the addressed adapter is not fetched", e.fn.loc); continue
                C = f"{A}.{S}"
                key = [k for k in e.keys if k not in ("project_id", "adapter_id")]
                K = key[0] if key else None
                bs = [n for n, cs in self.body(e) if {c.qual for c in cs} & kinds]
                B = bs[0] if bs else None
                if op in ("add", "update"):
                    cs = {c.qual for n, cs in self.body(e) if n == B for c in cs}
                    self.rep("P29", "body-type", e.name, cs == kinds, f"the body is read as {sorted(x.split('.')[-1] for x in cs)}, the section holds {sorted(x.split('.')[-1] for x in kinds)}", e.fn.loc)
                    if B is None: continue
                def value(r, f, effs, op=op, C=C, K=K, B=B):
                    t = g.render(peel(r.value))
                    if op == "list": return None if t == C else f"answers {t[:90]}"
                    if op == "get":
                        hit = f.has(C, K)
                        if f.lookup(r.value) == (C, K): return None
                        return None if hit and (hit[2] is not None and (g.render(hit[2]) == t and (hit[2] == r.value or hit[2][0] != "elem" or f.element(r.value) == f.element(hit[2])))) or position_item(f, C, K, r.value) else f"answers {t[:90]}, which is not the element with the addressed ID"
                    if op in ("add", "update"): return None if t == B or position_item(f, C, K, r.value) else f"answers {t[:90]}"
                def extra(r, f, effs, op=op):
                    if op in ("list", "get"): return effs
                    ups = [i for i, ev in enumerate(r.ev) if ev[0] == "call" and ev[1][1][2] == "update_adapter"]
                    last = max([i for i, ev in enumerate(r.ev) if ev[0] != "call"], default=-1)
                    if not ups or ups[-1] < last: co.fail("P28", "change-is-stored", r, "the changed adapter is not handed back to the storage")
                    for i in ups:
                        b = self.bind(r.ev[i][1]) or {}
                        if g.render(b.get("adapter", ("const", None))) != A: co.fail("P28", "change-is-stored", r, f"{g.render(b.get('adapter', ('const', None)))[:80]} is stored instead of the changed adapter")
                    for ev in r.ev:
                        if ev[0] == "call" and ev[1][1][2] not in ("get_adapter", "update_adapter", "get_project"): co.fail("P28", "exactly-the-addressed", r, f"calls {ev[1][1][2]} beside")
                    return effs
                judge(co, rs, op, C, K, B, value=value, extra=extra)
                rules = [("P27", "refused-unchanged"), ("P27", "no-needless-refusal"), ("P28", "exactly-the-addressed"), ("P28", "answers-the-object")]
                if op in ("get", "update", "delete"): rules.append(("P27", "missing-is-404"))
                if op in ("add", "update"): rules.append(("P27", "duplicate-is-conflict"))
                if op in ("add", "update", "delete"): rules.append(("P28", "change-is-stored"))
                co.done(rules)
            for need in ("list", "get", "add", "update", "delete"):
                self.rep("P29", "all-operations", f"{pre} {need}", len(ops.get(need, [])) == 1, f"{len(ops.get(need, []))} endpoints for {need}", es[0].fn.loc)

    # ---- backend
    def backend(self):
        BK = self.BK
        self_root = lambda t: t[0] == "attr" and t[1] == ("param", "self")
        def method(n):
            m = BK.find_method(n)
            if not m: self.rep("P29", "storage-signature", f"{BK.name}.{n}", False, "missing", BK.loc)
            return m
        def go(n):
            m = method(n)
            if not m: return None
            g = self.ck.graph(m, selfcls=BK); rec = _recorder(g, self_root)
            return m, g, [Run(g, st, list(st.events)) for st in paths(g, on=rec)]
        # where projects, adapters and results are kept: the collections the create operations put their object into
        DB = AD = None; results = {}
        for n, B in (("create_project", "project"), ("create_adapter", "adapter"), ("create_performance", None), ("create_post_processor", None)):
            x = go(n)
            if not x: continue
            m, g, rs = x; ps = [q for q in m.params() if q != "self"]; B = B or ps[-1]
            for r, f in facts(rs):
                for e in effects(r, f):
                    if e[3] == B:
                        if n == "create_project": DB = e[1]
                        elif n == "create_adapter": AD = e[1]
                        else: results[n[7:]] = e[1]
        if not DB or not AD or len(results) < 2:
            self.rep("P28", "exactly-the-addressed", f"{BK.name}", False, f"created objects are not kept (projects: {DB}, adapters: {AD}, results: {sorted(results)})", BK.loc); return
        P = f"{DB}[project_id]"
        self.rep("P28", "kept-per-project", "adapters", AD.startswith(P + "."), f"adapters are kept in {AD}", BK.loc)
        for k, v in results.items(): self.rep("P28", "kept-per-project", k, v.startswith(P + "."), f"kept in {v}", BK.loc)
        self.rep("P28", "kept-apart", "results", len(set(results.values()) | {AD}) == len(results) + 1, "different kinds of results share one store", BK.loc)
        out_p = [(DB, "project_id")]; out_a = out_p + [(AD, "adapter_id")]
        for noun in ("project", "adapter", "performance", "post_processor"):
            for op in ("list", "get", "add", "update", "delete"):
                n = f"{VERB[op]}_{noun}" + ("s" if op == "list" else "")
                if op == "list" and noun in results: continue
                x = go(n)
                if not x: continue
                m, g, rs = x; ps = [q for q in m.params() if q != "self"]
                co = Contract(self.ck, self.rep, f"{BK.name}.{n}", m.loc)
                C = {"project": DB, "adapter": AD}.get(noun) or results[noun]
                K = "project_id" if noun == "project" else "adapter_id"
                if op == "list": K = None
                elif op == "add" and noun in ("project", "adapter"): K = None
                B = ps[-1] if op in ("add", "update") else None
                outer = [] if noun == "project" else out_p if noun == "adapter" else out_a
                isdict = True if noun != "adapter" else False
                if noun == "project": isdict = f"{B}.ID" if B else True
                elif noun in results: isdict = "adapter_id"
                def extra(r, f, effs, noun=noun, op=op, B=B):
                    if noun != "adapter" or op not in ("update", "delete"): return effs
                    keep = []; dropped = set()
                    for e in effs:
                        if e[1] in results.values():
                            if e[0] != "drop" or e[2] != "adapter_id": co.fail("P28", "exactly-the-addressed", r, f"changes {describe([e])}")
                            elif op == "update" and same(f, "adapter_id", f"{B}.ID") is not False: co.fail("P28", "exactly-the-addressed", r, "drops the results of an adapter that keeps its ID")
                            else: dropped.add(e[1])
                        else: keep.append(e)
                    if op == "delete" or same(f, "adapter_id", f"{B}.ID") is not True:
                        for k, D in results.items():
                            if D in dropped: continue
                            gone = any((not pol and f.R(c) == D) for c, pol in r.order) or f.lacks(D, "adapter_id")
                            if not gone: co.fail("P28", "results-go-with-the-adapter", r, f"the {k} of the {'deleted' if op == 'delete' else 'renamed'} adapter stays")
                    return keep
                def value(r, f, effs, op=op, C=C, K=K, B=B, noun=noun):
                    t = g.render(peel(r.value))
                    if op == "list": return None if t in (C, f"{C}.values()") else f"answers {t[:90]}"
                    if op == "get":
                        if noun != "adapter": return None if t in (f"{C}[{K}]", f"{C}.get({K})") else f"answers {t[:90]}"
                        hit = f.has(C, K)
                        if f.lookup(r.value) == (C, K): return None
                        return None if hit and hit[2] is not None and (hit[2] == r.value or f.element(r.value) is not None and f.element(r.value) == f.element(hit[2])) or position_item(f, C, K, r.value) else f"answers {t[:90]}"
                    if op in ("add", "update"): return None if t == B or t == f"{C}[{B}.ID]" else f"answers {t[:90]}"
                judge(co, rs, op, C, K, B, isdict=isdict, outer=outer, value=value, extra=extra)
                rules = [("P27", "refused-unchanged"), ("P27", "no-needless-refusal"), ("P28", "exactly-the-addressed"), ("P28", "answers-the-object")]
                if outer or K: rules.append(("P27", "missing-is-404"))
                if op == "add" or op == "update" and noun in ("project", "adapter"): rules.append(("P27", "duplicate-is-conflict"))
                if noun == "adapter" and op in ("update", "delete"): rules.append(("P28", "results-go-with-the-adapter"))
                co.done(rules)


def position_item(f, C, K, t):
    """C[i] where i is the position of the element with the key"""
    return K is not None and t is not None and t[0] == "item" and f.R(t[1]) == C and position(f, C, t[2]) == K


def scenario(app):
    p = app.p; SD = p.cls("prodsys.models.scenario_data.ScenarioData")
    fields = {n: frozenset(c.qual for c in p12.classes_in(p, own.mod, ann)) for n, (own, (ann, v)) in SD.all_fields().items() if n != "model_config"}
    get, put = {}, {}
    for e in app.eps:
        if not e.prefix.endswith("/scenario"): continue
        g, rs = app.runs(e.fn); app.addressed(e, rs)
        co = Contract(app.ck, app.rep, e.name, e.fn.loc)
        A = next((g.render(ev[1]) for r in rs for ev in r.ev if ev[0] == "call" and ev[1][1][2] == "get_adapter"), None)
        if A is None: app.rep("P28", "exactly-the-addressed", e.name, False, "the addressed adapter is not fetched", e.fn.loc); continue
        S = A + ".scenario_data"
        bodies = app.body(e); B = bodies[0][0] if bodies else None
        bk = frozenset(c.qual for c in bodies[0][1]) if bodies else frozenset()
        segs = [s for s in e.sub.split("/") if s and not s.startswith("{")]
        ids = [k for k in e.keys if k not in ("project_id", "adapter_id")]
        def present(r, f): return next((pol for c, pol in r.order if g.render(c) == S), None) if not any(g.render(c) in (f"({S} is None)", f"(None is {S})") and not pol for c, pol in r.order) else True
        def missing(r, f): return present(r, f) is False or any(g.render(c) in (f"({S} is None)", f"(None is {S})") and pol for c, pol in r.order)
        def unsupported(r, f): return missing(r, f) or any(c[0] == "cmp" and c[1] in ("in", "not in") and peel(c[3])[0] in ("list", "tuple", "set") and pol == (c[1] == "not in") for c, pol in r.order)
        def stored_back(r, f, effs):
            keep = [x for x in effs if not (x[0] == "set" and x[1] == x[3])]
            ups = [i for i, ev in enumerate(r.ev) if ev[0] == "call" and ev[1][1][2] == "update_adapter"]
            last = max([i for i, ev in enumerate(r.ev) if ev[0] != "call"], default=-1)
            if keep and (not ups or ups[-1] < last): co.fail("P28", "change-is-stored", r, "the changed adapter is not handed back to the storage")
            for i in ups:
                b = app.bind(r.ev[i][1]) or {}
                if g.render(b.get("adapter", ("const", None))) != A: co.fail("P28", "change-is-stored", r, "another object is stored instead of the changed adapter")
            return keep
        if ids or segs[-1:] == ["objective"]:
            C = S + ".objectives"; op = {"post": "add", "put": "update", "delete": "delete"}.get(e.method)
            if op is None: continue
            K = ids[0] if ids else f"{B}.name"
            def ex(r, f, effs):
                if not present(r, f): co.fail("P27", "missing-is-404", r, "the scenario is used without having been found")
                return stored_back(r, f, effs)
            judge(co, rs, op, C, K if op != "add" else None, B, F="name", extra=ex, invalid=unsupported, value=lambda r, f, effs: None if g.render(r.value) in (S, B, A) else f"answers {g.render(r.value)[:80]}")
            co.done([("P27", "refused-unchanged"), ("P27", "no-needless-refusal"), ("P28", "exactly-the-addressed"), ("P28", "answers-the-object"), ("P28", "change-is-stored")] + ([("P27", "duplicate-is-conflict")] if op == "add" else [("P27", "missing-is-404")]))
            continue
        whole = not segs
        for r, f in facts(rs):
            effs = stored_back(r, f, effects(r, f))
            if r.kind == "raise":
                if effs: co.fail("P27", "refused-unchanged", r, f"{describe([effs[0]])} although refused")
                if r.status != 404 or not missing(r, f): co.fail("P27", "no-needless-refusal", r, f"refused with {r.status}")
                continue
            if not (whole and e.method == "put") and not present(r, f): co.fail("P27", "missing-is-404", r, "the scenario is used without having been found")
            t = g.render(r.value)
            if e.method == "get":
                if effs: co.fail("P28", "exactly-the-addressed", r, f"changes {describe(effs)}")
                if whole:
                    if t != S: co.fail("P28", "answers-the-object", r, f"answers {t[:80]}")
                elif t.startswith(S + ".") and t[len(S) + 1:] in fields: get.setdefault(t[len(S) + 1:], (e, r.loc))
                else: co.fail("P28", "answers-the-object", r, f"answers {t[:80]}")
            else:
                want = S if whole else None
                sets = [x for x in effs if x[0] == "set"]
                if len(effs) != 1 or not sets or sets[0][3] != B: co.fail("P28", "exactly-the-addressed", r, f"changes {describe(effs)} instead of one part of the scenario")
                elif whole and sets[0][1] != S: co.fail("P28", "exactly-the-addressed", r, f"changes {describe(effs)}")
                elif not whole:
                    fld = sets[0][1][len(S) + 1:] if sets[0][1].startswith(S + ".") else None
                    if fld not in fields: co.fail("P28", "exactly-the-addressed", r, f"changes {describe(effs)}")
                    else:
                        put.setdefault(fld, (e, r.loc))
                        if bk != fields[fld]:
                            co.fail("P29", "body-type", r, f"{fld} is set to a {sorted(x.split('.')[-1] for x in bk)}")
                            co.fail("P28", "exactly-the-addressed", r, f"the body, a {sorted(x.split('.')[-1] for x in bk)}, is stored as the scenario's {fld}")
                if t not in (S, B): co.fail("P28", "answers-the-object", r, f"answers {t[:80]}")
        co.done([("P27", "refused-unchanged"), ("P27", "no-needless-refusal"), ("P28", "answers-the-object"), ("P28", "exactly-the-addressed")] + ([("P28", "change-is-stored"), ("P29", "body-type")] if e.method == "put" else [("P27", "missing-is-404")]))
    for fld in sorted(fields):
        for what, m in (("read", get), ("written", put)):
            if fld not in m:
              for prop in ("P28", "P29"): app.rep(prop, "same-address", f"scenario {fld}", False, f"the scenario's {fld} cannot be {what}", SD.loc)
        if fld in get and fld in put:
            a, b = get[fld][0].path, put[fld][0].path
            for prop in ("P28", "P29"): app.rep(prop, "same-address", f"scenario {fld}", a == b, f"read under {a}, written under {b}", get[fld][0].fn.loc)
            cs = frozenset(c.qual for c in p12.classes_in(p, get[fld][0].mod, get[fld][0].model)) if get[fld][0].model is not None else fields[fld]
            own, (ann, v) = SD.all_fields()[fld]
            inner = ann.slice if isinstance(ann, ast.Subscript) and ast.unparse(ann.value).split(".")[-1] == "Optional" else ann
            lists = get[fld][0].model is None or is_list(inner) == is_list(get[fld][0].model)
            app.rep("P29", "declared-answer", get[fld][0].name, cs == fields[fld] and lists, f"answers the scenario's {fld} as {sorted(x.split('.')[-1] for x in cs)}", get[fld][0].fn.loc)


# ---------------------------------------------------------------- everything else that is reachable from a request
def app_funcs(p):
    for name, md in sorted(p.modules.items()):
        if not name.startswith("app."): continue
        for n in ast.walk(md.tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)): yield md, n


def raises_http(p):
    """names of app functions / methods that can refuse a request"""
    direct, callers = set(), {}
    for md, fn in app_funcs(p):
        for x in ast.walk(fn):
            if isinstance(x, ast.Raise) and x.exc is not None and "HTTPException" in ast.unparse(x.exc): direct.add(fn.name)
            if isinstance(x, ast.Call):
                callers.setdefault(ast.unparse(x.func).split(".")[-1], set()).add(fn.name)
    todo = list(direct)
    while todo:
        n = todo.pop()
        for c in callers.get(n, ()):
            if c not in direct: direct.add(c); todo.append(c)
    return direct


COVERS = ("HTTPException", "Exception", "BaseException", "StarletteHTTPException")


def errors_reach_the_client(app):
    p = app.p; can = raises_http(p); nexc = ntry = 0
    for md, fn in app_funcs(p):
        par = {}
        for x in ast.walk(fn):
            for c in ast.iter_child_nodes(x): par[c] = x
        for x in ast.walk(fn):
            if isinstance(x, ast.Call) and ast.unparse(x.func).split(".")[-1] == "HTTPException":
                nexc += 1; q = par.get(x)
                ok = isinstance(q, (ast.Raise, ast.Return))
                if isinstance(q, ast.Assign) and len(q.targets) == 1 and isinstance(q.targets[0], ast.Name):
                    ok = any(isinstance(r, (ast.Raise, ast.Return)) and isinstance(getattr(r, "exc", getattr(r, "value", None)), ast.Name) and getattr(r, "exc", getattr(r, "value", None)).id == q.targets[0].id for r in ast.walk(fn))
                app.rep("P27", "error-is-raised", f"{md.name}.{fn.name}", ok, f"{ast.unparse(x)[:100]} is built but not raised", f"{md.rel}:{x.lineno}")
            if isinstance(x, ast.Try):
                hs = []; reraised = False
                calls = [ast.unparse(c.func).split(".")[-1] for s in x.body for c in ast.walk(s) if isinstance(c, ast.Call)]
                risky = [c for c in calls if c in can]
                if not risky: continue
                ntry += 1
                for h in x.handlers:
                    ts = [None] if h.type is None else [ast.unparse(t).split(".")[-1] for t in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
                    if not (None in ts or any(t in COVERS for t in ts)): continue
                    if reraised: break
                    again = [s for s in ast.walk(h) if isinstance(s, ast.Raise) and (s.exc is None or isinstance(s.exc, ast.Name) and s.exc.id == h.name)]
                    if any(isinstance(s, ast.Raise) and (s.exc is None or isinstance(s.exc, ast.Name) and s.exc.id == h.name) for s in h.body): reraised = True; continue
                    ok = False
                    hc = [c for s in h.body for c in ast.walk(s) if isinstance(c, ast.Call)]
                    bc = [c for s in x.body for c in ast.walk(s) if isinstance(c, ast.Call) and ast.unparse(c.func).split(".")[-1] in risky]
                    for a in bc:
                        n = ast.unparse(a.func).split(".")[-1]
                        for b in hc:
                            m = ast.unparse(b.func).split(".")[-1]
                            if n.startswith("create_") and m == "update_" + n[7:] and [ast.unparse(z) for z in a.args] == [ast.unparse(z) for z in b.args] and {k.arg: ast.unparse(k.value) for k in a.keywords} == {k.arg: ast.unparse(k.value) for k in b.keywords}: ok = True
                    if any(isinstance(s, ast.If) and "HTTPException" in ast.unparse(s.test) and again for s in h.body): ok = True
                    app.rep("P27", "refusal-not-swallowed", f"{md.name}.{fn.name}", ok, f"a refusal raised by {', '.join(sorted(set(risky)))} is caught and answered with something else", f"{md.rel}:{h.lineno}")
                    reraised = reraised or ok
                if reraised: app.rep("P27", "refusal-not-swallowed", f"{md.name}.{fn.name}", True, "", f"{md.rel}:{x.lineno}")
    app.ck.need("refusals in the application", nexc, 20)


def missing_objects(app):
    """endpoints that are not plain element storage: nothing is answered about a project or adapter that was not looked up"""
    for e in app.eps:
        if "adapter_id" not in e.keys or e.prefix.endswith("/scenario") or e.prefix in app.sections() or app.op(e) and SINGULAR.get(app.collection(e)): continue
        g, rs = app.runs(e.fn); n = app.addressed(e, rs); bad = None
        for r in rs:
            if r.kind != "return": continue
            if any(ev[0] == "call" and {"project_id", "adapter_id"} <= set(app.bind(ev[1]) or {}) for ev in r.ev): continue
            texts = [g.render(c) for c, pol in r.order]
            reg = any(c[0] == "cmp" and c[1] in ("in", "not in") and pol == (c[1] == "in") and c[2] == ("tuple", (("param", "project_id"), ("param", "adapter_id"))) for c, pol in r.order)
            files = any(x.kind == "call" and any(all(k in g.render(r.st.close(a)) for k in ("{project_id}", "{adapter_id}")) for a in list(x.args)) for x in r.st.nodes)
            if not reg and not files: bad = r
        app.rep("P27", "missing-is-404", e.name, bad is None, "is answered without having looked up the addressed project and adapter", bad.loc if bad else e.fn.loc, bad and [f"{'' if pol else 'not '}{g.render(c)}"[:140] for c, pol in bad.order])
        for r in rs:
            w = [x for x in r.ev if x[0] != "call" and not (x[0] == "set" and x[3][0][0] == "param")]
            if w: app.rep("P28", "exactly-the-addressed", e.name, False, f"changes {g.render(w[0][1])[:80]} beside the storage", w[0][4].loc); break


def result_files(app):
    """files of results: named after project and adapter, missing ones answered with 404, solutions picked by their exact ID"""
    p = app.p; n = 0
    for md, fn in app_funcs(p):
        ps = [a.arg for a in fn.args.args]
        if not {"project_id", "adapter_id"} <= set(ps): continue
        par = {}
        for x in ast.walk(fn):
            for c in ast.iter_child_nodes(x): par[c] = x
        named = {}
        for x in ast.walk(fn):
            if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name): named[x.targets[0].id] = x.value
        def path_of(a):
            if isinstance(a, ast.Name) and a.id in named: a = named[a.id]
            if isinstance(a, (ast.JoinedStr, ast.BinOp)):
                s = ast.unparse(a)
                return a if "data/" in s else None
        for x in ast.walk(fn):
            if isinstance(x, (ast.JoinedStr,)) and "data/" in ast.unparse(x):
                ids = {y.id for y in ast.walk(x) if isinstance(y, ast.Name)}; n += 1
                app.rep("P28", "files-per-adapter", f"{md.name}.{fn.name}", {"project_id", "adapter_id"} <= ids, f"{ast.unparse(x)} does not name project and adapter", f"{md.rel}:{x.lineno}")
            if isinstance(x, ast.Call):
                f = ast.unparse(x.func)
                if f.split(".")[-1] not in ("open", "listdir", "get_pareto_solutions_from_result_files", "scandir"): continue
                if f.split(".")[-1] == "open" and any(isinstance(a, ast.Constant) and isinstance(a.value, str) and a.value[:1] in "wax" for a in x.args[1:]): continue
                if not any(path_of(a) is not None for a in x.args): continue
                q = x; ok = False
                while q in par:
                    c, q = q, par[q]
                    if isinstance(q, ast.Try) and c in q.body:
                        for h in q.handlers:
                            ts = ast.unparse(h.type) if h.type else "Exception"
                            if any(k in ts for k in ("FileNotFoundError", "OSError", "Exception", "IOError")) and any(isinstance(r, ast.Raise) and r.exc is not None and "HTTPException" in ast.unparse(r.exc) and "404" in ast.unparse(r.exc) for r in ast.walk(h)): ok = True
                    if isinstance(q, (ast.If, ast.IfExp)) and any(k in ast.unparse(q.test) for k in ("isdir", "exists", "isfile")): ok = True
                pre = [s for s in ast.walk(fn) if isinstance(s, ast.If) and any(k in ast.unparse(s.test) for k in ("isdir", "exists", "isfile")) and any(isinstance(r, ast.Raise) for r in ast.walk(s))]
                app.rep("P27", "missing-results-are-404", f"{md.name}.{fn.name}", ok or bool(pre), f"{ast.unparse(x)[:90]} fails with an internal error when there are no results", f"{md.rel}:{x.lineno}")
    app.ck.need("result file paths", n, 3)
    for md, fn in app_funcs(p):
        if "solution_id" not in [a.arg for a in fn.args.args]: continue
        for x in ast.walk(fn):
            if isinstance(x, ast.Compare) and len(x.ops) == 1 and isinstance(x.ops[0], (ast.In, ast.NotIn)) and isinstance(x.left, ast.Name) and x.left.id == "solution_id":
                app.rep("P28", "exact-solution", f"{md.name}.{fn.name}", False, f"{ast.unparse(x)} also takes the file of a solution whose ID contains the addressed one", f"{md.rel}:{x.lineno}")
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("endswith", "startswith", "find", "count", "match", "search") and any(isinstance(y, ast.Name) and y.id == "solution_id" for a in x.args for y in ast.walk(a)):
                a = x.args[0]
                ok = x.func.attr == "endswith" and isinstance(a, ast.JoinedStr) and isinstance(a.values[0], ast.Constant) and a.values[0].value.endswith("_") and isinstance(a.values[-1], ast.Constant) and a.values[-1].value.startswith(".")
                app.rep("P28", "exact-solution", f"{md.name}.{fn.name}", ok, f"{ast.unparse(x)} also takes the file of another solution", f"{md.rel}:{x.lineno}")


def registries(app):
    """module-level registries of the application are keyed by project and adapter"""
    p = app.p; n = 0
    for name, md in sorted(p.modules.items()):
        if not name.startswith("app."): continue
        regs = set()
        for st in md.tree.body:
            t = st.target if isinstance(st, ast.AnnAssign) else st.targets[0] if isinstance(st, ast.Assign) else None
            v = getattr(st, "value", None)
            if isinstance(t, ast.Name) and (isinstance(v, ast.Dict) and not v.keys or isinstance(v, ast.Call) and ast.unparse(v.func).split(".")[-1] in ("dict", "defaultdict", "OrderedDict")): regs.add(t.id)
        if not regs: continue
        shapes = {}
        def x_reg(x, regs): return next(y.id for y in ast.walk(x) if isinstance(y, ast.Name) and y.id in regs)
        for md2, fn in app_funcs(p):
            env = {}
            for x in ast.walk(fn):
                if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name): env[x.targets[0].id] = x.value
            has_params = {"project_id", "adapter_id"} <= {a.arg for a in fn.args.args}
            loads = {y for y in ast.walk(fn) if isinstance(y, ast.Name) and y.id in regs}
            for x in ast.walk(fn):
                key = None
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("len", "bool"): loads -= set(x.args)
                if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id in regs: key = x.slice
                elif isinstance(x, ast.Compare) and isinstance(x.ops[0], (ast.In, ast.NotIn)) and isinstance(x.comparators[0], ast.Name) and x.comparators[0].id in regs: key = x.left
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id in regs and x.args: key = x.args[0]
                if key is None: continue
                loads -= set(ast.walk(x))
                if isinstance(key, ast.Name) and key.id in env: key = env[key.id]
                seq = [y.id for y in ast.walk(key) if isinstance(y, ast.Name) and y.id in ("project_id", "adapter_id")]
                n += 1; ids = set(seq)
                ok = {"project_id", "adapter_id"} <= ids if has_params else True
                if has_params and ok: shapes.setdefault(x_reg(x, regs), []).append((tuple(seq), type(key).__name__, ast.unparse(key), f"{md2.rel}:{x.lineno}", f"{md2.name}.{fn.name}"))
                app.rep("P28", "registry-per-adapter", f"{md2.name}.{fn.name}", ok, f"the registry is keyed by {ast.unparse(key)}: adapters of different projects share an entry", f"{md2.rel}:{x.lineno}")
            if has_params:
                for y in sorted(loads, key=lambda y: y.lineno): app.rep("P28", "registry-per-adapter", f"{md2.name}.{fn.name}", False, f"{y.id} is used without the addressed project and adapter: another adapter's entry is taken", f"{md2.rel}:{y.lineno}")
        for reg, uses in shapes.items():
            first = uses[0]
            for u in uses[1:]:
                differs = u[0] != first[0] or u[1] != first[1] and "Call" not in (u[1], first[1])
                app.rep("P28", "one-key-per-adapter", f"{reg} in {u[4]}", not differs, f"keyed by {u[2]} here and by {first[2]} in {first[4]}", u[3])
    app.ck.need("registry accesses", n)


def results_of_runs(app):
    """results of a simulation are stored under the adapter that was simulated, nothing else is touched"""
    p = app.p; n = 0
    for name, md in sorted(p.modules.items()):
        if name not in ("app.dependencies",) and not name.startswith("app.routers"): continue
        for fn in [x for x in md.tree.body if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef))]:
            if not any(isinstance(x, ast.Call) and ast.unparse(x.func).split(".")[-1] == "Runner" for x in ast.walk(fn)): continue
            f = handler(md, fn); n += 1; con = f.qual.split("#")[0]
            g, rs = app.runs(f, exc=True)
            bad = {}
            for r in rs:
                if r.kind != "return": continue
                refused = {a.id for a, b in zip(r.st.nodes, r.st.nodes[1:]) if a.kind == "call" and b.kind == "handler"}       # calls that raised
                r.ev = [ev for ev in r.ev if ev[-1].id not in refused]
                order = [x for x in r.st.nodes]
                closed = lambda t: r.st.close(t)
                handle = {}
                for ev in r.ev:
                    if ev[0] != "call": continue
                    b = app.bind(ev[1]) or {}; m = ev[1][1][2]
                    if m == "get_adapter": handle[g.render(ev[1])] = (g.render(b["project_id"]), g.render(b["adapter_id"]))
                created = {}
                for x in order:
                    if x.kind == "store" and x.attr == "ID": created[g.render(closed(x.base))] = g.render(closed(x.value))
                for ev in r.ev:
                    if ev[0] == "call" and ev[1][1][2] == "create_adapter":
                        b = app.bind(ev[1]) or {}; X = g.render(b.get("adapter", ("const", None)))
                        handle[X] = (g.render(b["project_id"]), created.get(X, X + ".ID"))
                sim = {}
                for x in order:
                    if x.kind == "call" and not x.get("inlined"):
                        t = r.st.calls.get(x.id)
                        if t and fname(t) == "Runner":
                            kw = dict(t[3]); a = kw.get("adapter", t[2][0] if t[2] else None)
                            if a is not None and g.render(a) in handle: sim[g.render(t)] = handle[g.render(a)]
                            elif a is not None: bad["simulated-adapter"] = (x.loc, f"{g.render(a)[:80]} is simulated, which is not the adapter kept in the storage")
                stored_kinds = set()
                for rt in sim:
                    done = [r.st.calls[x.id] for x in order if x.kind == "call" and x.id in r.st.calls and r.st.calls[x.id][0] == "pcall" and fname(r.st.calls[x.id]) == "run" and r.st.calls[x.id][1][0] == "attr" and g.render(r.st.calls[x.id][1][1]) == rt]
                    if not done: bad["results-of-a-run"] = (r.loc, "results are stored although the simulation was not run")
                    elif "run_length" in f.params() and not any("run_length" in g.render(a) for t in done for a in list(t[2]) + [v for k, v in t[3]]): bad["results-of-a-run"] = (r.loc, "the simulation does not run for the asked time")
                for ev in r.ev:
                    if ev[0] != "call": continue
                    m = ev[1][1][2]; b = app.bind(ev[1]) or {}
                    if m.startswith("delete_"): bad["only-own-results"] = (ev[2].loc, f"{g.render(ev[1])[:100]} removes something")
                    if m.split("_", 1)[0] in ("create", "update") and m.split("_", 1)[1] in ("performance", "post_processor"):
                        kind = m.split("_", 1)[1]; v = b.get(kind)
                        want = None
                        for rt, w in sim.items():
                            if v is not None and rt in g.render(v): want = w
                        got = (g.render(b.get("project_id", ("const", None))), g.render(b.get("adapter_id", ("const", None))))
                        if want is None: bad["only-own-results"] = (ev[2].loc, f"{g.render(v)[:80] if v else '?'} is stored, which does not come from the simulation")
                        elif want != got: bad["only-own-results"] = (ev[2].loc, f"the {kind} of {want[1]} is stored under {got[1]}")
                        else: stored_kinds.add(kind)
                    if m in ("update_project", "create_project", "update_adapter"): bad["only-own-results"] = (ev[2].loc, f"{m} beside the results")
                for k in ("performance", "post_processor"):
                    if sim and k not in stored_kinds: bad["results-are-stored"] = (r.loc, f"the {k} of the simulation is not stored")
                for ev in r.ev:
                    if ev[0] == "call": continue
                    if ev[0] == "set" and ev[3][0][0] == "param": continue
                    bad["only-own-results"] = (ev[4].loc, f"{g.render(ev[1])[:80]}.{ev[2]} is changed beside the storage")
                for x in order:
                    if x.kind == "store":
                        v = closed(x.value); bse = g.render(closed(x.base))
                        if bse in handle and v[0] in ("attr", "item", "elem") and stored(v, app.backend_call): bad["no-shared-parts"] = (x.loc, f"{g.render(v)[:80]} becomes part of another adapter: changing one changes the other")
            for rule in ("only-own-results", "results-of-a-run", "results-are-stored", "no-shared-parts", "simulated-adapter"):
                app.rep("P28", rule, con, rule not in bad, bad.get(rule, ("", ""))[1], bad.get(rule, (f.loc,))[0])
    app.ck.need("functions that simulate", n)


def performance(app):
    for e in app.eps:
        if not e.prefix.endswith("/performance"): continue
        g, rs = app.runs(e.fn); last = [s for s in e.sub.split("/") if s]
        ids = [k for k in e.keys if k not in ("project_id", "adapter_id")]
        for r in rs:
            if r.kind != "return": continue
            t = g.render(r.value); P = next((g.render(ev[1]) for ev in r.ev if ev[0] == "call" and ev[1][1][2] == "get_performance"), None)
            if P is None: app.rep("P28", "answers-the-object", e.name, False, f"answers {t[:80]}", r.loc); continue
            if ids:
                f = Facts(r, set(), "name"); c = f.comp(peel(r.value))
                ok = c is not None and c[0] == P + ".kpis" and c[1] == (ids[0], True) and c[3] is not None and f.element(c[3])
                if not ok: ok = list_by_loop(f, r, P + ".kpis", ids[0])
                app.rep("P28", "answers-the-object", e.name, bool(ok), f"answers {t[:110]} instead of the indicators of the asked kind", r.loc)
            else: app.rep("P28", "answers-the-object", e.name, P in t, f"answers {t[:80]}, which is not taken from the addressed adapter's performance", r.loc)


def list_by_loop(f, r, C, K):
    v = r.value
    return v is not None and v[0] in ("list",) and all(f.element(x) and f.element(x)[0] == C for x in v[1] if x[0] != "star")


# ---------------------------------------------------------------- endpoints, signatures, declared answers
def call_fits(fn, call, bound_self):
    a = fn.node.args; ps = [x.arg for x in a.posonlyargs + a.args]
    if bound_self and ps and ps[0] == "self": ps = ps[1:]
    if any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords): return None
    if len(call.args) > len(ps) and not a.vararg: return f"{len(call.args)} arguments for {len(ps)} parameters"
    given = ps[:len(call.args)] + [k.arg for k in call.keywords]
    for k in call.keywords:
        if k.arg not in ps and k.arg not in [x.arg for x in a.kwonlyargs] and not a.kwarg: return f"no parameter {k.arg}"
        if k.arg in ps[:len(call.args)]: return f"{k.arg} given twice"
    need = ps[:len(ps) - len(a.defaults)] + [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    miss = [x for x in need if x not in given]
    if miss: return f"{', '.join(miss)} missing"
    for q, x in list(zip(ps, call.args)) + [(k.arg, k.value) for k in call.keywords]:
        if isinstance(x, ast.Name) and x.id != q and x.id in ps and x.id.endswith("_id") : return f"{x.id} is passed as {q}"
    return None


def signatures(app):
    p = app.p; n = 0
    for name, md in sorted(p.modules.items()):
        if not name.startswith("app."): continue
        for fn in [x for x in ast.walk(md.tree) if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef))]:
            bad = None; own = 0; shadow = {a.arg for a in fn.args.args}
            for x in ast.walk(fn):
                if not isinstance(x, ast.Call): continue
                tgt = None; bs = False
                if isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == "prodsys_backend":
                    tgt = app.BK.find_method(x.func.attr); bs = True
                    if tgt is None: bad = (x, f"the storage has no {x.func.attr}"); break
                elif isinstance(x.func, (ast.Name, ast.Attribute)):
                    if isinstance(x.func, ast.Name) and x.func.id in shadow: continue
                    try: r = md.resolve_expr(x.func)
                    except Exception: r = None
                    if r and r[0] == "func" and r[1].mod.name.startswith(("app.", "prodsys.")): tgt = r[1]
                    elif isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name):
                        m = md.resolve_expr(x.func.value)
                        if m and m[0] == "mod" and m[1] in p.modules and not r: bad = (x, f"{m[1]} has no {x.func.attr}"); break
                if tgt is None: continue
                own += 1; why = call_fits(tgt, x, bs)
                if why: bad = (x, f"{ast.unparse(x)[:90]}: {why}"); break
            if own or bad:
                n += own
                app.rep("P29", "calls-fit", f"{name}.{fn.name}", bad is None, bad[1] if bad else "", f"{md.rel}:{(bad[0] if bad else fn).lineno}")
    app.ck.need("internal calls of the application", n, 80)
    for ci in p.all_classes():
        if ci.mod.name.startswith("app.backends") and ci is not app.BK and any("Protocol" in b for b in ci.base_names()):
            asked = {x.attr for md, fn in app_funcs(p) for x in ast.walk(fn) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "prodsys_backend"}
            for m, f in ci.methods.items():
                if m not in asked: continue
                g = app.BK.find_method(m)
                app.rep("P29", "storage-signature", f"{app.BK.name}.{m}", g is not None and g.params() == f.params(), f"{app.BK.name}.{m}({', '.join(g.params()) if g else 'missing'}) differs from the interface ({', '.join(f.params())})", (g or f).loc)


def parameters(app):
    """what the client sends has an effect on the answer or on the storage (a parameter that only serves to refuse has none)"""
    p = app.p; own = {(e.mod.name, e.fn.node) for e in app.eps}; n = 0
    for md, fn in app_funcs(p):
        simulates = any(isinstance(x, ast.Call) and ast.unparse(x.func).split(".")[-1] == "Runner" for x in ast.walk(fn))
        if not ((md.name, fn) in own or simulates or md.name.startswith("app.dao")): continue
        out = set()
        for x in ast.walk(fn):
            if isinstance(x, ast.Raise): out |= set(ast.walk(x))
            if isinstance(x, ast.If) and not x.orelse and all(isinstance(b, ast.Raise) for b in x.body): out |= set(ast.walk(x.test))
        used = {x.id for b in fn.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x not in out}
        for a in fn.args.args + fn.args.kwonlyargs:
            if a.arg == "self" or a.annotation is not None and ast.unparse(a.annotation).split(".")[-1] in ("Request", "Response"): continue
            n += 1
            for prop in ("P28", "P29"): app.rep(prop, "parameters-count", f"{md.name}.{fn.name}({a.arg})", a.arg in used, f"{a.arg} has no effect on the answer", f"{md.rel}:{fn.lineno}")
    app.ck.need("parameters", n, 100)


def is_list(a): return isinstance(a, ast.Subscript) and ast.unparse(a.value).split(".")[-1] in ("List", "list", "Sequence", "Tuple", "tuple", "Set", "Iterable")
def is_dict(a): return isinstance(a, ast.Subscript) and ast.unparse(a.value).split(".")[-1] in ("Dict", "dict", "Mapping")


def routes(app):
    p = app.p
    for e in app.eps:
        miss = [k for k in e.keys if k not in e.params]
        app.rep("P29", "path-parameters", e.name, not miss, f"{', '.join(miss)} of the path is no parameter of {e.fn.name.split('#')[0]}", e.fn.loc)
    # order of routes
    root = os.path.join(p.root, "prodsys_api.py") if hasattr(p, "root") else None
    order = []
    if root and os.path.exists(root):
        tree = ast.parse(open(root, encoding="utf-8").read())
        for x in ast.walk(tree):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "include_router" and x.args: order.append((x.lineno, ast.unparse(x.args[0]).split(".")[0]))
        order = [n for _, n in sorted(order)]
        mods = sorted({e.mod.name.split(".")[-1] for e in app.eps})
        for m in mods: app.rep("P29", "served", m, m in order, f"the router of {m} is not part of the application", "prodsys_api.py:1")
    rank = {n: i for i, n in reversed(list(enumerate(order)))}
    es = sorted(app.eps, key=lambda e: (rank.get(e.mod.name.split(".")[-1], 99), e.fn.node.lineno))
    for i, b in enumerate(es):
        hit = None
        for a in es[:i]:
            if a.method != b.method: continue
            x, y = a.path.split("/"), b.path.split("/")
            if len(x) != len(y): continue
            if all(u == v or u.startswith("{") for u, v in zip(x, y)): hit = a; break
        app.rep("P29", "not-shadowed", b.name, hit is None, f"is answered by {hit.fn.qual if hit else ''} ({hit.path if hit else ''}), which is declared earlier", b.fn.loc)


def declared(app):
    """the declared answer fits the value"""
    p = app.p
    secs = app.sections()
    for e in app.eps:
        m = e.model if e.model is not None else e.fn.node.returns
        op = app.op(e); noun = SINGULAR.get(app.collection(e))
        if m is None: continue
        cs = {c.qual for c in p12.classes_in(p, e.mod, m)}
        if e.prefix in secs and op:
            S, kinds = app.section_field(secs[e.prefix])
            if op == "delete": app.rep("P29", "declared-answer", e.name, ast.unparse(m) == "str", f"declares {ast.unparse(m)}", e.fn.loc); continue
            ok = cs == set(kinds) and is_list(m) == (op == "list") and not is_dict(m)
            app.rep("P29", "declared-answer", e.name, ok, f"declares {ast.unparse(m)} for {'the list of elements' if op == 'list' else 'one element'} of {S} ({', '.join(sorted(k.split('.')[-1] for k in kinds))})", e.fn.loc)
        elif noun and op:
            if op == "delete": app.rep("P29", "declared-answer", e.name, ast.unparse(m) == "str", f"declares {ast.unparse(m)}", e.fn.loc); continue
            want = "Project" if noun == "project" else "JsonProductionSystemAdapter"
            ok = {c.split(".")[-1] for c in cs} == {want} and is_list(m) == (op == "list") and not is_dict(m)
            app.rep("P29", "declared-answer", e.name, ok, f"declares {ast.unparse(m)}", e.fn.loc)
        else:
            # by the value that is returned
            g, rs = app.runs(e.fn); bad = None
            for r in rs:
                if r.kind != "return" or r.value is None: continue
                v = r.value
                if v[0] in ("fstr",) or v[0] == "const" and isinstance(v[1], str): ok = "str" in ast.unparse(m)
                elif v[0] == "const" and v[1] is None: ok = "None" in ast.unparse(m) or "Optional" in ast.unparse(m)
                elif v[0] in ("list", "comp") and not (v[0] == "comp" and v[1] == "dict"): ok = is_list(m)
                elif v[0] == "dict": ok = not is_list(m)
                else: ok = True
                if not ok: bad = (r, g.render(v)[:60])
            app.rep("P29", "declared-answer", e.name, bad is None, f"declares {ast.unparse(m)} but answers {bad[1] if bad else ''}", bad[0].loc if bad else e.fn.loc)


def plots(app):
    p = app.p
    for e in app.eps:
        if not e.prefix.endswith("/plots"): continue
        g, rs = app.runs(e.fn); seg = e.sub.strip("/"); bad = None; seen = 0
        for r in rs:
            if r.kind != "return": continue
            for x in r.st.nodes:
                if x.kind != "call" or x.get("inlined"): continue
                t = r.st.calls.get(x.id)
                if not t or not fname(t).startswith("plot_"): continue
                seen += 1; kw = dict(t[3]); pp = kw.get("post_processor", t[2][0] if t[2] else None)
                f = next((c for c in x.cands), None)
                if pp is None or not app.backend_call(pp) or pp[1][2] != "get_post_processor": bad = (x.loc, f"{fname(t)} is drawn from {g.render(pp)[:60] if pp else 'nothing'}")
                if kw.get("return_html") != ("const", True): bad = (x.loc, f"{fname(t)} is not asked for its page")
                if seg not in fname(t): bad = (x.loc, f"{e.sub} is answered with {fname(t)}")
                for q, v in kw.items():
                    if v[0] == "param" and v[1] != q: bad = (x.loc, f"{v[1]} is passed as {q}")
                for q in e.params:
                    if q not in e.keys and not any(v == ("param", q) for v in list(kw.values()) + list(t[2])): bad = (x.loc, f"the parameter {q} is not used")
                if g.render(t) not in g.render(r.value): bad = (r.loc, f"answers {g.render(r.value)[:80]} instead of the page")
        if not seen: bad = (e.fn.loc, "no plot is drawn")
        app.rep("P29", "own-plot", e.name, bad is None, bad[1] if bad else "", bad[0] if bad else e.fn.loc)


def analyse(ck, pid):
    def rep(prop, rule, con, ok, msg="", loc="", path=None):
        if prop == pid: ck.ob(rule, con, ok, msg, loc, path)
    app = App(ck, rep)
    if pid in ("P27", "P28"):
        for e in app.eps: app.passthrough(e)
        app.elements(); app.backend(); scenario(app); missing_objects(app); result_files(app)
        if pid == "P27": errors_reach_the_client(app)
        else: registries(app); results_of_runs(app); performance(app); parameters(app)
    else:
        for e in app.eps: app.passthrough(e)
        app.elements(); scenario(app); app.backend(); signatures(app); routes(app); declared(app); plots(app); parameters(app)
