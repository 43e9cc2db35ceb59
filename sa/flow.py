"""Inlined control-flow graphs with canonical conditions, reaching definitions and dominance."""
from __future__ import annotations
import ast, builtins
from .index import FuncInfo, ClassInfo, dotted, classes_in, has_yield

MAXN = 12000
DEFAULT_STOP = {"debug_logging"}


class Node:
    __slots__ = ("id", "kind", "ast", "ctx", "succ", "pred", "d")

    def __init__(self, id, kind, astn, ctx, d):
        self.id = id; self.kind = kind; self.ast = astn; self.ctx = ctx
        self.succ = []; self.pred = []; self.d = d

    def __getattr__(self, k):
        try: return self.d[k]
        except KeyError: raise AttributeError(k)

    def get(self, k, default=None): return self.d.get(k, default)

    @property
    def loc(self):
        ln = getattr(self.ast, "lineno", None)
        return f"{self.ctx.mod.rel}:{ln}" if ln else self.ctx.mod.rel

    @property
    def where(self):
        c = self.ctx
        while c.kind == "comp" and c.closure: c = c.closure
        return c.fn.short if c.fn else c.mod.rel

    def __repr__(self): return f"<{self.id}:{self.kind} {self.loc}>"


def typed(t):
    """a class is known somewhere in the type"""
    return any(k[0] == "C" or (len(k) > 1 and isinstance(k[1], frozenset) and typed(k[1])) or (len(k) > 2 and isinstance(k[2], frozenset) and typed(k[2])) for k in t)


class Ctx:
    def __init__(self, id, fn, mod, selfcls=None, closure=None, kind="func"):
        self.id = id; self.fn = fn; self.mod = mod; self.selfcls = selfcls; self.closure = closure
        self.types = {}; self.own = set(); self.rtypes = {}; self.kind = kind; self.localfuncs = {}; self.boolsub = {}; self.condonly = set()
        self.depth = 0; self.stack = (); self.yield_lines = []


def assigned_names(node):
    out = set()

    def tgt(t):
        if isinstance(t, ast.Name): out.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts: tgt(x)
        elif isinstance(t, ast.Starred): tgt(t.value)

    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.ClassDef): continue          # indexed like a class of the module
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                out.add(c.name); continue
            if isinstance(c, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                continue
            if isinstance(c, ast.Assign):
                for t in c.targets: tgt(t)
            elif isinstance(c, (ast.AnnAssign, ast.AugAssign)): tgt(c.target)
            elif isinstance(c, (ast.For, ast.AsyncFor)): tgt(c.target)
            elif isinstance(c, ast.NamedExpr): tgt(c.target)
            elif isinstance(c, ast.withitem) and c.optional_vars is not None: tgt(c.optional_vars)
            elif isinstance(c, ast.ExceptHandler) and c.name: out.add(c.name)
            walk(c)
    walk(node)
    return out


OPN = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
       ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>", ast.MatMult: "@"}
CMPN = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is",
        ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}


def _reads(t, tg):
    """does the term read the variable / attribute this target writes?"""
    if isinstance(tg, (ast.Tuple, ast.List)): return any(_reads(t, x) for x in tg.elts)
    if isinstance(tg, ast.Starred): return _reads(t, tg.value)
    if not isinstance(t, tuple): return False
    if len(t) == 3 and t[0] == "var" and isinstance(tg, ast.Name) and t[2] == tg.id: return True
    if len(t) == 3 and t[0] == "attr" and isinstance(tg, ast.Attribute) and t[2] == tg.attr: return True
    if t and t[0] == "item" and isinstance(tg, ast.Subscript): return True
    return any(_reads(x, tg) for x in t)


class Graph:
    """Inlined CFG of one entry function."""

    def __init__(self, project, fn: FuncInfo, stop=(), inline=None, selfcls=None, maxdepth=10, param_types=None, mode="value"):
        self.p = project; self.fn = fn; self.nodes = []; self.cur = []; self.frames = []; self.ctxs = []
        self.stop = set(stop) | DEFAULT_STOP; self.inline_pred = inline; self.maxdepth = maxdepth
        self.comps = {}; self.lams = {}
        c = self._ctx(fn, fn.mod, selfcls or fn.cls)
        self.entry = self._emit("entry", fn.node, c)
        self._prep(c, fn.node)
        for a in fn.node.args.posonlyargs + fn.node.args.args + fn.node.args.kwonlyargs:
            c.own.add(a.arg)
            if a.annotation is not None: c.types[a.arg] = self.p.ann_type(a.annotation, fn.mod)
            if param_types and a.arg in param_types: c.types[a.arg] = param_types[a.arg]
            self._assign(a.arg, ("param", a.arg), a, c)
        for a in (fn.node.args.vararg, fn.node.args.kwarg):
            if a: c.own.add(a.arg); self._assign(a.arg, ("param", a.arg), a, c)
        if fn.cls and not fn.is_static and fn.params():
            c.types[fn.params()[0]] = frozenset([("C", selfcls or fn.cls)])
        self.rexit_edges = []
        fr = {"k": "func", "rets": [], "mode": mode, "ctx": c, "t": [], "f": []}
        self.frames.append(fr)
        self._stmts(fn.node.body, c)
        if mode == "cond":
            fr["f"] += self.cur
            self.cur = fr["t"]; self.texit = self._emit("nop", fn.node, c, what="true-exit"); ends = list(self.cur)
            self.cur = fr["f"]; self.fexit = self._emit("nop", fn.node, c, what="false-exit"); ends += self.cur
        else:
            if self.cur: self._assign("$ret", ("const", None), fn.node, c)
            ends = self.cur + fr["rets"]
        self.frames.pop()
        self.cur = ends
        self.exit = self._emit("exit", fn.node, c)
        self.cur = self.rexit_edges
        self.rexit = self._emit("rexit", fn.node, c)
        self.root = c
        self._dom = None; self._rdc = {}

    # ---- construction helpers ---------------------------------------------
    def _ctx(self, fn, mod, selfcls=None, closure=None, kind="func"):
        c = Ctx(len(self.ctxs), fn, mod, selfcls, closure, kind); self.ctxs.append(c)
        if closure is not None:
            c.depth = closure.depth; c.stack = closure.stack
        return c

    def _prep(self, c, node):
        c.own |= assigned_names(node)
        counts = {}; vals = {}
        for n in ast.walk(node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name):
                            counts[x.id] = counts.get(x.id, 0) + 1
                            if t is x: vals[x.id] = (n.value, n.lineno)
            elif isinstance(n, ast.AnnAssign) and n.value is not None and isinstance(n.target, ast.Name):
                counts[n.target.id] = counts.get(n.target.id, 0) + 1; vals[n.target.id] = (n.value, n.lineno)
            elif isinstance(n, (ast.AugAssign, ast.For, ast.comprehension, ast.NamedExpr)):
                for x in ast.walk(n.target):
                    if isinstance(x, ast.Name): counts[x.id] = counts.get(x.id, 0) + 2
            elif isinstance(n, (ast.Yield, ast.YieldFrom)): c.yield_lines.append(n.lineno)
        for k, (v, ln) in vals.items():
            if counts.get(k) == 1 and self._boolish(v): c.boolsub[k] = (v, ln)
        if c.boolsub:
            condpos = set()
            def mark(e):
                if isinstance(e, ast.BoolOp):
                    for x in e.values: mark(x)
                elif isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not): mark(e.operand)
                elif isinstance(e, ast.Name): condpos.add(id(e))
            for n in ast.walk(node):
                if isinstance(n, (ast.If, ast.While, ast.IfExp, ast.Assert)): mark(n.test)
                elif isinstance(n, ast.comprehension):
                    for x in n.ifs: mark(x)
            for k, (v, ln) in c.boolsub.items():
                uses = [n for n in ast.walk(node) if isinstance(n, ast.Name) and n.id == k and isinstance(n.ctx, ast.Load)]
                if uses and all(id(u) in condpos and u.lineno > ln and not any(ln <= y <= u.lineno for y in c.yield_lines) for u in uses): c.condonly.add(k)

    def _boolish(self, v):
        if isinstance(v, (ast.Compare, ast.BoolOp)): return True
        if isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.Not): return True
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("any", "all", "isinstance", "bool", "hasattr"): return True
        return False

    def _emit(self, kind, astn, ctx, **d):
        n = Node(len(self.nodes), kind, astn, ctx, d)
        self.nodes.append(n)
        for e in self.cur:
            self._edge(e[0], n.id, e[1])
        self.cur = [(n.id, None)]
        if kind in ("call", "yield") or (kind == "nop" and d.get("mayraise")):
            for fr in reversed(self.frames):
                if "exc" in fr:
                    fr["exc"].append((n.id, "exc", None)); break
        return n

    def _edge(self, a, b, label):
        if (b, label) not in self.nodes[a].succ:
            self.nodes[a].succ.append((b, label)); self.nodes[b].pred.append((a, label))

    def _assign(self, name, value, astn, ctx):
        return self._emit("assign", astn, ctx, key=(ctx.id, name), value=value)

    def _branch(self, term, astn, ctx):
        n = self._emit("branch", astn, ctx, term=term)
        self.cur = [(n.id, True)]
        t = self._emit("edge", astn, ctx, of=n.id, label=True)
        self.cur = [(n.id, False)]
        f = self._emit("edge", astn, ctx, of=n.id, label=False)
        self.cur = []
        return [(t.id, None)], [(f.id, None)]

    # ---- statements ----------------------------------------------------------
    def _stmts(self, body, c):
        i = 0
        while i < len(body):
            st = body[i]
            # x = env.process(call) ; yield x   ==> treat as directly yielded process
            if (i + 1 < len(body) and isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name)
                    and self._is_env_process(st.value) and self._yielded_name(body[i + 1]) == st.targets[0].id):
                nm = st.targets[0].id
                val = self._expr(ast.copy_location(ast.Yield(value=st.value), st.value), c)
                nxt = body[i + 1]
                if isinstance(nxt, ast.Assign):
                    for t in nxt.targets: self._bind(t, val, nxt, c)
                else: self._assign(nm, val, st, c)
                i += 2; continue
            self._stmt(st, c); i += 1

    def _is_env_process(self, v):
        return isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == "process" and v.args and isinstance(v.args[0], ast.Call)

    def _yielded_name(self, st):
        v = st.value if isinstance(st, (ast.Expr, ast.Assign)) else None
        if isinstance(v, ast.Yield) and isinstance(v.value, ast.Name): return v.value.id
        return None

    def _stmt(self, st, c):
        m = getattr(self, "_s_" + type(st).__name__, None)
        if m: m(st, c)
        else: self._emit("nop", st, c)

    def _s_Pass(self, st, c): pass
    def _s_Import(self, st, c): pass
    def _s_ImportFrom(self, st, c): pass
    def _s_Global(self, st, c): pass
    def _s_Nonlocal(self, st, c): pass

    def _is_log(self, v):
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Name) and v.func.attr in ("debug", "info", "warning", "error", "exception", "critical", "log"):
            return v.func.value.id in ("logger", "logging", "log", "LOGGER")
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("debug_logging", "print"): return True
        return False

    def _s_Expr(self, st, c):
        if isinstance(st.value, ast.Constant): return
        if self._is_log(st.value):
            # arguments of log calls matter only where they have an effect
            for x in ast.walk(st.value):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("get_next_time", "succeed", "pop", "append", "remove", "interrupt", "put", "get", "reserve", "unreserve", "choice", "random") and not (x.func.attr == "get" and not x.args):
                    v = self._expr(x, c); self._emit("expr", st, c, value=v)
            return
        v = self._expr(st.value, c)
        self._emit("expr", st, c, value=v)

    def _s_Assign(self, st, c):
        if len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and st.targets[0].id in c.condonly:
            self._emit("nop", st, c, what="cond"); return       # evaluated where it is tested
        v = self._expr(st.value, c)
        t = self.type_of(st.value, c)
        for tg in st.targets: self._bind(tg, v, st, c, t)

    def _s_AnnAssign(self, st, c):
        if isinstance(st.target, ast.Name):
            c.types[st.target.id] = self.p.ann_type(st.annotation, c.mod)
        if st.value is not None:
            v = self._expr(st.value, c)
            t = self.type_of(st.value, c) or self.p.ann_type(st.annotation, c.mod)
            self._bind(st.target, v, st, c, t)

    def _s_AugAssign(self, st, c):
        load = self._expr(self._as_load(st.target), c)
        v = self._expr(st.value, c)
        op = OPN.get(type(st.op), "?")
        self._bind(st.target, ("bin", op, load, v), st, c, None, aug=(op, v))

    def _as_load(self, t):
        t2 = ast.parse(ast.unparse(t), mode="eval").body
        return ast.copy_location(t2, t)

    def _bind(self, tg, v, st, c, t=None, aug=None):
        if isinstance(tg, ast.Name):
            if t and tg.id not in c.types: c.types[tg.id] = t
            elif t and tg.id in c.types: c.types[tg.id] = c.types[tg.id] if c.types[tg.id] else t
            cc = self._owner(tg.id, c) or c
            n = self._assign(tg.id, v, st, cc)
            n.d["aug"] = aug
            n.ctx = c
        elif isinstance(tg, ast.Attribute):
            b = self._expr(tg.value, c)
            self._emit("store", st, c, base=b, attr=tg.attr, value=v, aug=aug, basetype=self.type_of(tg.value, c))
        elif isinstance(tg, ast.Subscript):
            b = self._expr(tg.value, c); ix = self._expr(tg.slice, c)
            self._emit("substore", st, c, base=b, index=ix, value=v, aug=aug)
        elif isinstance(tg, (ast.Tuple, ast.List)):
            if v[0] in ("tuple", "list") and len(v[1]) == len(tg.elts):
                # simultaneous assignment: a value that an earlier target changes is taken first
                vals = list(v[1]); done = []
                for i, x in enumerate(tg.elts):
                    if any(_reads(vals[i], y) for y in done):
                        k = f"$swap{st.lineno}_{i}"
                        self._assign(k, vals[i], st, c); vals[i] = ("var", c.id, k)
                    done.append(x)
                # temporaries must precede the first target, so they are emitted before any binding
                v = (v[0], tuple(vals))
            for i, x in enumerate(tg.elts):
                if v[0] in ("tuple", "list") and len(v[1]) == len(tg.elts): vv = v[1][i]
                else: vv = ("unpack", v, i)
                tt = None
                if t:
                    for k in t:
                        if k[0] == "T" and i < len(k[1]): tt = k[1][i]
                self._bind(x, vv, st, c, tt)
        elif isinstance(tg, ast.Starred): self._bind(tg.value, v, st, c)

    def _s_Delete(self, st, c):
        for t in st.targets:
            if isinstance(t, ast.Subscript):
                b = self._expr(t.value, c); ix = self._expr(t.slice, c)
                self._emit("del", st, c, base=b, index=ix)
            else: self._emit("nop", st, c)

    def _s_Return(self, st, c):
        fr = next(f for f in reversed(self.frames) if f["k"] == "func")
        if fr["mode"] == "cond":
            if st.value is None: t, f = [], self.cur
            else: t, f = self._cond(st.value, c)
            for lst, e in ((fr["t"], t), (fr["f"], f)):
                if e:
                    self.cur = e; self._unwind(fr); lst += self.cur
            self.cur = []
            return
        v = self._expr(st.value, c) if st.value is not None else ("const", None)
        self._unwind(fr)
        fr["rtype"] = fr.get("rtype", frozenset()) | (self.type_of(st.value, c) if st.value is not None else frozenset())
        n = self._assign("$ret", v, st, fr["ctx"])
        n.d["isreturn"] = True
        fr["rets"] += self.cur
        self.cur = []

    def _unwind(self, upto):
        saved = list(self.frames)
        while self.frames and self.frames[-1] is not upto:
            f = self.frames.pop()
            if f["k"] == "finally" and self.cur: self._stmts(f["body"], f["ctx"])
            elif f["k"] == "with" and self.cur: self._emit("withexit", f["ast"], f["ctx"], term=f["term"])
        self.frames[:] = saved

    def _s_If(self, st, c):
        t, f = self._cond(st.test, c)
        self.cur = t; self._stmts(st.body, c); e1 = self.cur
        self.cur = f; self._stmts(st.orelse, c)
        self.cur = self.cur + e1

    def _s_While(self, st, c):
        h = self._emit("loophead", st, c, iter=None)
        t, f = self._cond(st.test, c)
        fr = {"k": "loop", "brk": [], "cont": []}
        self.frames.append(fr)
        self.cur = t; self._stmts(st.body, c)
        self.frames.pop()
        for e in self.cur + fr["cont"]: self._edge(e[0], h.id, e[1])
        self.cur = f
        if st.orelse: self._stmts(st.orelse, c)
        self.cur = self.cur + fr["brk"]

    def _s_For(self, st, c):
        if isinstance(st.iter, (ast.Tuple, ast.List)) and 1 <= len(st.iter.elts) <= 8 and not any(isinstance(x, ast.Starred) for x in st.iter.elts):
            brks = []
            for el in st.iter.elts:
                fr = {"k": "loop", "brk": [], "cont": []}
                v = self._expr(el, c)
                self._bind(st.target, v, st, c, self.type_of(el, c))
                self.frames.append(fr); self._stmts(st.body, c); self.frames.pop()
                self.cur = self.cur + fr["cont"]; brks += fr["brk"]
            if st.orelse: self._stmts(st.orelse, c)
            self.cur = self.cur + brks
            return
        h, done = self._loop(st.iter, st.target, st, c)
        fr = {"k": "loop", "brk": [], "cont": []}
        self.frames.append(fr)
        self._stmts(st.body, c)
        self.frames.pop()
        for e in self.cur + fr["cont"]: self._edge(e[0], h.id, e[1])
        self.cur = done
        if st.orelse: self._stmts(st.orelse, c)
        self.cur = self.cur + fr["brk"]
    _s_AsyncFor = _s_For

    def _loop(self, it, target, astn, c, evalctx=None):
        ec = evalctx or c
        kind = None; inner = it
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and not it.keywords:
            if it.func.id == "enumerate" and it.args: kind = "enum"; inner = it.args[0]
            elif it.func.id == "zip": kind = "zip"
            elif it.func.id in ("list", "tuple", "iter") and len(it.args) == 1 and not isinstance(it.args[0], (ast.GeneratorExp,)):
                inner = it.args[0]
        if kind == "zip": terms = [self._expr(a, ec) for a in it.args]; term = ("tuple", tuple(terms))
        else: term = self._expr(inner, ec)
        snap = inner is not it or (isinstance(it, ast.Call))
        h = self._emit("loophead", astn, c, iter=term, snap=snap, iterast=it, lkind=kind)
        self.cur = [(h.id, "done")]
        dn = self._emit("edge", astn, c, of=h.id, label="done")
        self.cur = [(h.id, "iter")]
        self._emit("edge", astn, c, of=h.id, label="iter")
        et = self.p.elem_type(self.type_of(inner, ec)) if kind != "zip" else None
        if kind == "enum" and isinstance(target, (ast.Tuple, ast.List)) and len(target.elts) == 2:
            self._bind(target.elts[0], ("index", term, h.id), astn, c)
            self._bind(target.elts[1], ("elem", term, h.id), astn, c, et)
        elif kind == "zip" and isinstance(target, (ast.Tuple, ast.List)) and len(target.elts) == len(it.args):
            for tg, tm, a in zip(target.elts, terms, it.args):
                self._bind(tg, ("elem", tm, h.id), astn, c, self.p.elem_type(self.type_of(a, ec)))
        else:
            self._bind(target, ("elem", term, h.id), astn, c, et)
        return h, [(dn.id, None)]

    def _s_Break(self, st, c):
        fr = next((f for f in reversed(self.frames) if f["k"] in ("loop", "func")), None)
        n = self._emit("nop", st, c, what="break"); self._unwind(fr)
        if fr["k"] == "loop": fr["brk"] += self.cur
        self.cur = []

    def _s_Continue(self, st, c):
        fr = next((f for f in reversed(self.frames) if f["k"] in ("loop", "func")), None)
        self._emit("nop", st, c, what="continue"); self._unwind(fr)
        if fr["k"] == "loop": fr["cont"] += self.cur
        self.cur = []

    def _s_Raise(self, st, c):
        v = self._expr(st.exc, c) if st.exc is not None else ("const", None)
        nm = None
        if st.exc is not None:
            e = st.exc.func if isinstance(st.exc, ast.Call) else st.exc
            nm = (dotted(e) or "").split(".")[-1] or None
        n = self._emit("raise", st, c, value=v, exc=nm)
        self._throw([(n.id, "exc", nm)])
        self.cur = []

    def _throw(self, edges):
        for fr in reversed(self.frames):
            if "exc" in fr:
                fr["exc"] += edges; return
        self.rexit_edges += [(e[0], e[1]) for e in edges]

    def _s_Assert(self, st, c):
        t, f = self._cond(st.test, c)
        self.cur = f
        if f:
            n = self._emit("raise", st, c, value=("const", "AssertionError"), exc="AssertionError")
            self._throw([(n.id, "exc", "AssertionError")])
        self.cur = t

    def _catches(self, h, name):
        if h.type is None: return True
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        names = [(dotted(t) or "").split(".")[-1] for t in ts]
        if "BaseException" in names or "Exception" in names: return True
        if name is None: return None
        if name in names: return True
        a = getattr(builtins, name, None)
        for n in names:
            b = getattr(builtins, n, None)
            if isinstance(a, type) and isinstance(b, type) and issubclass(a, b): return True
        return False

    def _s_Try(self, st, c):
        fin = None
        if st.finalbody:
            fin = {"k": "finally", "body": st.finalbody, "ctx": c, "exc": []}
            self.frames.append(fin)
        if st.handlers:
            fr = {"k": "try", "exc": []}
            self.frames.append(fr)
            self._emit("nop", st, c, mayraise=True, what="try")
            self._stmts(st.body, c)
            self.frames.pop()
            self._stmts(st.orelse, c)
            after = self.cur
            pending = fr["exc"]; forwarded = []
            entry = {id(h): [] for h in st.handlers}
            for e in pending:
                caught = False
                for h in st.handlers:
                    r = self._catches(h, e[2])
                    if r is not False: entry[id(h)].append((e[0], "exc"))
                    if r: caught = True; break
                if not caught: forwarded.append(e)
            for h in st.handlers:
                self.cur = entry[id(h)]
                if not self.cur: continue
                self._emit("handler", h, c, types=[(dotted(t) or "").split(".")[-1] for t in (h.type.elts if isinstance(h.type, ast.Tuple) else ([h.type] if h.type else []))])
                if h.name: self._assign(h.name, ("exc",), h, c)
                self._stmts(h.body, c)
                after = after + self.cur
            if forwarded: self._throw(forwarded)
            self.cur = after
        else:
            self._stmts(st.body, c)
        if fin is not None:
            self.frames.pop()
            normal = self.cur
            if fin["exc"]:
                self.cur = [(e[0], e[1]) for e in fin["exc"]]
                self._emit("nop", st, c, what="finally-exc")
                self._stmts(st.finalbody, c)
                if self.cur: self._throw([(e[0], "exc", None) for e in self.cur])
            self.cur = normal
            if self.cur: self._stmts(st.finalbody, c)

    def _s_With(self, st, c):
        self._with(st, list(st.items), c)
    _s_AsyncWith = _s_With

    def _with(self, st, items, c):
        if not items:
            self._stmts(st.body, c); return
        it = items[0]
        v = self._expr(it.context_expr, c)
        self._emit("withenter", st, c, term=v)
        if it.optional_vars is not None:
            self._bind(it.optional_vars, ("ctxval", v), st, c, self.type_of(it.context_expr, c))
        fr = {"k": "with", "exc": [], "ast": st, "ctx": c, "term": v}
        self.frames.append(fr)
        self._with(st, items[1:], c)
        self.frames.pop()
        normal = self.cur
        if fr["exc"]:
            self.cur = [(e[0], e[1]) for e in fr["exc"]]
            self._emit("withexit", st, c, term=v, exc=True)
            self._throw([(e[0], "exc", None) for e in self.cur])
        self.cur = normal
        if self.cur: self._emit("withexit", st, c, term=v)

    def _s_FunctionDef(self, st, c):
        c.localfuncs[st.name] = st
        c.own.add(st.name)
        self._assign(st.name, ("localfunc", c.id, st.name), st, c)
    _s_AsyncFunctionDef = _s_FunctionDef

    def _s_ClassDef(self, st, c): pass

    def _s_Match(self, st, c):
        subj = self._expr(st.subject, c); after = []
        for case in st.cases:
            p = case.pattern
            if isinstance(p, ast.MatchAs) and p.pattern is None and case.guard is None:
                self._stmts(case.body, c); after += self.cur; self.cur = []; break
            if isinstance(p, ast.MatchValue):
                t, f = self._branch(("cmp", "==", subj, self._expr(p.value, c)), st, c)
            elif isinstance(p, ast.MatchOr) and all(isinstance(x, ast.MatchValue) for x in p.patterns):
                t, f = self._branch(("cmp", "in", subj, ("tuple", tuple(self._expr(x.value, c) for x in p.patterns))), st, c)
            elif isinstance(p, ast.MatchClass):
                t, f = self._branch(("pcall", ("glob", "builtins", "isinstance"), (subj, self._expr(p.cls, c)), ()), st, c)
            else:
                t, f = self._branch(("unk", st.lineno), st, c)
            self.cur = t; self._stmts(case.body, c); after += self.cur; self.cur = f
        self.cur = self.cur + after

    # ---- conditions -------------------------------------------------------------
    def _cond(self, e, c):
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And); out = []; rest = None
            for i, v in enumerate(e.values):
                t, f = self._cond(v, c)
                if isand: out += f; self.cur = t; rest = t
                else: out += t; self.cur = f; rest = f
            return (rest, out) if isand else (out, rest)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t, f = self._cond(e.operand, c); return f, t
        if isinstance(e, ast.Constant):
            return (self.cur, []) if e.value else ([], self.cur)
        if isinstance(e, ast.NamedExpr):
            v = self._expr(e.value, c); self._bind(e.target, v, e, c, self.type_of(e.value, c))
            return self._branch_norm(("var", self._owner(e.target.id, c).id, e.target.id), e, c)
        if isinstance(e, ast.Name):
            oc = self._owner(e.id, c)
            if oc is not None and e.id in oc.boolsub:
                v, ln = oc.boolsub[e.id]
                if not any(ln <= y <= e.lineno for y in oc.yield_lines) and not oc.types.get("$sub" + e.id):
                    oc.types["$sub" + e.id] = True
                    try: return self._cond(v, oc)
                    finally: oc.types.pop("$sub" + e.id)
        if isinstance(e, ast.IfExp):
            t, f = self._cond(e.test, c)
            self.cur = t; t1, f1 = self._cond(e.body, c)
            self.cur = f; t2, f2 = self._cond(e.orelse, c)
            return t1 + t2, f1 + f2
        if isinstance(e, ast.Compare) and len(e.ops) > 1:
            parts = []; left = e.left
            for op, r in zip(e.ops, e.comparators):
                parts.append(ast.copy_location(ast.Compare(left=left, ops=[op], comparators=[r]), e)); left = r
            return self._cond(ast.copy_location(ast.BoolOp(op=ast.And(), values=parts), e), c)
        if isinstance(e, ast.Compare):
            op = e.ops[0]; r = e.comparators[0]
            if isinstance(op, (ast.Is, ast.Eq)) and isinstance(r, ast.Constant) and isinstance(r.value, bool):
                t, f = self._cond(e.left, c); return (t, f) if r.value else (f, t)
            if isinstance(op, (ast.IsNot, ast.NotEq)) and isinstance(r, ast.Constant) and isinstance(r.value, bool):
                t, f = self._cond(e.left, c); return (f, t) if r.value else (t, f)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and self._owner(e.func.id, c) is None:
            if e.func.id == "bool" and len(e.args) == 1: return self._cond(e.args[0], c)
            if e.func.id in ("any", "all") and len(e.args) == 1:
                a = e.args[0]
                if isinstance(a, (ast.GeneratorExp, ast.ListComp, ast.SetComp)): return self._anyall(e.func.id == "any", a, e, c)
                if isinstance(a, (ast.Tuple, ast.List)):
                    return self._cond(ast.copy_location(ast.BoolOp(op=ast.Or() if e.func.id == "any" else ast.And(), values=list(a.elts)), e), c)
        callee = None
        if isinstance(e, ast.Call): callee = self._inline_target(e, c)
        elif isinstance(e, ast.Attribute): callee = self._prop_target(e, c)
        if callee:
            fn, recv, closure, scls = callee
            return self._inline(e, fn, recv, c, closure, scls, mode="cond")
        return self._branch_norm(self._expr(e, c), e, c)

    def _branch_norm(self, term, e, c):
        raw = term
        term, pol = norm_atom(term)
        t, f = self._branch(term, e, c)
        self.nodes[self.nodes[t[0][0]].of].d.update(raw=raw, rawpol=pol)
        return (t, f) if pol else (f, t)

    def _anyall(self, isany, comp, e, c):
        cc = self._ctx(c.fn, c.mod, c.selfcls, c, "comp")
        heads = []; done_final = []
        res = []
        for gi, g in enumerate(comp.generators):
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name): cc.own.add(x.id)
            h, done = self._loop(g.iter, g.target, g.iter, cc, evalctx=c if gi == 0 else cc)
            if heads:
                for d in done: self._edge(d[0], heads[-1].id, d[1])
            else: done_final = done
            heads.append(h)
            for cond in g.ifs:
                t, f = self._cond(cond, cc)
                for x in f: self._edge(x[0], h.id, x[1])
                self.cur = t
        t, f = self._cond(comp.elt, cc)
        hit, miss = (t, f) if isany else (f, t)
        for x in miss: self._edge(x[0], heads[-1].id, x[1])
        return (hit, done_final) if isany else (done_final, hit)

    # ---- expressions ---------------------------------------------------------------
    def _owner(self, name, c):
        while c is not None:
            if name in c.own: return c
            c = c.closure
        return None

    def _expr(self, e, c):
        m = getattr(self, "_e_" + type(e).__name__, None)
        if m: return m(e, c)
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr): self._expr(x, c)
        return ("unk", type(e).__name__, getattr(e, "lineno", 0))

    def _e_Constant(self, e, c): return ("const", e.value)

    def _e_Name(self, e, c):
        o = self._owner(e.id, c)
        if o is not None: return ("var", o.id, e.id)
        return self._global(e.id, c)

    def _global(self, name, c):
        r = c.mod.lookup(name)
        if r is None: return ("glob", "builtins", name)
        if r[0] == "class": return ("class", r[1].qual)
        if r[0] == "func": return ("func", r[1].qual)
        if r[0] == "mod": return ("mod", r[1])
        if r[0] == "ext": return ("ext", r[1])
        if r[0] == "const": return ("glob", r[1].name, name)
        return ("glob", c.mod.name, name)

    def _e_Attribute(self, e, c):
        if not isinstance(e.value, ast.Name) or self._owner(e.value.id, c) is None:
            if self._root_owner(e, c) is None:
                r = c.mod.resolve_expr(e)
                if r:
                    if r[0] == "class": return ("class", r[1].qual)
                    if r[0] == "func": return ("func", r[1].qual)
                    if r[0] == "mod": return ("mod", r[1])
                    if r[0] == "ext": return ("ext", r[1])
                    if r[0] == "const": return ("glob", r[1].name, e.attr)
                    if r[0] == "member": return ("member", r[1].qual, r[2])
        pt = self._prop_target(e, c)
        if pt:
            fn, recv, closure, scls = pt
            return self._inline(e, fn, recv, c, closure, scls, mode="value")
        return ("attr", self._expr(e.value, c), e.attr)

    def _root_owner(self, e, c):
        while isinstance(e, ast.Attribute): e = e.value
        if isinstance(e, ast.Name): return self._owner(e.id, c)
        return True

    def _e_Subscript(self, e, c):
        return ("item", self._expr(e.value, c), self._expr(e.slice, c))

    def _e_Slice(self, e, c):
        return ("slice",) + tuple(self._expr(x, c) if x is not None else ("const", None) for x in (e.lower, e.upper, e.step))

    def _e_Tuple(self, e, c): return ("tuple", tuple(self._expr(x, c) for x in e.elts))
    def _e_List(self, e, c): return ("list", tuple(self._expr(x, c) for x in e.elts))
    def _e_Set(self, e, c): return ("set", tuple(self._expr(x, c) for x in e.elts))

    def _e_Dict(self, e, c):
        return ("dict", tuple((self._expr(k, c) if k is not None else ("starstar",), self._expr(v, c)) for k, v in zip(e.keys, e.values)))

    def _e_BinOp(self, e, c):
        return ("bin", OPN.get(type(e.op), "?"), self._expr(e.left, c), self._expr(e.right, c))

    def _e_UnaryOp(self, e, c):
        v = self._expr(e.operand, c)
        if isinstance(e.op, ast.Not): return ("not", v)
        if isinstance(e.op, ast.USub):
            if v[0] == "const" and isinstance(v[1], (int, float)): return ("const", -v[1])
            return ("neg", v)
        return ("un", type(e.op).__name__, v)

    def _e_BoolOp(self, e, c):
        return ("bool", "and" if isinstance(e.op, ast.And) else "or", tuple(self._expr(v, c) for v in e.values))

    def _e_Compare(self, e, c):
        left = self._expr(e.left, c); parts = []
        for op, r in zip(e.ops, e.comparators):
            rt = self._expr(r, c)
            parts.append(("cmp", CMPN[type(op)], left, rt)); left = rt
        return parts[0] if len(parts) == 1 else ("bool", "and", tuple(parts))

    def _e_IfExp(self, e, c):
        t, f = self._cond(e.test, c)
        key = "$if%d_%d" % (e.lineno, e.col_offset); c.own.add(key)
        self.cur = t
        if t: self._assign(key, self._expr(e.body, c), e, c)
        a = self.cur
        self.cur = f
        if f: self._assign(key, self._expr(e.orelse, c), e, c)
        self.cur = self.cur + a
        return ("var", c.id, key)

    def _e_NamedExpr(self, e, c):
        v = self._expr(e.value, c); self._bind(e.target, v, e, c, self.type_of(e.value, c))
        return v

    def _e_JoinedStr(self, e, c):
        return ("fstr", tuple(self._expr(v.value, c) if isinstance(v, ast.FormattedValue) else ("const", getattr(v, "value", "")) for v in e.values))

    def _e_Starred(self, e, c): return ("star", self._expr(e.value, c))

    def _e_Lambda(self, e, c):
        k = len(self.lams); self.lams[k] = (e, c); return ("lambda", k)

    def _e_Await(self, e, c): return self._expr(e.value, c)

    def _e_Yield(self, e, c):
        if e.value is None:
            self._emit("yield", e, c, value=("const", None)); return ("sent",)
        v = e.value
        if self._is_env_process(v):
            inner = v.args[0]
            tgt = self._inline_target(inner, c, gen=True)
            if tgt:
                self._expr(v.func.value, c)
                n = self._emit("yield", e, c, value=("proc", self._callee_name(inner)))
                fn, recv, closure, scls = tgt
                return self._inline(inner, fn, recv, c, closure, scls, mode="value")
        t = self._expr(v, c)
        self._emit("yield", e, c, value=t)
        return ("sent_of", t)

    def _e_YieldFrom(self, e, c):
        if isinstance(e.value, ast.Call):
            tgt = self._inline_target(e.value, c, gen=True)
            if tgt:
                fn, recv, closure, scls = tgt
                return self._inline(e.value, fn, recv, c, closure, scls, mode="value")
        t = self._expr(e.value, c); self._emit("yield", e, c, value=t); return ("sent_of", t)

    def _comp(self, e, c, kind, elts):
        cc = self._ctx(c.fn, c.mod, c.selfcls, c, "comp")
        heads = []; done_final = []
        for gi, g in enumerate(e.generators):
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name): cc.own.add(x.id)
            h, done = self._loop(g.iter, g.target, g.iter, cc, evalctx=c if gi == 0 else cc)
            if heads:
                for d in done: self._edge(d[0], heads[-1].id, d[1])
            else: done_final = done
            heads.append(h)
            for cond in g.ifs:
                t, f = self._cond(cond, cc)
                for x in f: self._edge(x[0], h.id, x[1])
                self.cur = t
        vals = tuple(self._expr(x, cc) for x in elts)
        k = len(self.comps)
        n = self._emit("compelt", e, cc, comp=k, value=vals[0], vals=vals)
        for x in self.cur: self._edge(x[0], heads[-1].id, x[1])
        self.cur = done_final
        self.comps[k] = {"elt": n.id, "heads": [h.id for h in heads], "kind": kind}
        return ("comp", kind, k)

    def _e_ListComp(self, e, c): return self._comp(e, c, "list", [e.elt])
    def _e_SetComp(self, e, c): return self._comp(e, c, "set", [e.elt])
    def _e_GeneratorExp(self, e, c): return self._comp(e, c, "gen", [e.elt])
    def _e_DictComp(self, e, c): return self._comp(e, c, "dict", [e.key, e.value])

    def _callee_name(self, call):
        f = call.func
        return f.attr if isinstance(f, ast.Attribute) else (f.id if isinstance(f, ast.Name) else "?")

    def _e_Call(self, e, c):
        f = e.func
        if isinstance(f, ast.Attribute) and f.attr == "append" and isinstance(f.value, ast.Name) and len(e.args) == 1:
            o = self._owner(f.value.id, c)
            if o is not None and not typed(o.types.get(f.value.id, frozenset())):
                t = self.type_of(e.args[0], c)
                if t: o.types[f.value.id] = frozenset([("L", t)])
        if self._is_env_process(e):
            inner = e.args[0]
            envt = self._expr(f.value, c)
            it = self._call_node(inner, c, kind="spawn")
            return ("spawn", it)
        if isinstance(f, ast.Name) and self._owner(f.id, c) is None and f.id in ("any", "all") and len(e.args) == 1 and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)):
            t, fl = self._cond(e, c)
            key = "$b%d_%d" % (e.lineno, e.col_offset); c.own.add(key)
            self.cur = t
            if t: self._assign(key, ("const", True), e, c)
            a = self.cur
            self.cur = fl
            if fl: self._assign(key, ("const", False), e, c)
            self.cur = self.cur + a
            return ("var", c.id, key)
        tgt = self._inline_target(e, c)
        if tgt:
            fn, recv, closure, scls = tgt
            if fn.is_generator and not self._genok(fn): tgt = None
            else: return self._inline(e, fn, recv, c, closure, scls, mode="value")
        g = self._getter(e, c)
        if g is not None:
            recv = self._expr(f.value, c)
            self._emit("call", e, c, name=f.attr, func=("attr", recv, f.attr), recv=recv, args=(), kw={}, cands=self.resolve_callee(e, c), inlined=True, recvtype=self.type_of(f.value, c))
            return ("attr", recv, g)
        return ("call", self._call_node(e, c))

    def _getter(self, e, c):
        """attribute name if every candidate callee merely returns self.<attr>"""
        if not isinstance(e.func, ast.Attribute) or e.args or e.keywords: return None
        if self._root_owner(e.func, c) is None: return None
        cands = self.resolve_callee(e, c)
        if len(cands) < 2: return None
        names = set()
        for fn in cands:
            if fn.name in self.stop: return None
            a = self._getattr_of(fn)
            if a is None: return None
            names.add(a)
        return names.pop() if len(names) == 1 else None

    def _getattr_of(self, fn, depth=0):
        """the attribute of self a function merely returns (through locals and helper methods)"""
        if not fn.params() or fn.is_generator or depth > 3: return None
        me = fn.params()[0]; loc = {}
        for b in fn.node.body:
            if isinstance(b, ast.Pass) or (isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant)): continue
            if isinstance(b, (ast.Assign, ast.AnnAssign)) and b.value is not None:
                tg = b.targets[0] if isinstance(b, ast.Assign) and len(b.targets) == 1 else getattr(b, "target", None)
                if not isinstance(tg, ast.Name): return None
                loc[tg.id] = b.value; continue
            if not isinstance(b, ast.Return) or b.value is None: return None
            v = b.value; k = 0
            while isinstance(v, ast.Name) and v.id in loc and k < 5: v = loc[v.id]; k += 1
            if isinstance(v, ast.Attribute):
                w = v.value; k = 0
                while isinstance(w, ast.Name) and w.id in loc and k < 5: w = loc[w.id]; k += 1
                return v.attr if isinstance(w, ast.Name) and w.id == me else None
            if isinstance(v, ast.Call) and not v.args and not v.keywords and isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Name) and v.func.value.id == me and fn.cls is not None:
                m = fn.cls.find_method(v.func.attr)
                return self._getattr_of(m, depth + 1) if m is not None else None
            return None
        return None

    def _genok(self, fn): return not fn.is_generator

    def _call_node(self, e, c, kind="call", inlined=False, argvals=None):
        f = e.func if isinstance(e, ast.Call) else e
        if isinstance(f, ast.Attribute):
            if self._root_owner(f, c) is None and c.mod.resolve_expr(f) is not None:
                func = self._e_Attribute(f, c); recv = None
                if isinstance(f.value, (ast.Attribute, ast.Name)): recv = self._expr(f.value, c)
            else:
                recv = self._expr(f.value, c); func = ("attr", recv, f.attr)
            name = f.attr
        elif isinstance(f, ast.Name):
            func = self._expr(f, c); recv = None; name = f.id
        else:
            func = self._expr(f, c); recv = None; name = "?"
        if argvals is None:
            args = tuple(self._expr(a, c) for a in e.args) if isinstance(e, ast.Call) else ()
            kw = tuple((k.arg, self._expr(k.value, c)) for k in e.keywords) if isinstance(e, ast.Call) else ()
        else: args, kw = argvals
        cands = self.resolve_callee(e, c) if isinstance(e, ast.Call) else []
        rt = self.type_of(f.value, c) if isinstance(f, ast.Attribute) else frozenset()
        n = self._emit("call" if kind == "call" else "spawn", e, c, name=name, func=func, recv=recv, args=args, kw=dict(kw), cands=cands, inlined=inlined, recvtype=rt)
        return n.id

    # ---- callee resolution / inlining -----------------------------------------------
    def type_of(self, e, c, depth=0):
        if depth > 10 or e is None: return frozenset()
        if isinstance(e, ast.Name):
            o = self._owner(e.id, c)
            if o is not None: return o.types.get(e.id, frozenset())
            return frozenset()
        if isinstance(e, ast.Attribute):
            if self._root_owner(e, c) is None and c.mod.resolve_expr(e) is not None: return frozenset()
            return self.p.attr_type(self.type_of(e.value, c, depth + 1), e.attr)
        if isinstance(e, ast.Subscript):
            if isinstance(e.slice, ast.Slice): return self.type_of(e.value, c, depth + 1)
            return self.p.elem_type(self.type_of(e.value, c, depth + 1))
        if isinstance(e, ast.Call):
            f = e.func
            if isinstance(f, ast.Name) and self._owner(f.id, c) is None:
                if f.id in ("list", "sorted", "reversed", "tuple", "set") and e.args: return self.type_of(e.args[0], c, depth + 1)
                if f.id == "next" and e.args: return self.p.elem_type(self.type_of(e.args[0], c, depth + 1))
                if f.id == "super": return frozenset()
            if isinstance(f, ast.Attribute):
                bt = self.type_of(f.value, c, depth + 1)
                if f.attr in ("pop", "popleft", "get") and any(k[0] in ("L", "D") for k in bt): return self.p.elem_type(bt)
                if f.attr in ("values",): return bt
                if f.attr in ("model_copy", "copy", "deepcopy") and bt: return bt
                if f.attr == "choice" and e.args: return self.p.elem_type(self.type_of(e.args[0], c, depth + 1))
                if f.attr in ("deepcopy", "copy") and e.args: return self.type_of(e.args[0], c, depth + 1)
            if isinstance(f, ast.Name) and f.id in ("deepcopy", "copy") and e.args: return self.type_of(e.args[0], c, depth + 1)
            r = c.mod.resolve_expr(f) if self._root_owner(f, c) is None else None
            if r and r[0] == "class": return frozenset([("C", r[1])])
            if self._is_env_process(e): return self.type_of(e.args[0], c, depth + 1)
            out = frozenset()
            for fn in self.resolve_callee(e, c, depth + 1):
                if isinstance(fn, FuncInfo) and fn.node.returns is not None:
                    out |= self.p.ann_type(fn.node.returns, fn.mod)
            return out if typed(out) or id(e) not in c.rtypes else c.rtypes[id(e)]
        if isinstance(e, (ast.Yield, ast.Await, ast.YieldFrom)): return self.type_of(e.value, c, depth + 1)
        if isinstance(e, ast.BinOp): return self.type_of(e.left, c, depth + 1) | self.type_of(e.right, c, depth + 1)
        if isinstance(e, ast.IfExp): return self.type_of(e.body, c, depth + 1) | self.type_of(e.orelse, c, depth + 1)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            if isinstance(e.elt, ast.Name):
                for g in e.generators:
                    if isinstance(g.target, ast.Name) and g.target.id == e.elt.id:
                        return frozenset([("L", self.p.elem_type(self.type_of(g.iter, c, depth + 1)))])
            return frozenset()
        if isinstance(e, (ast.List, ast.Tuple)):
            out = frozenset()
            for x in e.elts: out |= self.type_of(x, c, depth + 1)
            return frozenset([("L", out)]) if out else frozenset()
        return frozenset()

    def resolve_callee(self, e, c, depth=0):
        """possible FuncInfos of a call"""
        f = e.func
        if isinstance(f, ast.Name):
            o = self._owner(f.id, c)
            if o is not None:
                return []
            r = c.mod.lookup(f.id)
            if r and r[0] == "func": return [r[1]]
            if r and r[0] == "class":
                m = r[1].find_method("__init__")
                return [m] if m else []
            return []
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
                if c.fn and c.fn.cls:
                    for b in c.fn.cls.mro()[1:]:
                        if f.attr in b.methods: return [b.methods[f.attr]]
                return []
            if self._root_owner(f, c) is None:
                r = c.mod.resolve_expr(f)
                if r:
                    if r[0] == "func": return [r[1]]
                    if r[0] == "class":
                        m = r[1].find_method("__init__"); return [m] if m else []
                    return []
            isself = isinstance(f.value, ast.Name) and c.fn and c.fn.cls and c.fn.params() and f.value.id == c.fn.params()[0] and c.kind == "func"
            out = []
            for ci in classes_in(self.type_of(f.value, c, depth + 1)):
                m = ci.find_method(f.attr)
                if m and m not in out: out.append(m)
                exact = isself and c.selfcls is ci
                if not exact:
                    for s in self.p.subclasses(ci):
                        if f.attr in s.methods and s.methods[f.attr] not in out: out.append(s.methods[f.attr])
            out2 = [m for m in out if not m.is_abstract]
            return out2 or out
        return []

    def _may_inline(self, fn, c):
        if fn.name in self.stop or fn.short in self.stop or fn.qual in self.stop: return False
        if c.depth >= self.maxdepth or fn.qual in c.stack or len(self.nodes) > MAXN: return False
        if fn.is_abstract: return False
        if any(d.split(".")[-1] in ("contextmanager", "cache", "lru_cache") for d in fn.decorators): return False
        if self.inline_pred is not None and not self.inline_pred(fn): return False
        return True

    def _inline_target(self, e, c, gen=False):
        f = e.func
        if isinstance(f, ast.Name):
            o = self._owner(f.id, c)
            if o is not None and f.id in o.localfuncs:
                fi = FuncInfo(o.localfuncs[f.id], c.mod, None)
                if fi.is_generator and not gen: return None
                if c.depth >= self.maxdepth or fi.qual in c.stack: return None
                return fi, None, o, c.selfcls
            r = c.mod.lookup(f.id) if o is None else None
            if r and r[0] == "func" and self._may_inline(r[1], c) and (gen or not r[1].is_generator): return r[1], None, None, None
            return None
        cands = self.resolve_callee(e, c)
        if len(cands) != 1: return None
        fn = cands[0]
        if fn.name == "__init__": return None
        if fn.is_generator and not gen: return None
        if not self._may_inline(fn, c): return None
        if any(isinstance(a, ast.Starred) for a in e.args) or any(k.arg is None for k in e.keywords): return None
        recv = None; scls = fn.cls
        if fn.cls and not fn.is_static:
            if isinstance(f, ast.Attribute):
                if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
                    recv = ast.copy_location(ast.Name(id=c.fn.params()[0], ctx=ast.Load()), f); scls = c.selfcls or fn.cls
                elif self._root_owner(f, c) is None and c.mod.resolve_expr(f): return None
                else:
                    recv = f.value
                    tc = classes_in(self.type_of(f.value, c))
                    scls = tc[0] if len(tc) == 1 else fn.cls
                    if isinstance(f.value, ast.Name) and c.fn and c.fn.cls and c.fn.params() and f.value.id == c.fn.params()[0]: scls = c.selfcls or scls
        return fn, recv, None, scls

    def _prop_target(self, e, c):
        if not isinstance(e.ctx, ast.Load): return None
        if self._root_owner(e, c) is None: return None
        tc = classes_in(self.type_of(e.value, c))
        ms = []
        for ci in tc:
            m = ci.find_method(e.attr)
            if not m or not m.is_property: return None
            if m not in ms: ms.append(m)
        if len(ms) != 1 or not self._may_inline(ms[0], c): return None
        return ms[0], e.value, None, tc[0]

    def _inline(self, e, fn, recv, c, closure, scls, mode):
        args = fn.node.args
        pos = [a for a in args.posonlyargs + args.args]
        vals = {}
        types = {}
        recvt = None
        if recv is not None:
            recvt = self._expr(recv, c)
            types[pos[0].arg] = self.type_of(recv, c) or frozenset([("C", scls)] if scls else [])
            vals[pos[0].arg] = recvt; rest = pos[1:]
        elif fn.is_classmethod and fn.cls:
            vals[pos[0].arg] = ("class", fn.cls.qual); rest = pos[1:]
        else: rest = pos
        argterms = []; kwterms = []
        if isinstance(e, ast.Call):
            for i, a in enumerate(e.args):
                v = self._expr(a, c); argterms.append(v)
                if i < len(rest):
                    vals[rest[i].arg] = v; types[rest[i].arg] = self.type_of(a, c)
            for k in e.keywords:
                v = self._expr(k.value, c); kwterms.append((k.arg, v))
                vals[k.arg] = v; types[k.arg] = self.type_of(k.value, c)
        n = self.nodes
        cid = self._emit("call", e, c, name=fn.name, func=("attr", recvt, fn.name) if recvt else ("func", fn.qual), recv=recvt,
                         args=tuple(argterms), kw=dict(kwterms), cands=[fn], inlined=True, recvtype=types.get(pos[0].arg, frozenset()) if recv is not None else frozenset())
        nc = self._ctx(fn, fn.mod, scls, closure)
        nc.depth = c.depth + 1; nc.stack = c.stack + (fn.qual,)
        self._prep(nc, fn.node)
        defaults = dict(zip([a.arg for a in pos][len(pos) - len(args.defaults):], args.defaults))
        for a, d in zip(args.kwonlyargs, args.kw_defaults):
            if d is not None: defaults[a.arg] = d
        for a in pos + args.kwonlyargs:
            nc.own.add(a.arg)
            ann = self.p.ann_type(a.annotation, fn.mod) if a.annotation is not None else frozenset()
            nc.types[a.arg] = types.get(a.arg) or ann
            if a.arg in vals: v = vals[a.arg]
            elif a.arg in defaults: v = self._expr(defaults[a.arg], nc) if isinstance(defaults[a.arg], ast.Constant) else ("default", a.arg)
            else: v = ("missing", a.arg)
            self._assign(a.arg, v, e, nc).ctx = c
        nc.own.add("$ret")
        fr = {"k": "func", "rets": [], "mode": mode, "ctx": nc, "t": [], "f": []}
        self.frames.append(fr)
        self._stmts(fn.node.body, nc)
        if mode == "cond": fr["f"] += self.cur
        elif self.cur:
            self._assign("$ret", ("const", None), fn.node, nc); fr["rets"] += self.cur
        self.frames.pop()
        if mode == "cond":
            self.cur = []
            return fr["t"], fr["f"]
        self.cur = fr["rets"]
        self._emit("callend", e, c, of=cid.id, fn=fn.qual)
        if fr.get("rtype"): c.rtypes[id(e)] = fr["rtype"]
        return ("var", nc.id, "$ret")

    # =================== queries ==========================================================
    def find(self, kind=None, **kw):
        out = []
        for n in self.nodes:
            if kind and n.kind != kind: continue
            if all(n.get(k) == v for k, v in kw.items()): out.append(n)
        return out

    def calls(self, *names, kinds=("call", "spawn")):
        live = self.live()
        return [n for n in self.nodes if n.kind in kinds and n.get("name") in names and n.id in live]

    def stores(self, attr=None):
        live = self.live()
        return [n for n in self.nodes if n.kind == "store" and (attr is None or n.attr == attr) and n.id in live]

    def live(self):
        if getattr(self, "_live", None) is None:
            seen = {self.entry.id}; st = [self.entry.id]
            while st:
                for s, _ in self.nodes[st.pop()].succ:
                    if s not in seen: seen.add(s); st.append(s)
            self._live = seen
        return self._live

    # dominators (bitsets)
    def _dominators(self):
        if self._dom is not None: return self._dom
        order = []; seen = set()
        st = [(self.entry.id, iter(self.nodes[self.entry.id].succ))]; seen.add(self.entry.id)
        while st:
            n, it = st[-1]
            for s, _ in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(self.nodes[s].succ))); break
            else:
                order.append(n); st.pop()
        order.reverse()
        full = (1 << len(self.nodes)) - 1
        dom = {n: full for n in order}; dom[self.entry.id] = 1 << self.entry.id
        ch = True
        while ch:
            ch = False
            for n in order:
                if n == self.entry.id: continue
                x = full
                for p, _ in self.nodes[n].pred:
                    if p in dom: x &= dom[p]
                x |= 1 << n
                if x != dom[n]: dom[n] = x; ch = True
        self._dom = dom
        return dom

    def dominates(self, a, b):
        d = self._dominators().get(b.id)
        return d is not None and bool(d >> a.id & 1)

    def guards(self, n):
        """edge nodes that dominate n"""
        d = self._dominators().get(n.id, 0)
        return [e for e in self.nodes if e.kind == "edge" and e.id != n.id and d >> e.id & 1]

    def guard_atoms(self, n):
        """[(branch node, rendered atom, polarity)] for if-branches dominating n"""
        out = []
        for e in self.guards(n):
            b = self.nodes[e.of]
            if b.kind == "branch": out.append((b, self.r(b.term, b), e.label))
        return out

    def guard_set(self, n):
        return {("" if pol else "!") + s for _, s, pol in self.guard_atoms(n)}

    def loops_of(self, n):
        """loop heads whose 'iter' edge dominates n (n inside the loop body)"""
        return [self.nodes[e.of] for e in self.guards(n) if self.nodes[e.of].kind == "loophead" and e.label == "iter" and self.reaches(n, self.nodes[e.of])]

    def reaches(self, a, b, avoid=(), exc=True):
        av = {x.id for x in avoid}
        st = [s for s, l in a.succ and self.nodes[a.id].succ if exc or l != "exc"]; seen = set()
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x)
            if x == b.id: return True
            if x in av: continue
            st.extend(s for s, l in self.nodes[x].succ if exc or l != "exc")
        return False

    def reach_set(self, starts, avoid=(), exc=True, edges=None):
        av = {x.id for x in avoid}
        st = []
        for a in starts: st.extend(s for s, l in a.succ if exc or l != "exc")
        seen = set()
        while st:
            x = st.pop()
            if x in seen or x in av: continue
            seen.add(x)
            st.extend(s for s, l in self.nodes[x].succ if exc or l != "exc")
        return seen

    def path_avoiding(self, a, b, avoid, exc=False):
        """a path a -> b (node list) that avoids `avoid`, or None"""
        av = {x.id for x in avoid}; prev = {}
        st = []
        from collections import deque
        q = deque()
        for s, l in a.succ:
            if (exc or l != "exc") and s not in av and s not in prev: prev[s] = a.id; q.append(s)
        if isinstance(b, (list, tuple, set)): tg = {x.id for x in b}
        else: tg = {b.id}
        while q:
            x = q.popleft()
            if x in tg:
                path = [x]
                while x != a.id and x in prev:
                    x = prev[x]
                    path.append(x)
                    if x == a.id: break
                return [self.nodes[i] for i in reversed(path)]
            for s, l in self.nodes[x].succ:
                if (exc or l != "exc") and s not in av and s not in prev: prev[s] = x; q.append(s)
        return None

    def always_before(self, n, befores):
        """every path entry->n passes one of befores (normal+exc edges)"""
        if any(self.dominates(b, n) and b.id != n.id for b in befores): return True
        return self.path_avoiding(self.entry, n, [b for b in befores if b.id != n.id], exc=True) is None

    def always_after(self, n, afters, exc=False, bound=None):
        """every normal path n->exit passes one of afters; with bound: also before reaching bound nodes"""
        tg = [self.exit] + list(bound or [])
        return self.path_avoiding(n, tg, [a for a in afters], exc=exc) is None

    # reaching definitions
    def rd(self, key, node):
        k = (key, node.id)
        if k in self._rdc: return self._rdc[k]
        out = []; seen = set(); st = [p for p, _ in node.pred]
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x)
            nd = self.nodes[x]
            if nd.kind == "assign" and nd.key == key: out.append(nd); continue
            st.extend(p for p, _ in nd.pred)
        self._rdc[k] = out
        return out

    def resolve(self, t, node, depth=40, seen=()):
        """expand variables through reaching definitions"""
        if depth <= 0 or not isinstance(t, tuple) or not t: return t
        k = t[0]
        if k == "var":
            defs = self.rd((t[1], t[2]), node)
            vs = []
            for dn in defs:
                if (dn.id,) in seen: continue
                v = dn.value
                if isinstance(v, tuple) and v and v[0] in ("elem", "index"):
                    lh = self.nodes[v[2]]
                    v = (v[0], self.resolve(v[1], lh, depth - 1, seen + ((dn.id,),)), v[2])
                else: v = self.resolve(v, dn, depth - 1, seen + ((dn.id,),))
                if v not in vs: vs.append(v)
            if not vs: return ("rec", t[2]) if defs else ("undef", t[2])
            if len(vs) == 1: return vs[0]
            flat = []
            for v in vs:
                for x in (v[1] if v[0] == "phi" else (v,)):
                    if x not in flat: flat.append(x)
            return ("phi", tuple(sorted(flat, key=repr)))
        if k in ("const", "param", "class", "func", "mod", "ext", "glob", "member", "lambda", "comp", "call", "spawn", "unk", "rec", "undef", "default", "missing", "localfunc", "sent", "exc", "proc"):
            return t
        if k in ("elem", "index"):
            return (k, self.resolve(t[1], self.nodes[t[2]], depth - 1, seen), t[2])
        out = []
        for x in t:
            if isinstance(x, tuple): out.append(self._res_any(x, node, depth - 1, seen))
            else: out.append(x)
        return tuple(out)

    def _res_any(self, x, node, depth, seen):
        if x and isinstance(x[0], str): return self.resolve(x, node, depth, seen)
        return tuple(self._res_any(y, node, depth, seen) if isinstance(y, tuple) else y for y in x)

    def r(self, t, node):
        """canonical rendering of a term as seen at node"""
        return self.render(self.resolve(t, node))

    def render(self, t, d=0):
        if d > 14: return "..."
        R = lambda x: self.render(x, d + 1)
        if not isinstance(t, tuple) or not t: return repr(t)
        k = t[0]
        if k == "const": return repr(t[1])
        if k == "param": return t[1]
        if k == "attr": return f"{R(t[1])}.{t[2]}"
        if k in ("class", "func"): return t[1].split(".")[-1] if k == "class" else t[1].split(".")[-1]
        if k == "member": return f"{t[1].split('.')[-1]}.{t[2]}"
        if k == "mod": return t[1].split(".")[-1]
        if k == "ext": return t[1]
        if k == "glob": return t[2]
        if k == "item": return f"{R(t[1])}[{R(t[2])}]"
        if k == "slice": return ":".join("" if x == ("const", None) else R(x) for x in t[1:])
        if k == "call" or k == "spawn":
            nid = t[1]
            n = self.nodes[nid]
            fs = self.render(self.resolve(n.func, n), d + 1)
            a = [self.render(self.resolve(x, n), d + 1) for x in n.args] + [f"{kk}={self.render(self.resolve(v, n), d + 1)}" for kk, v in sorted(n.kw.items(), key=lambda z: str(z[0]))]
            return f"{fs}({', '.join(a)})"
        if k == "pcall":
            return f"{R(t[1])}({', '.join([R(x) for x in t[2]] + [f'{a}={R(b)}' for a, b in t[3]])})"
        if k == "elem": return f"elem({R(t[1])})"
        if k == "index": return f"index({R(t[1])})"
        if k == "unpack": return f"{R(t[1])}[{t[2]}]"
        if k == "bin":
            a, b = R(t[2]), R(t[3])
            if t[1] in ("+", "*", "&", "|") and not _strish(t): a, b = sorted((a, b))
            return f"({a} {t[1]} {b})"
        if k == "cmp":
            op, a, b = t[1], R(t[2]), R(t[3])
            if op in (">", ">="): op, a, b = {">": "<", ">=": "<="}[op], b, a
            if op in ("==", "!=", "is", "is not"): a, b = sorted((a, b))
            return f"({a} {op} {b})"
        if k == "not": return f"!{R(t[1])}"
        if k == "neg": return f"-{R(t[1])}"
        if k == "bool": return "(" + f" {t[1]} ".join(sorted(R(x) for x in t[2])) + ")"
        if k in ("list", "tuple", "set"): return {"list": "[%s]", "tuple": "(%s)", "set": "{%s}"}[k] % ", ".join(R(x) for x in t[1])
        if k == "dict": return "{" + ", ".join(f"{R(a)}: {R(b)}" for a, b in t[1]) + "}"
        if k == "phi": return "{" + "|".join(sorted(R(x) for x in t[1])) + "}"
        if k == "comp":
            info = self.comps[t[2]]; n = self.nodes[info["elt"]]
            busy = self.__dict__.setdefault("_busy", set())
            if t[2] in busy: return f"{t[1]}comp(...)"
            busy.add(t[2])
            try: return self._render_comp(t, info, n)
            finally: busy.discard(t[2])
        if k == "lambda": return self.render_lambda(t)
        if k == "ctxval": return R(t[1])
        if k == "sent_of": return f"sent({R(t[1])})"
        if k == "fstr": return "f'" + "".join(str(x[1]) if x[0] == "const" else "{" + R(x) + "}" for x in t[1]) + "'"
        if k == "star": return "*" + R(t[1])
        return f"<{k}:{','.join(str(x) for x in t[1:] if not isinstance(x, tuple))}>"

    def _render_comp(self, t, info, n):
        brs = [e for e in self.guards(n) if self.nodes[e.of].kind == "branch" and any(self.dominates(self.nodes[h], self.nodes[e.of]) for h in info["heads"])]
        g = sorted(("" if e.label else "!") + self.r(self.nodes[e.of].term, self.nodes[e.of]) for e in brs)
        its = [self.r(self.nodes[h].iter, self.nodes[h]) for h in info["heads"]]
        return f"{t[1]}comp({self.r(n.value, n)} for {' '.join(its)}{' if ' + ' & '.join(g) if g else ''})"

    def lambda_graph(self, t):
        """(sub-Graph-like) lower a lambda body into a mini function graph for inspection"""
        e, c = self.lams[t[1]]
        return e, c

    def render_lambda(self, t):
        e, c = self.lams[t[1]]
        names = [a.arg for a in e.args.args]
        return "lambda " + self.pure(e.body, c, {n: f"${i}" for i, n in enumerate(names)})

    def pure(self, e, c, sub, node=None):
        """canonical rendering of an expression without emitting nodes; free variables via unique/any reaching def at end"""
        def P(x): return self.pure(x, c, sub, node)
        if isinstance(e, ast.Name):
            if e.id in sub: return sub[e.id]
            o = self._owner(e.id, c)
            if o is None: return self.render(self._global(e.id, c))
            defs = [n for n in self.nodes if n.kind == "assign" and n.key == (o.id, e.id)]
            vals = {self.render(self.resolve(n.value, n)) for n in defs}
            return "{" + "|".join(sorted(vals)) + "}" if len(vals) != 1 else next(iter(vals))
        if isinstance(e, ast.Attribute):
            if self._root_owner(e, c) is None and c.mod.resolve_expr(e) is not None: return self.render(self._e_Attribute(e, c))
            return f"{P(e.value)}.{e.attr}"
        if isinstance(e, ast.Constant): return repr(e.value)
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            op = CMPN[type(e.ops[0])]; a, b = P(e.left), P(e.comparators[0])
            if op in (">", ">="): op, a, b = {">": "<", ">=": "<="}[op], b, a
            if op in ("==", "!=", "is", "is not"): a, b = sorted((a, b))
            return f"({a} {op} {b})"
        if isinstance(e, ast.BoolOp): return "(" + (" and " if isinstance(e.op, ast.And) else " or ").join(sorted(P(x) for x in e.values)) + ")"
        if isinstance(e, ast.UnaryOp):
            return {"Not": "!", "USub": "-"}.get(type(e.op).__name__, "~") + P(e.operand)
        if isinstance(e, ast.Call):
            return f"{P(e.func)}({', '.join([P(a) for a in e.args] + [f'{k.arg}={P(k.value)}' for k in e.keywords])})"
        if isinstance(e, ast.BinOp):
            a, b = P(e.left), P(e.right); op = OPN.get(type(e.op), "?")
            if op in ("+", "*"): a, b = sorted((a, b))
            return f"({a} {op} {b})"
        if isinstance(e, (ast.Tuple, ast.List)): return "(" + ", ".join(P(x) for x in e.elts) + ")"
        if isinstance(e, ast.Subscript): return f"{P(e.value)}[{P(e.slice)}]"
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            s2 = dict(sub); its = []
            for g in e.generators:
                its.append(self.pure(g.iter, c, s2))
                for i, x in enumerate(y for y in ast.walk(g.target) if isinstance(y, ast.Name)): s2[x.id] = f"elem({its[-1]})" + (f"[{i}]" if isinstance(g.target, ast.Tuple) else "")
            cs = sorted(self.pure(i, c, s2) for g in e.generators for i in g.ifs)
            return f"comp({self.pure(e.elt, c, s2)} for {' '.join(its)}{' if ' + ' & '.join(cs) if cs else ''})"
        return ast.unparse(e)

    def arg(self, n, i, name=None):
        """i-th positional or keyword argument term"""
        if name is not None and name in n.kw: return n.kw[name]
        if i is not None and i < len(n.args): return n.args[i]
        return None

    def dump(self):
        live = self.live()
        for n in self.nodes:
            if n.id not in live: continue
            ex = ""
            if n.kind in ("call", "spawn"): ex = f"{n.name} recv={self.r(n.recv, n) if n.recv else None} args={[self.r(a, n) for a in n.args]} {'INL' if n.inlined else ''}"
            elif n.kind == "branch": ex = self.r(n.term, n)
            elif n.kind == "edge": ex = f"of {n.of} {n.label}"
            elif n.kind == "assign": ex = f"{n.key} = {self.r(n.value, n)}"
            elif n.kind == "store": ex = f"{self.r(n.base, n)}.{n.attr} = {self.r(n.value, n)}"
            elif n.kind == "yield": ex = self.r(n.value, n)
            elif n.kind == "loophead" and n.iter: ex = self.r(n.iter, n)
            print(n.id, n.kind, n.loc, ex, "->", n.succ)


def _strish(t):
    def s(x): return isinstance(x, tuple) and (x[0] == "const" and isinstance(x[1], str) or x[0] in ("fstr", "list", "tuple") or x[0] == "bin" and (s(x[2]) or s(x[3])))
    return s(t[2]) or s(t[3])


def norm_atom(t):
    """-> (canonical atom, polarity)"""
    pol = True
    while t[0] == "not": t = t[1]; pol = not pol
    if t[0] == "cmp":
        op, a, b = t[1], t[2], t[3]
        if op == "!=": op = "=="; pol = not pol
        elif op == "is not": op = "is"; pol = not pol
        elif op == "not in": op = "in"; pol = not pol
        elif op == ">": op, a, b = "<", b, a
        elif op == ">=": op = "<"; pol = not pol
        elif op == "<=": op, a, b = "<", b, a; pol = not pol
        return ("cmp", op, a, b), pol
    return t, pol
