"""P25: with a warm-up phase to be cut off every aggregated figure is computed from the rest of the log only, without one from all of it."""
import re
from ..lib import *
from ..peval import paths
from ..frames import *
from . import p24

TECHNIQUE = "abstract evaluation of every table definition for both settings of the cut-off (which part of the log do its rows come from), along the paths of the inlined control flow graph"
NOTE = "The choice of the cut-off point is taken as the definition of the warm-up phase; decided are that it is computed with the configured method and that every reported figure respects it. That running totals are formed before the cut is not decided."
LEVEL = "partial"
POST = p24.POST
KPI = re.compile(r"^(df_aggregated_\w+|get_aggregated_\w+|\w+_KPIs|\w+_KPIS|df_mean_wip_per_station|df_oee_production_system|df_production_flow_ratio)$")
TIMES = ("Time", "Start_time", "End_time")
ROWLESS = {"unique", "tolist", "to_list", "keys", "len", "nunique"}


def asks(n):
    return n.kind == "call" and any(f.mod.name.endswith("warm_up_post_processing") for f in n.get("cands") or ())


class Cut:
    def __init__(self, ck):
        self.ck, self.p = ck, ck.p; self.C = ck.p.cls(POST); self.memo = {}; self.gs = {}; self.busy = set()
        self.definers = {m.name for m in self.C.methods.values() if self.member(m) and self.decides(m)}

    def member(self, m): return any(d.endswith("property") for d in m.decorators)

    def g(self, m):
        if m.qual not in self.gs:
            self.gs[m.qual] = self.ck.graph(m, inline=lambda f: f.cls is not None and f.cls.name == "PostProcessor" and not self.member(f) or f.cls is None and f.mod.name == self.C.mod.name, selfcls=self.C)
        return self.gs[m.qual]

    def decides(self, m):
        """the table whose rows define the end of the warm-up phase: it asks the configured method"""
        g = self.g(m)
        return any(asks(n) for n in g.nodes if n.id in g.live())

    def is_flag(self, t): return t[0] == "attr" and t[2] == "warm_up_cutoff"

    def paths(self, m, flag):
        g = self.g(m)
        out = []
        def on(st, n):
            if n.kind == "substore": st.events.append((st.close(n.base), st.close(n.value)))
        for q in paths(g, loop=1, limit=4000, on=on):
            ok = True
            for t, pol in q.order:
                t, pol = self.norm(t, pol)
                if self.is_flag(t) and pol != flag: ok = False
            if ok and q.end == g.exit or ok and q.nodes and g.exit in (q.nodes[-1], getattr(q.nodes[-1], "id", None)): out.append(q)
        return out

    def norm(self, t, pol):
        while t[0] == "not": t, pol = t[1], not pol
        if t[0] == "cmp" and len(t) >= 4 and t[3][0] == "const" and isinstance(t[3][1], bool) and t[1] in ("==", "is"): return self.norm(t[2], pol == t[3][1])
        if t[0] == "cmp" and len(t) >= 4 and t[3][0] == "const" and isinstance(t[3][1], bool) and t[1] in ("!=", "is not"): return self.norm(t[2], pol != t[3][1])
        return t, pol

    # ------------------------------------------------------------ the end of the warm-up phase
    def is_end(self, t):
        """value of the end of the warm-up phase"""
        if t[0] == "attr" and t[1][0] in ("var", "param"):
            m = self.C.find_method(t[2])
            if m is not None and self.member(m) and t[2] not in self.definers:
                g = self.g(m)
                return any(x in self.definers for r in g.nodes if r.id in g.live() for x in self.attrs(r))
        return False

    def attrs(self, n):
        out = set()
        def w(t):
            if isinstance(t, tuple):
                if len(t) == 3 and t[0] == "attr" and isinstance(t[2], str): out.add(t[2])
                for x in t: w(x)
        for k in ("value", "base", "recv", "index", "iter"): w(n.get(k))
        for x in n.get("args") or (): w(x)
        for x in (n.get("kw") or {}).values(): w(x)
        return out

    def time_filter(self, m):
        """'late' / 'early' if the rows of a selection lie after / before the end of the warm-up phase, else None"""
        if m[0] == "cmp":
            a, op, b = m[2], m[1], m[3]
            if self.is_end(a): a, b = b, a; op = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op)
            if self.is_end(b) and a[0] == "item" and a[2][0] == "const" and a[2][1] in TIMES: return "late" if op in (">", ">=") else "early"
            if self.is_end(b): return "other"
        if m[0] == "un": return {"late": "early", "early": "late"}.get(self.time_filter(m[2]))
        if m[0] == "pcall":
            r, nm = self.method(m)
            if r is not None and nm in ("ge", "gt", "le", "lt") and m[2] and self.is_end(m[2][0]): return "late" if nm in ("ge", "gt") else "early"
        if m[0] == "bin" and m[1] == "&":
            s = {self.time_filter(m[2]), self.time_filter(m[3])} - {None}
            return s.pop() if len(s) == 1 else None
        if m[0] == "bin" and m[1] == "|":
            s = {self.time_filter(m[2]), self.time_filter(m[3])}
            return s.pop() if len(s) == 1 else ("early" if "early" in s else None)
        return None

    def method(self, t):
        f = t[1]
        if isinstance(f, tuple) and f and f[0] == "attr": return f[1], f[2]
        return None, f if isinstance(f, str) else (f[-1] if isinstance(f, tuple) and f else None)

    # ------------------------------------------------------------ which part of the log
    def status(self, t, flag, depth=0):
        """subset of {'full', 'cut', 'early'}: the parts of the log the rows of a closed term come from"""
        if not isinstance(t, tuple) or not t or depth > 40: return frozenset()
        S = lambda x: self.status(x, flag, depth + 1)
        k = t[0]
        if k in ("const", "member", "class", "ext", "mod", "glob", "lambda", "localfunc", "var", "param"): return frozenset()
        if k == "attr":
            b = t[1]
            if b[0] in ("var", "param") and b[-1] == "self":
                if t[2] == "df_raw": return frozenset(["full"])
                m = self.C.find_method(t[2])
                if m is not None and self.member(m): return self.of(m, flag)
                return frozenset()
            return S(b)
        if k == "item":
            b = t[1][1] if t[1][0] == "attr" and t[1][2] in ("loc", "iloc") else t[1]
            ix = t[2]; m = ix[1][0] if ix[0] == "tuple" and ix[1] else ix
            f = self.time_filter(m) if m[0] in ("cmp", "bin", "un", "pcall") else None
            s = S(b)
            if f == "late": return frozenset("cut" if x == "full" else x for x in s)
            if f == "early": return frozenset(["early"])
            return s
        if k == "pcall":
            r, nm = self.method(t)
            if nm in ROWLESS: return frozenset()
            out = frozenset()
            if r is not None: out |= S(r)
            if nm == "query" and r is not None: return out
            if nm in MASKCALL: return out
            for x in t[2]: out |= S(x)
            for x in t[3] if len(t) > 3 and isinstance(t[3], (tuple, dict)) else (): out |= S(x[1] if isinstance(x, tuple) and len(x) == 2 else x)
            return out
        if k == "comp": return frozenset()
        out = frozenset()
        for x in t[1:]:
            if isinstance(x, tuple):
                if x and isinstance(x[0], str): out |= S(x)
                else:
                    for y in x: out |= S(y)
        return out

    def of(self, m, flag):
        if m.name in self.definers: return frozenset(["cut"])
        if (m.qual, flag) in self.memo: return self.memo[m.qual, flag]
        if m.qual in self.busy: return frozenset()
        self.busy.add(m.qual); out = frozenset(); g = self.g(m)
        for q in self.paths(m, flag):
            t = q.close(("var", g.root.id, "$ret"))
            s = self.status(t, flag)
            if not s or t[0] in ("list", "var", "dict"): s = self.everything(g, q, flag)
            for b, v in q.events:
                sb, sv = self.status(b, flag), self.status(v, flag)
                if flag and sb == {"cut"} and sv - {"cut"} or not flag and sv - {"full"}: s = s | sv
            out |= s
        self.busy.discard(m.qual); self.memo[m.qual, flag] = out
        return out

    def everything(self, g, q, flag):
        """the tables read on a path (for figures that are collected in lists)"""
        out = frozenset()
        for n in q.nodes:
            n = g.nodes[n] if isinstance(n, int) else n
            if n.kind == "assign" and n.value is not None: out |= self.surface(n.value, flag)
            if n.kind == "call":
                for x in ([n.recv] if n.recv is not None else []) + list(n.args): out |= self.surface(x, flag)
            if n.kind == "loophead" and n.iter is not None: out |= self.surface(n.iter, flag)
        return out

    def surface(self, t, flag):
        out = frozenset()
        def w(x):
            nonlocal out
            if isinstance(x, tuple):
                if len(x) == 3 and x[0] == "attr" and x[1][0] == "var" and x[1][-1] == "self":
                    out |= self.status(x, flag)
                for y in x: w(y)
        w(t); return out


def settings(ck):
    """whoever knows the settings hands them to the post processor"""
    k = 0
    for c in ck.p.all_classes():
        if not c.mod.name.startswith(("prodsys.", "app.")) or c.name == "PostProcessor": continue
        init = c.find_method("__init__")
        fields = set(c.all_fields()) | ({s.attr for s in ck.graph(init, inline=lambda f: False).stores()} if init is not None and init.cls is c else set())
        if "warm_up_cutoff" not in fields: continue
        if init is not None:
            g = ck.graph(init, inline=lambda f: False)
            for a in ("warm_up_cutoff", "cut_off_method"):
                ss = [s for s in g.stores(a) if s.id in g.live()]
                if a in init.all_params(): ck.ob("settings-reach", f"{c.name}/{a}", bool(ss) and all(g.r(s.value, s) == a for s in ss), f"the setting {a} is not kept as given", init.loc)
        for m in c.methods.values():
            g = ck.graph(m, inline=lambda f: False)
            for n in g.calls("PostProcessor"):
                if n.id not in g.live(): continue
                k += 1
                got = {kk: g.r(v, n) for kk, v in n.kw.items() if kk}
                for i, a in enumerate(n.args):
                    fs = list(ck.p.cls(POST).all_fields())
                    if i < len(fs): got[fs[i]] = g.r(a, n)
                for a in ("warm_up_cutoff", "cut_off_method"):
                    ck.ob("settings-reach", f"{c.name}.{m.name}/{a}", got.get(a) == f"self.{a}", f"the results are computed with {a} = {got.get(a, 'the default')} and not with the one that was asked for", n.loc)
    ck.need("post processors created with settings", k, 1)


def definition(ck, X):
    """the cut-off point is found with the configured method on the throughput times in order of their start"""
    C = X.C; k = 0
    for name in sorted(X.definers):
        m = C.find_method(name); g = X.g(m)
        calls = [n for n in g.nodes if n.id in g.live() and asks(n)]
        for n in calls:
            k += 1
            ck.ob("phase-defined", f"{name}/method", any(g.r(a, n) == "self.cut_off_method" for a in list(n.args) + list(n.kw.values())), "the end of the warm-up phase is not looked for with the configured method", n.loc)
            fr = (list(n.args) + list(n.kw.values()))[0]
            d, v = (leaves(g, fr, n) or [(n, fr)])[0]
            srt = [c for c in g.calls("sort_values") if c.id in g.live() and (g.dominates(c, n))]
            by = [c for c in srt if (c.kw.get("by") or (c.args[0] if c.args else None)) in (("const", "Start_time"), ("list", (("const", "Start_time"),))) and c.kw.get("ascending", ("const", True)) == ("const", True)]
            ck.ob("phase-defined", f"{name}/order", bool(by), "the products are not ordered by their start when the end of the warm-up phase is looked for", n.loc)
            ck.ob("phase-defined", f"{name}/column", any(a == ("const", "Throughput_time") for a in list(n.args) + list(n.kw.values())), "the warm-up phase is not taken from the throughput times", n.loc)
        # rows that are kept: the later ones
        for q in paths(g, loop=1, limit=4000):
            t = q.close(("var", g.root.id, "$ret"))
            if t[0] == "item":
                ix = t[2]; mm = ix[1][0] if ix[0] == "tuple" and ix[1] else ix
                if mm[0] == "cmp":
                    a, op, b = mm[2], mm[1], mm[3]
                    if b[0] == "item" and b[2] == ("const", "Start_time") and not (a[0] == "item" and a[2] == ("const", "Start_time")): a, b = b, a; op = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op)
                    ok = a[0] == "item" and a[2] == ("const", "Start_time") and op in (">", ">=")
                    k += 1; ck.ob("phase-defined", f"{name}/rest", ok, f"the products kept are those with {g.render(mm)[:100]}", m.loc)
    ck.need("definition of the warm-up phase", k, 1)
    M = "prodsys.util.warm_up_post_processing"
    f = ck.p.func(M + ".get_warm_up_cutoff_index")
    g = ck.graph(f, inline=lambda x: False)
    meth = f.params()[2]
    impl = {n for n in ("mser5", "threshold_stabilization", "static_ratio")}
    seen = set()
    for q in paths(g, loop=1, limit=500):
        t = q.close(("var", g.root.id, "$ret"))
        want = None; neg = set()
        for a, pol in q.order:
            if a[0] == "cmp" and a[1] in ("==", "!=") and a[3][0] == "const" and g.render(a[2]).endswith(meth):
                if (a[1] == "==") == pol: want = a[3][1]
            elif a[0] == "cmp" and a[1] in ("==", "!=") and a[2][0] == "const" and g.render(a[3]).endswith(meth):
                if (a[1] == "==") == pol: want = a[2][1]
        if t[0] in ("pcall", "call"):
            nm = X.method(t)[1] if t[0] == "pcall" else g.nodes[t[1]].get("name")
            nm = str(nm).split(".")[-1]
            if want in impl: seen.add(want); ck.ob("phase-defined", f"method {want}", nm == want, f"the method {want} is answered by {nm}", f.loc)
    for w in sorted(impl - seen):
        if seen: ck.ob("phase-defined", f"method {w}", False, f"the method {w} is not available", f.loc)
    ends = [m for m in C.methods.values() if X.member(m) and X.is_end(("attr", ("var", 0, "self"), m.name)) and m.name == "warm_up_cutoff_time"]
    for m in ends:
        g = X.g(m)
        for r in returns(g):
            for d, v in leaves(g, r.value, r):
                txt = g.r(v, d)
                ok = v == ("const", 0.0) or v == ("const", 0) or v[0] == "call" and g.nodes[v[1]].get("name") == "min" and any(x in txt for x in X.definers) and "Start_time" in txt
                ck.ob("phase-defined", f"{m.name}", ok, f"the warm-up phase ends with {txt[:80]}, not with the start of the first product that is kept", d.loc)


def check(ck):
    X = Cut(ck)
    ck.ob("cut-off-respected", "definition", len(X.definers) >= 1, "no table determines the end of the warm-up phase with the configured method", X.C.loc)
    k = 0
    for name, m in sorted(X.C.methods.items()):
        if not KPI.match(name) or name.startswith("dynamic"): continue
        on, off = X.of(m, True), X.of(m, False); k += 1
        ck.ob("cut-off-respected", f"{name}/cut", on == {"cut"}, f"with the warm-up phase cut off it is computed from {what(on)}", m.loc)
        ck.ob("cut-off-respected", f"{name}/full", off == {"full"}, f"without cutting off it is computed from {what(off)}", m.loc)
    ck.need("aggregated figures", k, 12)
    settings(ck)
    definition(ck, X)
    funcs = [f for f in p24.scope(ck.p) if f.mod.name == X.C.mod.name]
    F = Frames(ck, funcs, p24.owners())
    for f in funcs:
        if f.cls is None or not F.g(f).live(): continue
        if any("warm_up" in a or a in X.definers for n in F.g(f).nodes for a in X.attrs(n)):
            v, n = F.violations(f)
            for node, table, text in v: ck.ob("tables-kept", f"{f.short}/{table}", False, f"cutting off changes {table} itself ({text})", node.loc)
            ck.ob("tables-kept", f.short, True, "", f.loc)


def what(s):
    return " and ".join({"full": "the whole log", "cut": "the part after the warm-up phase", "early": "the warm-up phase"}[x] for x in sorted(s)) or "nothing of the log"
