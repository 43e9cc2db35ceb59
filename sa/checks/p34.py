"""P34 KPIs say what they stand for."""
TECHNIQUE = "path-wise evaluation of one pass through every loop that builds KPIs or log events: class, name, levels and provenance (table and column) of every field; completeness of the sweeps and of the report"
NOTE = "That the numbers in the underlying tables are right is P24, P25 and, beyond what a static argument reaches, not applicable."
import ast, re
from ..lib import *
from .. import peval
from .p23 import complete

PP = "prodsys.util.post_processing.PostProcessor"
PI = "prodsys.models.performance_indicators"
SP = ("SYSTEM", "PRODUCT_TYPE"); ALL = ("SYSTEM", "ALL_PRODUCTS")
MEAN = {"DynamicThroughputTime": ("DYNAMIC_THROUGHPUT_TIME", "min"), "ThroughputTime": ("TRHOUGHPUT_TIME", "min"), "Throughput": ("THROUGHPUT", "max"), "Output": ("OUTPUT", "max"), "Cost": ("COST", "min"), "WIP": ("WIP", "min"), "AuxiliaryWIP": ("AUXILIARY_WIP", "min"), "DynamicWIP": ("DYNAMIC_WIP", "min"),
        "ProcessingTime": ("PROCESSING_TIME", "min"), "ProductiveTime": ("PRODUCTIVE_TIME", "max"), "StandbyTime": ("STANDBY_TIME", "min"), "SetupTime": ("SETUP_TIME", "min"), "ChargingTime": ("CHARGING_TIME", "min"), "UnscheduledDowntime": ("UNSCHEDULED_DOWNTIME", "min")}
CODES = {"SB": "StandbyTime", "PR": "ProductiveTime", "UD": "UnscheduledDowntime", "ST": "SetupTime", "CR": "ChargingTime"}
# what is built from which table: class -> field -> column
SPEC = {
    "dynamic_thoughput_time_KPIs": ({"df_throughput"}, {"DynamicThroughputTime": {"value": "Throughput_time", "product": "Product", "product_type": "Product_type", "start_time": "Start_time", "end_time": "End_time"}}, ("SYSTEM", "PRODUCT")),
    "aggregated_throughput_time_KPIs": ({"df_aggregated_throughput_time"}, {"ThroughputTime": {"value": "Throughput_time", "product_type": "Product_type"}}, SP),
    "throughput_and_output_KPIs": ({"df_aggregated_output_and_throughput"}, {"Throughput": {"value": "Throughput", "product_type": "Product_type"}, "Output": {"value": "Output", "product_type": "Product_type"}}, SP),
    "machine_state_KPIS": ({"df_aggregated_resource_states"}, {c: {"value": "percentage", "resource": "Resource"} for c in CODES.values()}, ("RESOURCE",)),
    "WIP_KPIs": ({"df_aggregated_WIP"}, {"WIP": {"value": "WIP", "product_type": "Product_type"}}, None),
    "auxiliary_WIP_KPIs": ({"df_aggregated_auxiliary_WIP"}, {"AuxiliaryWIP": {"value": "auxiliary_WIP", "product_type": "Auxiliary_type"}}, None),
    "dynamic_WIP_KPIs": ({"df_WIP", "df_WIP_per_product"}, {"DynamicWIP": {"value": "WIP", "product_type": "Product_type", "start_time": "Time", "end_time": "next_Time"}}, None),
}
REPORT = ("WIP_KPIs", "throughput_and_output_KPIs", "aggregated_throughput_time_KPIs", "machine_state_KPIS")


def check(ck):
    C = ck.p.cls(PP)
    stop = tuple(m for k in C.mro() for m in k.methods if m.startswith(("df_", "get_df", "get_WIP", "get_aux")) or m == "warm_up_cutoff_time")
    for m in SPEC: kpis(ck, C, m, stop)
    intervals(ck, C, stop)
    meanings(ck)
    selection(ck)
    performance(ck)
    events(ck)


# ---- cells ----------------------------------------------------------------------------------
class Cells:
    """(table, column) a closed term reads; index and value of a series under the names the aggregation gives them"""
    def __init__(self, ck, C, g, stop): self.ck, self.C, self.g, self.stop = ck, C, g, stop; self.names = {}

    def table(self, t):
        """the tables a term is made of, through copies, conversions and concatenation"""
        t = self.g.resolve(t, None) if t[0] == "var" else t
        s = self.g.render(t)
        return {x for x in re.findall(r"self\.(df_\w+)", s)}

    def series(self, tab):
        """(index name, value name) of the last aggregation of a table"""
        if tab not in self.names:
            out = (None, None); f = self.C.find_method(tab)
            if f:
                h = self.ck.graph(f, selfcls=self.C, stop=self.stop)
                for r in returns(h):
                    for d, v in leaves(h, r.value, r): out = aggregation(h, v, d) or out
            self.names[tab] = out
        return self.names[tab]

    def row(self, it, kind, k):
        """what the k-th part of one element of an iteration is"""
        if it[0] != "call": return None
        n = self.g.nodes[it[1]]
        if n.name == "enumerate" and n.args and k == 1: return ("inner", self.g.resolve(n.args[0], n))
        if n.recv is None and n.name == "zip" and k is not None and k < len(n.args): return ("cell", self.column(self.g.resolve(n.args[k], n)))
        if n.recv is None: return None
        tabs = frozenset(self.table(self.g.resolve(n.recv, n)))
        if n.name in ("iterrows", "items", "iteritems"):
            if k == 0: return ("cell", (tabs, self.index(tabs)))
            if k == 1: return ("row", tabs) if n.name == "iterrows" else ("cell", (tabs, self.value(tabs)))
        if n.name in ("itertuples", "to_dict") and k is None: return ("row", tabs)
        return None

    def index(self, tabs): return next((self.series(t)[0] for t in tabs), None) if len(tabs) == 1 else None
    def value(self, tabs): return next((self.series(t)[1] for t in tabs), None) if len(tabs) == 1 else None

    def column(self, t):
        if t[0] == "call" and self.g.nodes[t[1]].name in ("list", "tolist", "to_list", "copy") and (self.g.nodes[t[1]].args or self.g.nodes[t[1]].recv is not None):
            n = self.g.nodes[t[1]]
            return self.column(self.g.resolve(n.args[0] if n.args else n.recv, n))
        if t[0] == "item" and t[2][0] == "const": return (frozenset(self.table(t[1])), t[2][1])
        if t[0] == "attr" and t[2] == "index": tabs = frozenset(self.table(t[1])); return (tabs, self.index(tabs))
        if t[0] == "attr" and t[2] == "values":
            c = self.column(t[1])
            if c: return c
            tabs = frozenset(self.table(t[1])); return (tabs, self.value(tabs))
        return None

    def part(self, t):
        """('row', tables) / ('cell', (tables, column)) of a closed term"""
        if t[0] == "unpack" and t[1][0] == "elem": return self.row(t[1][1], None, t[2])
        if t[0] == "item" and t[1][0] == "elem" and t[2][0] == "const" and isinstance(t[2][1], int): return self.row(t[1][1], None, t[2][1])
        if t[0] == "elem":
            r = self.row(t[1], None, None)
            if r: return r
            c = self.column(t[1])
            return ("cell", c) if c else None
        if t[0] == "unpack" and t[1][0] == "unpack":
            r = self.part(t[1])
            return self.row(r[1], None, t[2]) if r and r[0] == "inner" else None
        return None

    def cell(self, t):
        p = self.part(t)
        if p and p[0] == "cell": return p[1]
        if t[0] in ("item", "attr"):
            p = self.part(t[1]); c = t[2][1] if t[0] == "item" and t[2][0] == "const" else t[2] if t[0] == "attr" else None
            if p and p[0] == "row" and isinstance(c, str): return (p[1], self.index(p[1]) if t[0] == "attr" and c in ("Index", "name") else c)
        if t[0] == "call":
            n = self.g.nodes[t[1]]
            if n.name in ("float", "str", "int") and len(n.args) == 1: return self.cell(self.g.resolve(n.args[0], n))
            if n.name == "get" and n.recv is not None and n.args: return self.cell(("item", self.g.resolve(n.recv, n), n.args[0]))
        return None


def aggregation(g, t, n):
    """(index, values) of the aggregation a table ends with: follows the chain of receivers, which keep the index"""
    col = None
    for _ in range(20):
        ls = leaves(g, t, n)
        if len(ls) != 1: return None
        n, t = ls[0]
        if t[0] == "item":
            if t[2][0] == "const": col = t[2][1]
            t = t[1]
        elif t[0] == "attr": t = t[1]
        elif t[0] == "call":
            c = g.nodes[t[1]]
            if c.name == "groupby":
                m = re.fullmatch(r"\[?'(\w+)'\]?", g.r((list(c.args) + list(c.kw.values()))[0], c)) if c.args or c.kw else None
                return (m.group(1), col) if m else None
            if c.name == "reset_index" or c.recv is None: return None
            t, n = c.recv, c
        else: return None
    return None


def kinds(g, t):
    """[(class, name constraint code or None, key term)] a closed constructor term may stand for"""
    if t[0] == "class": return [(t[1].rsplit(".", 1)[-1], None, None)]
    path = []
    while t[0] in ("item", "unpack") and not (t[0] == "item" and t[1][0] == "dict"):
        path.append(t[2][1] if t[0] == "item" and t[2][0] == "const" else t[2]); t = t[1]
    if t[0] == "item" and t[1][0] == "dict":
        out = []
        for k, v in t[1][1]:
            for i in reversed(path): v = v[1][i] if v[0] in ("tuple", "list") and isinstance(i, int) and i < len(v[1]) else ("unk",)
            out.append((v, k[1] if k[0] == "const" else None, t[2]))
        return out
    return []


def named(g, t):
    """{code: value} of a name looked up by code, or the value itself"""
    if t[0] == "member": return t[2]
    return {code: v for v, code, key in kinds(g, t)} or None


def added(g):
    """additions, x += [a, b] and x.extend([a, b])"""
    out = list(additions(g))
    for n in g.nodes:
        if n.kind == "assign" and n.value[0] == "bin" and n.value[1] == "+":
            for x, y in (n.value[2:4], n.value[3:1:-1]):
                if x[0] == "list": out += [(n, e, y) for e in x[1]]
        elif n.kind == "call" and n.name == "extend" and n.recv is not None and len(n.args) == 1 and n.args[0][0] in ("list", "tuple"): out += [(n, e, n.recv) for e in n.args[0][1]]
    return out


def kpis(ck, C, m, stop):
    f = C.find_method(m)
    ck.need(f"KPI list {m}", 1 if f else 0)
    g = ck.graph(f, selfcls=C, stop=stop); cells = Cells(ck, C, g, stop)
    tabs, classes, ctx = SPEC[m]
    cand = {}
    for a, v, t in added(g):
        if a.id not in g.live(): continue
        for d, x in leaves(g, v, a):
            if x[0] == "call" and ("name" in g.nodes[x[1]].kw or "context" in g.nodes[x[1]].kw): cand.setdefault(x[1], []).append(a)
    if not cand: ck.ob("built", m, False, "no KPI is built", f.loc); return
    heads = {innermost(g, a) for c in cand for a in cand[c]}
    if None in heads: ck.ob("built", f"{m}/rows", False, "the KPIs are not built row by row", f.loc); return
    def on(st, n):
        if n.id in cand:
            st.env[("$", n.id)] = (st.close(n.func) if isinstance(n.func, tuple) else None, tuple((k, st.close(v)) for k, v in n.kw.items()), tuple((st.close(t), pol) for t, pol in st.order))
    adds = {}
    for c in cand:
        for a in cand[c]: adds.setdefault(a.id, []).append(c)
    seen_codes = set(); direct = set()
    totals = {}
    for h in sorted(heads, key=lambda h: h.id):
        ck.ob("built", f"{m}/all rows", complete(g, h) and len([x for x in g.loops_of(h) if x is not h]) == 0, "not every row of the table gives its KPIs", h.loc)
        ok = cells.table(g.resolve(h.iter, h)) == tabs
        ck.ob("built", f"{m}/table", ok, f"the KPIs are built from {sorted(cells.table(g.resolve(h.iter, h)))} instead of {sorted(tabs)}", h.loc)
        src = g.r(h.iter, h)
        if m == "dynamic_WIP_KPIs": src = re.sub(r"(?:\.loc)?\[\(0 != (?:(?!\.loc|\[\().)*\['WIP_Increment'\]\)\]", "", src, count=1)
        locs = len(re.findall(r"\.loc\[", src))
        short = re.search(r"\.(head|tail|sample|nlargest|nsmallest|dropna|drop_duplicates|query|iloc|drop|truncate|filter|islice)\b|(?<!loc)\[\(|slice|\[:|:\]|islice", src)
        ck.ob("built", f"{m}/whole table", not short and not locs, f"only a part of the table gives KPIs ({src[:160]})", h.loc)
        for st in peval.paths(g, lambda n: n is h, iter_edge(g, h), on=on, outer=h, limit=800):
            if st.end is not h: continue
            built = {}
            here = [c for n in st.nodes for c in adds.get(n.id, ())]
            for cid in here:
                rec = st.env.get(("$", cid)); c = g.nodes[cid]
                if rec is None: continue
                func, kw, lits = rec; kw = dict(kw)
                ks = kinds(g, func)
                if not ks: ck.ob("built", f"{m}/class", False, f"the class of the KPI is unknown ({g.render(func)})", c.loc); continue
                nm = named(g, kw["name"]) if "name" in kw else None
                for k, code, key in ks:
                    cls = k if isinstance(k, str) else k[1].rsplit(".", 1)[-1] if k[0] == "class" else "?"
                    built[cls] = built.get(cls, 0) + 1
                    n_ = nm.get(code) if isinstance(nm, dict) else nm
                    n_ = n_ if isinstance(n_, str) or n_ is None else n_[2] if n_[0] == "member" else "?"
                    want = MEAN.get(cls, ("?",))[0]
                    ck.ob("named", f"{m}/{cls}", n_ == want or n_ is None and cls == "Output", f"a {cls} KPI is called {n_}", c.loc)
                    ck.ob("named", f"{m}/kind {cls}", cls in classes, f"a {cls} KPI is reported among {m}", c.loc)
                    if m == "machine_state_KPIS":
                        if key is not None: src = cells.cell(key); ck.ob("named", f"{m}/code", bool(src) and src[1] == "Time_type", "the kind of time is not taken from the row", c.loc)
                        else:
                            direct.add(cls)
                            code = next((x for x in CODES for t, pol in lits if pol and equals(cells, t, "Time_type", x)), None)
                        seen_codes.add((code, cls))
                    for fld, col in classes.get(cls, {}).items():
                        v = kw.get(fld)
                        if v is None: ck.ob("same row", f"{m}/{cls}.{fld}", False, f"{fld} is not given", c.loc); continue
                        total = [pol for t, pol in lits if equals(cells, t, col, "Total")]
                        if fld == "product_type" and ctx is None and total and total[-1] and (v[0] == "member" and v[2] == "ALL_PRODUCTS" or v == ("const", "Total") or v == ("const", "all_products")): continue
                        src = cells.cell(v)
                        ck.ob("same row", f"{m}/{cls}.{fld}", bool(src) and src[1] == col and set(src[0]) <= tabs, f"{fld} is {g.render(v)[:120]} instead of the {col} of the row", c.loc)
                want = ctx
                if ctx is None:
                    col = next(iter(classes.values()))["product_type"]
                    total = [pol for t, pol in lits if equals(cells, t, col, "Total")]
                    want = None if not total else ALL if total[-1] else SP
                lv = kw.get("context"); lv = [x[2] if x[0] == "member" else "?" for x in lv[1]] if lv and lv[0] in ("tuple", "list", "set") else None
                if want is None: ck.ob("levels", f"{m}/total", False, "the total is not told from the product types", c.loc)
                else: ck.ob("levels", f"{m}/{'total' if want == ALL else 'row'}", lv is not None and sorted(lv) == sorted(want), f"the KPI refers to {lv} instead of {list(want)}", c.loc)
            if m == "machine_state_KPIS":
                if not direct: ck.ob("built", f"{m}/once", len(here) == 1, "a row gives no or several KPIs", h.loc)
            else: totals.setdefault(h.id, []).append(built)
    if m != "machine_state_KPIS":
        for i in range(max(map(len, totals.values()), default=1)):
            built = {}
            for x in totals.values():
                for c, k in x[min(i, len(x) - 1)].items(): built[c] = built.get(c, 0) + k
            ck.ob("built", f"{m}/once", built == {c: 1 for c in classes}, f"one row gives {built} instead of one KPI of each of {sorted(classes)}", h.loc)
    if m == "machine_state_KPIS":
        ck.ob("named", f"{m}/codes", seen_codes == set(CODES.items()), f"the kinds of time are reported as {sorted(map(str, seen_codes ^ set(CODES.items())))}", f.loc)
    lists = {t for a, v, t in added(g) if a.id in adds}; lists = {y for t in lists for d, y in leaves(g, t, h)} | lists
    for r in returns(g):
        for d, v in leaves(g, r.value, r): ck.ob("built", f"{m}/answer", v in lists or v[0] == "call" and g.nodes[v[1]].name in ("list", "sorted"), "what is returned is not the list of the KPIs", r.loc)


def equals(cells, t, col, const):
    if t[0] != "cmp" or t[1] not in ("==", "is", "Eq"): return False
    a, b = t[2], t[3]
    if a[0] == "const": a, b = b, a
    if b != ("const", const): return False
    c = cells.cell(a)
    return bool(c) and c[1] == col


def intervals(ck, C, stop):
    """a dynamic WIP lasts from its event to the next one of the same kind; the whole system is called Total"""
    f = C.find_method("dynamic_WIP_KPIs"); g = ck.graph(f, selfcls=C, stop=stop)
    st = {}
    for n in g.nodes:
        if n.id in g.live() and n.kind == "substore": st.setdefault(g.r(n.index, n), []).append(n)
    nxt = st.get("'next_Time'", [])
    ok = any(re.search(r"groupby\((by=)?\[?'Product_type'\]?\)\['Time'\]\.shift\((periods=)?-1\)", g.r(n.value, n)) for n in nxt)
    ck.ob("interval", "until the next", ok, "a dynamic WIP does not last until the next event of its product type", (nxt or [g.entry])[0].loc if nxt else f.loc)
    ok = [n for n in st.get("'Product_type'", []) if g.r(n.value, n) == "'Total'"]
    ck.ob("interval", "total", bool(ok) and all(re.search(r"self\.df_WIP(?!_)", g.r(n.base, n)) for n in ok), "the WIP of the whole system is not told from that of the product types", f.loc)


# ---- model ----------------------------------------------------------------------------------
def literal(ann):
    if isinstance(ann, ast.Subscript) and getattr(ann.value, "id", getattr(ann.value, "attr", "")) == "Literal":
        e = ann.slice.elts if isinstance(ann.slice, ast.Tuple) else [ann.slice]
        return [x.attr if isinstance(x, ast.Attribute) else x.value if isinstance(x, ast.Constant) else "?" for x in e]
    return None


def meanings(ck):
    p = ck.p; K = p.cls(PI + ".KPI"); mod = K.mod
    union = mod.consts.get("KPI_UNION")
    members = {x.id for x in ast.walk(union) if isinstance(x, ast.Name)} if union is not None else set()
    for c in p.subclasses(K):
        if c.name not in MEAN: continue
        name, target = MEAN[c.name]
        a = c.find_field("name"); lit = literal(a[1][0]) if a else None
        ck.ob("meaning", f"{c.name}/name", lit == [name], f"a {c.name} KPI can be called {lit}", c.loc)
        a = c.find_field("target"); lit = literal(a[1][0]) if a else None
        d = a and a[1][1]
        ck.ob("meaning", f"{c.name}/target", lit == [target] and isinstance(d, ast.Constant) and d.value == target, f"the favourable direction of {c.name} is {lit}", c.loc)
        ck.ob("meaning", f"{c.name}/reported", c.name in members, f"a {c.name} KPI cannot be part of a report", c.loc)


def loose(g, t, n, depth=0):
    """(order-insensitive, innermost value) of a compared level list"""
    d, v = (leaves(g, t, n) + [(n, t)])[0]
    if v[0] == "call" and g.nodes[v[1]].name in ("tuple", "list", "sorted", "set", "frozenset", "Counter") and len(g.nodes[v[1]].args) >= 1 and depth < 4:
        c = g.nodes[v[1]]; k, x = loose(g, c.args[0], c, depth + 1)
        return ("sorted" if c.name == "sorted" else "set" if c.name in ("set", "frozenset", "Counter") else k), x
    return None, g.r(v, d)


def validator_sorts(ck):
    K = ck.p.cls(PI + ".KPI")
    for c in K.mro():
        for f in c.methods.values():
            if any("validator" in ast.unparse(d) and "'context'" in ast.unparse(d) for d in f.node.decorator_list):
                g = ck.graph(f)
                rs = [v for r in returns(g) for v in leaves(g, r.value, r)]
                return bool(rs) and all(loose(g, v, d)[0] == "sorted" for d, v in rs)
    return False


def selection(ck):
    """KPIs are found by their levels whatever the order these are given in, and by their name"""
    P = ck.p.cls("prodsys.models.performance_data.Performance"); stored = validator_sorts(ck)
    for m, by in (("get_kpi_for_context", {"context"}), ("get_kpi_for_name", {"name"}), ("get_kpi_for_context_and_name", {"context", "name"})):
        f = P.find_method(m); ck.need(f"selection {m}", 1 if f else 0)
        g = ck.graph(f, selfcls=P); K = "elem(self.kpis)"
        done = set(); other = []; bad = []
        answers = [x for r in returns(g) for x in leaves(g, r.value, r)]
        whole = bool(answers) and all(chosen(g, v, d, K, by, stored, done, other, bad) for d, v in answers)
        ck.ob("found", f"{m}/all", whole, "not all KPIs of the report are looked at", f.loc)
        ck.ob("found", f"{m}/order of levels", not bad, "a KPI is only found if its levels are given in the order in which they are stored", bad[0].loc if bad else f.loc)
        ck.ob("found", f"{m}/condition", done == by and not other, f"the KPIs are selected by {sorted(done)} {other} instead of {sorted(by)}", f.loc)


def chosen(g, t, n, K, by, stored, done, other, bad, depth=0):
    """are these all KPIs of the report that fulfil conditions, which are collected?"""
    if depth > 4: return False
    if g.r(t, n) == "self.kpis": return True
    if t[0] == "call" and g.nodes[t[1]].name in ("list", "tuple") and len(g.nodes[t[1]].args) == 1:
        c = g.nodes[t[1]]
        return all(chosen(g, v, d, K, by, stored, done, other, bad, depth + 1) for d, v in leaves(g, c.args[0], c))
    es = [(a, v) for a, v, tgt in additions(g) if a.id in g.live() and (tgt == t or any(y == t and d.id == n.id for d, y in leaves(g, tgt, a)) if t[0] != "comp" else tgt[0] == "comp" and tgt[-1] == t[-1])]
    if len(es) != 1: return False
    a, v = es[0]; h = innermost(g, a)
    if h is None or not complete(g, h): return False
    x = [y for d, y in leaves(g, v, a)]
    if len(x) != 1 or x[0][0] != "elem" or x[0][2] != h.id: return False
    me = g.r(v, a)
    for b, s, pol in g.guard_atoms(a):
        if not g.dominates(h, b): continue
        c = only_cmp(g, b)
        if c is None: other.append(s); continue
        ka, xa = loose(g, c[2], b); kb, xb = loose(g, c[3], b)
        if xa.startswith(me): ka, xa, kb, xb = kb, xb, ka, xa
        hit = next((y for y in by if xb == f"{me}.{y}" and xa == y), None)
        if hit is None or (c[1] in ("==", "Eq")) != pol: other.append(s); continue
        done.add(hit)
        if hit == "context" and not (ka == "set" and kb == "set" or ka == "sorted" and (kb == "sorted" or kb is None and stored)): bad.append(b)
    return all(chosen(g, y, d, K, by, stored, done, other, bad, depth + 1) for d, y in leaves(g, h.iter, h))


def only_cmp(g, b):
    t = b.term
    for d, v in leaves(g, t, b):
        while v[0] == "not": v = v[1]
        return v if v[0] == "cmp" and v[1] in ("==", "!=", "Eq", "NotEq") else None


# ---- report ---------------------------------------------------------------------------------
def runner(ck):
    for c in ck.p.all_classes():
        if c.qual.startswith("prodsys.") and "get_performance_data" in c.methods: return c
    ck.need("report", 0)


def performance(ck):
    R = runner(ck); f = R.find_method("get_performance_data")
    g = ck.graph(f, selfcls=R, stop=tuple(SPEC) + ("get_event_data_of_simulation", "get_post_processor"))
    cs = [n for n in g.calls("Performance") if n.id in g.live()]
    ck.ob("report", "get_performance_data", len(cs) == 1, "no report is made", f.loc)
    for c in cs:
        # every way to the report collects the same lists: evaluated along each path
        def on(st, n):
            if n.kind == "call" and n.name == "extend" and n.recv is not None and n.recv[0] == "var" and n.args:
                k = ("$", "ext", n.recv[1:]); st.env[k] = st.env.get(k, ()) + tuple(collected(g, st, st.close(n.args[0])))
        for st in peval.paths(g, lambda n: n is c, g.entry, limit=200, on=on):
            if st.end is not c or impossible(g, st): continue
            got = collected(g, st, st.close(c.kw.get("kpis", ("unk",)))) + extended(g, st, c.kw.get("kpis", ("unk",)))
            for m in REPORT: ck.ob("report", f"lists/{m}", got.count(m) == 1, f"{m} is contained {got.count(m)} times in the report", c.loc)
            ck.ob("report", "lists/others", all(x in SPEC for x in got), f"the report contains {[x for x in got if x not in SPEC]}", c.loc)
        ev = [g.r(v, d) for d, v in leaves(g, c.kw.get("event_log", ("unk",)), c)]
        ck.ob("report", "events", ev == ["self.get_event_data_of_simulation()"], f"the event log of the report is {ev}", c.loc)
        for r in returns(g): ck.ob("report", "answer", all(v == ("call", c.id) for d, v in leaves(g, r.value, r)), "the report is not what is returned", r.loc)


def collected(g, st, t, target=None):
    """names of the KPI lists a list is made of"""
    if t[0] == "bin" and t[1] == "+": return collected(g, st, t[2]) + collected(g, st, t[3])
    if t[0] in ("list", "tuple"): return [y for x in t[1] for y in (collected(g, st, x[1]) if x[0] == "star" else ["?"])]
    if t[0] == "elem" and t[1][0] in ("list", "tuple"): return [y for x in t[1][1] for y in collected(g, st, x)]
    if t[0] == "call" and g.nodes[t[1]].name in ("list", "chain") and g.nodes[t[1]].args: return [y for a in g.nodes[t[1]].args for y in collected(g, st, st.close(a))]
    m = re.search(r"\.(\w+)(\(\))?$", g.render(t))
    return [m.group(1)] if m else ["?"]


def extended(g, st, t):
    """what was appended in place to the list on the path"""
    return list(st.env.get(("$", "ext", t[1:]), ())) if t[0] == "var" else []


def impossible(g, st):
    """does the path pass by a loop over something that is never empty?"""
    for h in st.nodes:
        if h.kind != "loophead" or h.iter is None: continue
        it = g.resolve(h.iter, h)
        if it[0] in ("list", "tuple") and it[1] and iter_edge(g, h) not in st.nodes: return True
    return False


EVENT = {"time": "Time", "resource": "Resource", "state": "State", "state_type": "State Type", "activity": "Activity", "product": "Product", "expected_end_time": "Expected End Time", "target_location": "Target location"}


def events(ck):
    R = runner(ck); f = R.find_method("get_event_data_of_simulation"); ck.need("event report", 1 if f else 0)
    g = ck.graph(f, selfcls=R, stop=("get_data_as_dataframe", "get_post_processor"))
    es = []
    for a, v, t in additions(g):
        if a.id not in g.live(): continue
        for d, x in leaves(g, v, a):
            if x[0] == "call" and g.nodes[x[1]].name == "Event": es.append((a, g.nodes[x[1]]))
    ck.ob("events", "entry", len(es) == 1, "the events are not reported", f.loc)
    for a, c in es:
        h = innermost(g, a)
        if h is None: ck.ob("events", "all", False, "not every event is reported", a.loc); continue
        src = g.r(h.iter, h)
        ok = re.fullmatch(r"self\.event_logger\.get_data_as_dataframe\(\)(\.copy\(\))?\.(iterrows|itertuples|to_dict)\(.*\)", src) is not None
        from .p23 import per_pass
        ck.ob("events", "all", ok and complete(g, h) and per_pass(g, h, {a.id}) == {1}, f"not every event of the log is reported once ({src})", h.loc)
        for k, col in EVENT.items():
            vs = [re.sub(r"^(?:float|str)\((.*)\)$", r"\1", g.r(v, d)) for d, v in leaves(g, c.kw.get(k, ("unk",)), c)]
            ck.ob("events", k, bool(vs) and all(re.search(r"\[%s\]$" % re.escape(repr(col)), v) and "elem(" in v for v in vs), f"the {k} of an event is {[v[-60:] for v in vs]}", c.loc)
    for n in g.nodes:
        if n.id in g.live() and n.kind == "substore":
            k = g.r(n.index, n)
            v = g.r(n.value, n)
            ck.ob("events", f"column {k}", re.search(r"\[%s\]\.fillna\(" % re.escape(k), v) is not None, f"the column {k} is replaced by {v[:120]}", n.loc)
