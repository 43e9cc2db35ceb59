"""P24: analyses never alter the recorded log or a table another analysis uses; every selection applies its conditions."""
import ast
from ..lib import *
from ..frames import *

TECHNIQUE = "ownership (view/copy) analysis of the result tables over the def-use graph of every analysis, with a lint of all row selections"
NOTE = "Which pandas operations return a view and which a new table is fixed in a table of the checker; a table handed to a plotting library is taken to be read only."
LEVEL = "partial"

MODS = ("prodsys.util.post_processing", "prodsys.util.kpi_visualization", "prodsys.util.runner", "prodsys.util.warm_up_post_processing", "prodsys.express.production_system",
        "prodsys.optimization.optimization", "prodsys.optimization.optimization_analysis", "prodsys.simulation.logger", "app.dependencies", "app.routers.performance", "app.routers.plots", "app.routers.optimizer")
POST = "prodsys.util.post_processing.PostProcessor"


def cached(c, name):
    m = c.find_method(name)
    if m is not None: return any(d.endswith("cached_property") for d in m.decorators)
    f = c.find_field(name)
    return bool(f) and name.startswith("df_")


def owners():
    return {"PostProcessor": cached, "EventLogger": lambda c, n: not c.find_method(n), "Logger": lambda c, n: not c.find_method(n), "Performance": lambda c, n: not c.find_method(n)}


def scope(p):
    return [f for f in p.all_funcs() if f.mod.name in MODS]


def loads(g):
    return any(n.kind == "call" and n.get("name") in ("read_csv", "read_json", "read_parquet") for n in g.nodes) and any(s.attr == "df_raw" for s in g.stores("df_raw"))


def tables_unchanged(ck, F, funcs):
    k = 0
    for f in funcs:
        v, n = F.violations(f); k += n
        recorder = f.mod.name == "prodsys.simulation.logger"
        v = [x for x in v if not (recorder and x[1].endswith(".event_data") and x[2].endswith(".append()"))]
        if loads(F.g(f)): v = [x for x in v if x[1] != "PostProcessor.df_raw"]           # reading a log is not an analysis
        for node, table, text in v:
            ck.ob("tables-unchanged", f"{f.short}/{table}", False, f"{text} changes {table}, which other analyses use", node.loc)
        if n and not v: ck.ob("tables-unchanged", f.short, True, "", f.loc)
    ck.need("statements that change a table", k, 60)


def fields_unchanged(ck, funcs, F):
    """an analysis leaves the fields of the post processor alone; results that depend on the run are not kept when it continues"""
    C = ck.p.cls(POST)
    writers = {}
    for f in funcs:
        g = F.g(f)
        for n in g.nodes:
            if n.kind != "store" or n.id not in g.live(): continue
            ty = classes_in(F.own.ttype(g, n.base, n))
            if n.base == ("var", g.root.id, "self") and f.cls is not None: ty = [f.cls]
            if any(c.is_sub(C) for c in ty): writers.setdefault(n.attr, []).append((f, n))
    loaders = {m.qual for m in C.methods.values() if any(g_.kind == "call" and g_.get("name") in ("read_csv", "read_json", "read_parquet") for g_ in F.g(m).nodes)} | {m.qual for m in C.methods.values() if m.name in ("__init__", "__post_init__")}
    for attr, ws in writers.items():
        readers = {m.qual for m in C.methods.values() if any(attr in t for t in attrs_read(m))}
        for f, n in ws:
            ok = f.qual in loaders or not (readers - {f.qual})
            ck.ob("fields-unchanged", f"{f.short}/{attr}", ok, f"an analysis changes {attr} of the post processor, which other analyses read", n.loc)
    ck.ob("fields-unchanged", "PostProcessor", True, "", C.loc)


def attrs_read(m):
    return {n.attr for n in ast.walk(m.node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == "self"}


def current(ck, funcs, F):
    """what is kept of a run is given up when the run goes on"""
    C = ck.p.cls(POST)
    owners_ = {}
    for f in funcs:
        if f.cls is None or f.cls.is_sub(C) or not f.mod.name.startswith("prodsys."): continue
        g = F.g(f)
        for n in g.stores():
            if n.id not in g.live() or n.base != ("var", g.root.id, "self"): continue
            for d, v in leaves(g, n.value, n):
                if v[0] == "call" and classes_in(F.own.ttype(g, v, d)) and any(c.is_sub(C) for c in classes_in(F.own.ttype(g, v, d))) and reads_log(g, v, d): owners_.setdefault((f.cls.qual, n.attr), (f.cls, f, n))
        if any(d.endswith(("cached_property", "lru_cache", ".cache")) or d == "cache" for d in f.decorators):
            src = any(n.kind == "call" and n.get("name") in ("get_post_processor", "get_data_as_dataframe", "PostProcessor") for n in g.nodes)
            ck.ob("results-current", f"{f.short}", not src, "the result is kept although the run may go on", f.loc)
    for (q, attr), (cls, f, n) in sorted(owners_.items(), key=lambda x: x[0]):
        m = 0; found = []
        for h in cls.methods.values():
            if h.node is None: continue
            gh = ck.graph(h, inline=lambda x: False)
            runs = [c for c in gh.calls("run") if c.id in gh.live() and c.recv is not None and any(x.name == "Environment" for x in classes_in(F.own.ttype(gh, c.recv, c)))]
            logs = [s for s in gh.stores("event_logger") if s.id in gh.live() and h.name != "__init__"]
            for c in runs + logs:
                m += 1
                resets = [s for s in gh.stores(attr) if s.id in gh.live() and all(v == ("const", None) or not reads_log(gh, v, d) for d, v in leaves(gh, s.value, s))]
                before = [r for r in gh.stores(attr)]
                ok = bool(resets) and (gh.always_before(c, resets) or gh.always_after(c, resets))
                found.append((h, c, c in runs, ok))
        good = [ok for _, _, r, ok in found if r]
        for h, c, r, ok in found:
            ok = ok or not r and good and all(good)          # every run discards it, and results are those of a run
            ck.ob("results-current", f"{cls.name}.{h.name}/{attr}", bool(ok), f"{attr} still holds the results of the previous run afterwards", c.loc)
        ck.need(f"methods of {cls.name} that change the recorded data", m, 1)


def reads_log(g, v, d):
    if v[0] != "call": return False
    c = g.nodes[v[1]]
    for a in list(c.args) + list(c.kw.values()):
        for dd, x in leaves(g, a, c):
            if x[0] == "call" and g.nodes[x[1]].get("name") in ("get_data_as_dataframe", "DataFrame", "read_csv"): return True
            if x[0] == "attr" and x[2] in ("event_data",): return True
    return False


def log_is_new(ck, F):
    m = ck.p.func("prodsys.simulation.logger.EventLogger.get_data_as_dataframe")
    g = F.g(m)
    for r in returns(g):
        s = {x for x in F.shares(m, r.value, r) if x[0] == "table" and not x[1].endswith(".event_data")}
        ck.ob("log-is-new", m.short, not s, f"every caller gets the same table {', '.join(x[1] for x in s)} and can change it for the others", r.loc)


def numeric_columns(F, funcs):
    out = set()
    for f in funcs:
        g = F.g(f)
        for n in g.nodes:
            if n.kind != "substore" or n.id not in g.live(): continue
            ix = F.leaf(g, n.index, n)[1]
            c = ix[1][-1] if ix[0] == "tuple" and ix[1] else ix
            if c[0] != "const" or not isinstance(c[1], str): continue
            d, v = F.leaf(g, n.value, n)
            if v[0] == "const" and type(v[1]) in (int, float) or v[0] == "neg" or v[0] == "bin" and v[1] in ("+", "-", "*", "/", "//") \
               or v[0] == "call" and g.nodes[v[1]].get("name") in ("cumsum", "cumcount", "mean", "std", "sum", "count", "diff"): out.add(c[1])
    return out


def named(F, g, v, d):
    """A condition, by the columns and constants it is about (not by the function or the variables it is written with)."""
    out = set()

    def go(t, n, depth=0):
        n, t = F.leaf(g, t, n)
        cols = F.columns(g, t, n) if t[0] == "item" else []
        if cols: out.update(str(c[2]) for c in cols); return
        if t[0] in ("bin", "cmp") and depth < 8:
            for x in t[2:4]: go(x, n, depth + 1)
    go(v, d)
    return f"condition on {', '.join(sorted(out))}"


def selections(ck, F, funcs):
    num = numeric_columns(F, funcs); k = 0
    for f in funcs:
        g = F.g(f); bad = set()
        masks = []
        for n, b, m in F.selections(f):
            k += 1
            fr = F.rows(g, b, n); mr = set(); ok = True
            parts = []; F.conjuncts(g, m, n, parts)
            for d, v in parts:
                for t, dd, col in (F.columns(g, v, d) if v[0] == "item" else []):
                    r = F.rows(g, t, dd)
                    if r is None or fr is None or any(x[0] in ("param", "var") for x in r | fr) and r != fr: continue
                    if not (fr <= r): ok = False; why = f"the condition on {col} belongs to the rows of another table"
            if not ok: ck.ob("condition-fits", f"{f.short}/{g.render(b)[:40]}", False, why, n.loc)
            for d, v in parts:
                key = (d.id, str(v))
                if key in bad: continue
                if v[0] == "cmp":
                    for x, y in ((v[2], v[3]), (v[3], v[2])):
                        dx, vx = F.leaf(g, x, d); vy = F.leaf(g, y, d)[1]
                        if F.is_mask(g, x, d) and vx[0] in ("bin", "un") and not (vy[0] == "const" and isinstance(vy[1], bool)) and not F.is_mask(g, y, d):
                            bad |= {key, (dx.id, str(vx))}; ck.ob("every-condition-applies", named(F, g, v, d), False, f"the comparison is made with a combined condition: {g.render(v)[:140]}", d.loc)
                if v[0] == "bin" and v[1] in ("&", "|", "^"):
                    for x in v[2:4]:
                        dx, vx = F.leaf(g, x, d)
                        if vx[0] == "item" and F.columns(g, x, d) and F.columns(g, x, d)[0][2] in num:
                            bad.add(key); ck.ob("every-condition-applies", named(F, g, v, d), False, f"the numbers of a column are combined bit by bit with a condition: {g.render(v)[:140]}", d.loc)
        # results of selections that go nowhere
        for n in g.nodes:
            if n.id not in g.live(): continue
            if n.kind == "expr":
                v = n.value
                if v[0] == "call":
                    c = g.nodes[v[1]]
                    lost = c.get("name") in PURE and c.recv is not None and ("inplace" not in c.kw or c.kw["inplace"] == ("const", False)) and not c.get("cands") and c.recv[0] not in ("mod", "ext", "class") and not (c.get("name") in ("copy",) and c.args)
                    lost = lost and not any(x.name not in ("DataFrame", "Series") for x in classes_in(c.get("recvtype") or ()))
                    if lost: ck.ob("every-condition-applies", f"{f.short}/{c.name}", False, f"the result of {g.render(v)[:100]} is dropped", n.loc)
                elif v[0] == "item" and F.is_mask(g, v[2], n): ck.ob("every-condition-applies", f"{f.short}/selection", False, f"the selection {g.render(v)[:100]} is dropped", n.loc)
            if n.kind == "substore":
                b = n.base
                while b[0] == "attr" and b[2] in ACC: b = b[1]
                if b[0] == "item":
                    ix = F.leaf(g, b[2], n)[1]; m = ix[1][0] if ix[0] == "tuple" and ix[1] else ix
                    if F.is_mask(g, m, n): ck.ob("every-condition-applies", f"{f.short}/write", False, f"the values are written to a temporary selection of rows: {g.render(b)[:100]}", n.loc)
        loads = {x.id for x in ast.walk(f.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
        for n in g.nodes:
            if n.kind == "assign" and n.id in g.live() and n.value is not None and n.key[1] not in loads and not n.key[1].startswith("$") and F.is_mask(g, n.value, n) and not n.get("inlined") and n.key[0] == g.root.id:
                ck.ob("every-condition-applies", f"{f.short}/{n.key[1]}", False, "the condition is not used", n.loc)
        if F.selections(f): ck.ob("every-condition-applies", f.short, True, "", f.loc)
    ck.need("selections of rows", k, 60)


def normal(g, F, t, n):
    """text of an expression over the Product column"""
    d, v = F.leaf(g, t, n)
    return g.render(v)


def types(ck, F, funcs):
    """the type of a product or auxiliary is its identifier up to the last underscore, in every table"""
    k = 0
    for f in funcs:
        if not f.mod.name.startswith("prodsys.util"): continue
        g = F.g(f)
        for n in g.nodes:
            if n.id not in g.live() or n.kind != "call": continue
            nm = n.get("name")
            if nm in ("split", "rsplit", "partition", "rpartition", "contains", "startswith", "extract", "match") and n.recv is not None and n.recv[0] == "attr" and n.recv[2] == "str":
                if not any(c == "Product" for _, _, c in F.columns(g, n.recv, n)): continue
                k += 1
                sep = n.args[0] if n.args else n.kw.get("pat")
                lim = n.kw.get("n", n.args[1] if len(n.args) > 1 else None)
                ok = nm == "rsplit" and sep == ("const", "_") and lim == ("const", 1) or nm == "rpartition" and sep in (("const", "_"), None)
                ck.ob("one-type-per-product", f.short, ok, f"the type is taken from the identifier with {g.render(('call', n.id))[:80]}, elsewhere it is everything before the last underscore", n.loc)
            if nm in ("apply", "map") and n.recv is not None and any(c == "Product" for _, _, c in F.columns(g, n.recv, n)):
                for x in ast.walk(f.node):
                    if isinstance(x, ast.Lambda) and n.args and any(isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr in ("split", "partition", "rsplit", "rpartition") for y in ast.walk(x)):
                        for y in ast.walk(x):
                            if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr in ("split", "partition", "rsplit", "rpartition"):
                                k += 1
                                lim = [z.value for z in list(y.args[1:]) + [q.value for q in y.keywords] if isinstance(z, ast.Constant)]
                                ck.ob("one-type-per-product", f.short, y.func.attr == "rsplit" and 1 in lim or y.func.attr == "rpartition", "the type is taken from the identifier in another way than everywhere else", f"{f.mod.rel}:{y.lineno}")
    ck.need("derivations of a type from an identifier", k, 2)


def check(ck):
    funcs = scope(ck.p)
    F = Frames(ck, funcs, owners())
    tables_unchanged(ck, F, funcs)
    fields_unchanged(ck, funcs, F)
    current(ck, funcs, F)
    log_is_new(ck, F)
    selections(ck, F, funcs)
    types(ck, F, funcs)
