"""P12 Saving and loading a configuration is lossless."""
TECHNIQUE = "value tracing from the parsed file to every field of the configuration, compared with the enumeration of the declared fields, and type analysis of the declared element kinds and of the writing call"
NOTE = "pydantic and json are trusted to round-trip a value that is validated with the type it was dumped from; non-finite numbers are out of scope. The deprecated reader of the old format is exempt."
import ast
from ..lib import *

AD = "prodsys.adapters.adapter.ProductionSystemAdapter"
JS = "prodsys.adapters.json_adapter.JsonProductionSystemAdapter"
UTF = {"utf-8", "utf8", "UTF-8"}
LOSSY = {"exclude", "include", "exclude_unset", "exclude_defaults", "exclude_none", "by_alias", "round_trip"}


def annotated(ann):
    if isinstance(ann, ast.Constant) and isinstance(ann.value, str): return ast.parse(ann.value, mode="eval").body
    return ann


def classes_in(p, md, a, seen=()):
    """the project's classes an annotation names, type aliases expanded"""
    a = annotated(a); found = {}
    def walk(x):
        if x is None: return
        if isinstance(x, ast.Constant):
            if isinstance(x.value, str):
                try: walk(ast.parse(x.value, mode="eval").body)
                except SyntaxError: pass
            return
        if isinstance(x, ast.Subscript) and ast.unparse(x.value).split(".")[-1] == "Literal": return
        if isinstance(x, (ast.Name, ast.Attribute)):
            r = md.resolve_expr(x)
            if r and r[0] == "class": found.setdefault(r[1].qual, r[1]); return
            al = alias(p, md, x)
            if al and (al[0].name, al[1]) not in seen:
                for c in classes_in(p, al[0], al[0].consts[al[1]], seen + ((al[0].name, al[1]),)): found.setdefault(c.qual, c)
            return
        for y in ast.iter_child_nodes(x): walk(y)
    walk(a)
    return list(found.values())


def alias(p, md, x):
    """(module, name) of a module level constant an expression names"""
    if isinstance(x, ast.Name):
        if x.id in md.consts: return md, x.id
        r = md.lookup(x.id)
    else:
        b = md.resolve_expr(x.value)
        m = p.modules.get(b[1]) if b and b[0] == "mod" else None
        if m is not None and x.attr in m.consts: return m, x.attr
        r = md.resolve_expr(x)
    if r and r[0] in ("glob", "const") and len(r) > 2:
        m = p.modules.get(r[1]) if isinstance(r[1], str) else r[1]
        if m is not None and r[2] in m.consts: return m, r[2]
    return None


def term_classes(p, t):
    """classes a type term (argument of a type adapter) stands for"""
    if t is None: return []
    if t[0] == "class": return [p.cls(t[1])]
    if t[0] == "glob":
        return classes_in(p, p.mod(t[1]), ast.Name(id=t[2], ctx=ast.Load())) if t[1] in p.modules else []
    out = []
    for x in t[1:]:
        for y in (x if isinstance(x, tuple) and x and isinstance(x[0], tuple) else [x]):
            if isinstance(y, tuple): out += term_classes(p, y)
    return out


def models(p):
    """all pydantic models that can be part of a configuration"""
    root = p.cls(AD); seen = {}; todo = [root, p.cls(JS)] if p.cls(JS) else [root]
    while todo:
        c = todo.pop()
        if c.qual in seen: continue
        seen[c.qual] = c
        for f, (own, (ann, val)) in c.all_fields().items():
            if f != "model_config": todo += classes_in(p, own.mod, ann)
    return [c for c in seen.values() if not p.is_enum(c)]


def literals_of(c, f):
    r = c.find_field(f)
    if not r: return None
    a = annotated(r[1][0])
    if isinstance(a, ast.Subscript) and ast.unparse(a.value).split(".")[-1] == "Literal":
        xs = a.slice.elts if isinstance(a.slice, ast.Tuple) else [a.slice]
        return {ast.unparse(x).split(".")[-1] for x in xs}
    return None


def required(c): return {f for f, (o, (a, v)) in c.all_fields().items() if f != "model_config" and v is None and a is not None}
def fields(c): return {f for f, (o, (a, v)) in c.all_fields().items() if f != "model_config" and a is not None and not f.startswith("_") and "ClassVar" not in ast.unparse(a)}


READS = ("validate_python", "model_validate", "parse_obj")


class Src:
    """where a stored value comes from: section of the file, raw / each element, what went wrong, the types it was validated with"""
    def __init__(self, sec, kind, why=None, types=(), node=None): self.sec, self.kind, self.why, self.types, self.node = sec, kind, why, types, node


def parsed(g, t, node):
    """the term is the content of the parsed file"""
    ls = leaves(g, t, node)
    return bool(ls) and all(v[0] == "call" and g.nodes[v[1]].name in ("load", "loads") and "json" in g.render(("call", v[1])).split("(")[0] for _, v in ls)


def sub(t, env):
    """substitute loop variables by the entries of a literal table"""
    if not isinstance(t, tuple): return t
    if t in env: return env[t]
    return tuple(sub(x, env) for x in t)


def sources(g, t, node, env={}, depth=0):
    out = []
    if depth > 8: return [Src(None, "unknown", "too deep")]
    for d, v in leaves(g, sub(t, env), node):
        v = sub(v, env); k = v[0]
        if k == "item" and parsed(g, v[1], d):
            key = key_of(g, v[2], d, env)
            out.append(Src(key, "raw") if key is not None else Src(None, "unknown", "item " + g.render(v[2]))); continue
        if k == "call":
            c = g.nodes[v[1]]
            if c.name == "get" and c.recv is not None and c.args and parsed(g, c.recv, c):
                out.append(Src(key_of(g, c.args[0], c, env), "raw")); continue
            if c.name in READS and c.args:
                T = adapter_type(g, c, env)
                for x in sources(g, c.args[0], c, env, depth + 1): out.append(Src(x.sec, "raw" if x.kind == "raw" else x.kind, x.why, x.types + ((T, c),)))
                continue
            if c.name in ("list", "tuple", "deepcopy", "copy", "dict") and len(c.args) == 1:
                out += sources(g, c.args[0], c, env, depth + 1); continue
            if c.name in ("copy",) and c.recv is not None and not c.args: out += sources(g, c.recv, c, env, depth + 1); continue
        if k == "comp":
            cc = g.comps[v[2]]; hs = [g.nodes[h] for h in cc["heads"]]; en = g.nodes[cc["elt"]]
            if len(hs) == 1 and en.get("value"):
                base = sources(g, hs[0].iter, hs[0], env, depth + 1)
                gs = [b for b, s, pol in g.guard_atoms(en) if g.dominates(hs[0], b)]
                early = visits_all(g, hs[0]) if hs[0].get("lkind") != "comp" else None
                for x in base:
                    if x.kind != "raw": out.append(Src(x.sec, "unknown", x.why or x.kind)); continue
                    for d2, e in leaves(g, en.value, en):
                        T = ()
                        if e[0] == "call" and g.nodes[e[1]].name in READS and g.nodes[e[1]].args:
                            c = g.nodes[e[1]]; T = ((adapter_type(g, c, env), c),); e2 = [q for _, q in leaves(g, c.args[0], c)]
                        else: e2 = [e]
                        e2 = [copied(g, q) for q in e2]
                        if not all(q[0] == "elem" and q[2] == hs[0].id for q in e2): out.append(Src(x.sec, "unknown", g.r(e, d2)[:100], T))
                        elif gs or early is not None: out.append(Src(x.sec, "filtered", g.r(gs[0].term, gs[0])[:100] if gs else "the loop is left early", x.types + T))
                        else: out.append(Src(x.sec, "each", None, x.types + T))
                continue
        if k == "const": out.append(Src(None, "const", v[1], (), d)); continue
        out.append(Src(None, "unknown", g.r(v, d)[:100]))
    return out


def copied(g, t):
    while t[0] == "call" and g.nodes[t[1]].name in ("deepcopy", "copy", "dict") and g.nodes[t[1]].args: t = g.resolve(g.nodes[t[1]].args[0], g.nodes[t[1]])
    return t


def key_of(g, t, node, env):
    t = sub(g.resolve(sub(t, env), node), env)
    return t[1] if t[0] == "const" else None


def adapter_type(g, c, env={}):
    if c.recv is None: return None
    for d, r in leaves(g, sub(c.recv, env), c):
        if r[0] == "call" and g.nodes[r[1]].name == "TypeAdapter" and g.nodes[r[1]].args:
            n = g.nodes[r[1]]; return sub(g.resolve(sub(n.args[0], env), n), env)
        if r[0] == "class": return r
    return None


def stores_of(ck, g):
    """[(field, node, value term, env)] of everything stored to the object, also through setattr over a literal table"""
    me = g.fn.params()[0]; live = g.live(); out = []
    for n in g.nodes:
        if n.id not in live: continue
        if n.kind == "store" and g.r(n.base, n) == me: out.append((n.attr, n, n.value, {}))
        if n.kind == "call" and n.name == "setattr" and len(n.args) == 3 and g.r(n.args[0], n) == me:
            for env in table_envs(g, n):
                k = key_of(g, n.args[1], n, env)
                out.append((k, n, n.args[2], env))
    return out


def literal_rows(g, t, node):
    """rows of a literal list / tuple / dict, as terms"""
    rs = []
    for d, v in leaves(g, t, node):
        if v[0] == "call" and g.nodes[v[1]].name == "items" and g.nodes[v[1]].recv is not None:
            for d2, w in leaves(g, g.nodes[v[1]].recv, g.nodes[v[1]]):
                if w[0] == "dict": rs += [("tuple", (k, x)) for k, x in w[1]]
                else: return None
        elif v[0] in ("list", "tuple"): rs += list(v[1])
        elif v[0] == "dict": rs += [k for k, _ in v[1]]
        else: return None
    return rs


def table_envs(g, n):
    hs = [h for h in g.loops_of(n)]
    envs = [{}]
    for h in hs:
        rs = literal_rows(g, h.iter, h)
        if rs is None: continue
        new = []
        for e in envs:
            for r in rs:
                e2 = dict(e); el = ("elem", h.iter, h.id); e2[el] = r
                if r[0] in ("tuple", "list"):
                    for i, x in enumerate(r[1]):
                        e2[("unpack", el, i)] = x; e2[("item", el, ("const", i))] = x
                new.append(e2)
        envs = new
    return envs


def guards_ok(ck, g, n, f, env):
    """the store is only guarded by the presence of the section (or by its value not being None)"""
    bad = []
    for b, s, pol in g.guard_atoms(n):
        t = b.term
        if b.kind == "loophead" or t is None: continue
        r = sub(g.resolve(sub(t, env), b), env)
        if r[0] == "cmp" and r[1] in ("in", "not in") and pol == (r[1] == "in") and key_of(g, r[2], b, env) == f: continue
        x = r[2] if r[0] == "cmp" and r[1] in ("is not", "!=", "is", "==") and r[3] == ("const", None) and pol == (r[1] in ("is not", "!=")) else None
        if x is not None and [q.sec for q in sources(g, x, b, env)] == [f]: continue
        bad.append((b, pol))
    return bad


def reading(ck):
    p = ck.p; root = p.cls(AD); C = p.cls(JS)
    m = C.find_method("read_data"); g = ck.graph(m, selfcls=C)
    decl = {f: (o, a, v) for f, (o, (a, v)) in C.all_fields().items() if f != "model_config" and a is not None and "ClassVar" not in ast.unparse(a)}
    ss = stores_of(ck, g); got = {}
    opened(ck, g, "read_data")
    for f, n, val, env in ss:
        for x in sources(g, val, n, env): got.setdefault(f, []).append((n, x, env))
    ck.need("sections declared", len(decl), 10)
    for f, (own, ann, dv) in sorted(decl.items()):
        xs = got.get(f, []); loc = m.loc
        mine = [(n, x, env) for n, x, env in xs if x.sec == f]
        ok = bool(mine)
        ck.ob("section-read", f, ok, f"{f} is written to the file but never taken over when the file is read" if not ok else "", loc)
        if not ok: continue
        for n, x, env in mine:
            bad = guards_ok(ck, g, n, f, env)
            ck.ob("read-whenever-present", f, not bad, f"{f} is read only if {g.r(bad[0][0].term, bad[0][0])[:120]} is {bad[0][1]}" if bad else "", n.loc)
            ck.ob("all-elements", f, x.kind in ("raw", "each"), f"not every element of {f} is taken over: {x.why}", n.loc)
            want = {c.qual for c in classes_in(p, own.mod, ann)}
            for T, c in x.types:
                have = {k.qual for k in term_classes(p, T)} if T else set()
                miss = {k for k in want if k not in have}
                ck.ob("read-with-declared-type", f, bool(have) and not miss, f"{f} is declared with {names(want)} but read as {names(have)}", c.loc)
        # nothing else may overwrite the section on the way to the end
        for n, x, env in xs:
            if x.sec == f: continue
            scen = f == "scenario_data" and scenario_only(g, n)
            absent = x.kind == "const" and (only_absent(g, n, f) or x.node is not None and only_absent(g, x.node, f))
            earlier = all(g.reaches(n, k) and not g.reaches(k, n) for k, y, e in mine)
            ck.ob("not-overwritten", f, scen or absent or earlier and x.kind == "const", f"{f} of the file is overwritten by {x.why if x.sec is None else x.sec}", n.loc)
    for f, n, x, env in [(f, n, x, env) for f, xs in got.items() for n, x, env in xs]:
        if x.sec is not None and x.sec != f: ck.ob("own-section", str(f), False, f"section {x.sec} of the file is stored as {f}", n.loc)
    # what a field's validator looks at must be there already
    order(ck, C, g, {f: [n for n, x, e in xs if x.sec == f] for f, xs in got.items()})
    return decl


def names(qs): return ", ".join(sorted(q.split(".")[-1] for q in qs)) or "nothing"


def scenario_only(g, n):
    return any(g.r(b.term, b) == "scenario_file_path" or "scenario_file_path" in g.r(b.term, b) for b, s, pol in g.guard_atoms(n) if b.term is not None)


def only_absent(g, n, f):
    for b, s, pol in g.guard_atoms(n):
        if b.term is None: continue
        r = g.resolve(b.term, b)
        if r[0] == "cmp" and r[1] in ("in", "not in") and pol == (r[1] == "not in") and key_of(g, r[2], b, {}) == f: return True
    return False


def validators_of(C):
    out = []
    for K in C.mro():
        for f in K.methods.values():
            for d in f.node.decorator_list:
                if isinstance(d, ast.Call) and ast.unparse(d.func).split(".")[-1] in ("field_validator", "validator"):
                    out.append((f, [a.value for a in d.args if isinstance(a, ast.Constant)]))
    return out


def order(ck, C, g, at):
    """a field's validator sees only sections stored before it; the ones it reads must have been stored"""
    n = 0
    for f, names_ in validators_of(C):
        ps = f.params(); info = ps[2] if len(ps) > 2 else None
        if not info: continue
        needs = {x.slice.value for x in ast.walk(f.node) if isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Constant) and isinstance(x.slice.value, str)}
        needs |= {x.args[0].value for x in ast.walk(f.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "get" and x.args and isinstance(x.args[0], ast.Constant)}
        for sec in names_:
            for need in sorted(needs):
                if sec not in at or need not in at or need == sec: continue
                n += 1
                bad = [b for b in at[sec] for a in at[need] if g.reaches(b, a) and not g.reaches(a, b)]
                ck.ob("sections-in-dependency-order", f"{sec} after {need}", not bad, f"{sec} is stored (and validated against {need}) before {need} has been read from the file", bad[0].loc if bad else f.loc)
    return n


def opened(ck, g, what, write=False):
    """text files are opened with the one encoding"""
    n = 0
    for c in g.nodes:
        if c.kind == "call" and c.id in g.live() and c.name == "open" and not c.get("inlined"):
            n += 1
            e = c.kw.get("encoding") or (c.args[3] if len(c.args) > 3 else None)
            e = g.resolve(e, c) if e is not None else None
            md = c.kw.get("mode") or (c.args[1] if len(c.args) > 1 else None); md = g.resolve(md, c) if md is not None else ("const", "r")
            binary = md[0] == "const" and "b" in str(md[1])
            ck.ob("one-encoding", what, binary or e is not None and e[0] == "const" and str(e[1]) in UTF, f"the file is opened with encoding {g.render(e) if e is not None else 'of the platform'}, but configurations are written and read as UTF-8", c.loc)
            if write: ck.ob("file-replaced", what, md[0] == "const" and set(str(md[1])) & set("wx") != set() and "a" not in str(md[1]), f"the file is opened with mode {g.render(md)}", c.loc)
    return n


def writing(ck, cls, name, what, want):
    """the complete object is written to the path given"""
    m = cls.find_method(name); g = ck.graph(m, selfcls=cls); me, path = m.params()[0], m.params()[1]
    ws = [c for c in g.nodes if c.kind == "call" and c.id in g.live() and c.name in ("write", "write_text", "dump") and c.args and not c.get("inlined")]
    ck.ob("written", what, len(ws) == 1 and not g.guard_atoms(ws[0]) if ws else False, f"{name} does not write the {what} exactly once", m.loc)
    opened(ck, g, name, True)
    for c in ws:
        for d, v in leaves(g, c.args[0], c):
            k = g.nodes[v[1]] if v[0] == "call" else None
            if k is not None and k.name == "dumps" and k.args:
                vv = g.resolve(k.args[0], k); k = g.nodes[vv[1]] if vv[0] == "call" else None
            good = k is not None and k.name in ("model_dump_json", "json", "model_dump", "dict") and k.recv is not None and g.r(k.recv, k) == want.format(me=me)
            ck.ob("whole-object-written", what, good, f"{g.r(v, d)[:120]} is written instead of the whole {what}", c.loc)
            if good:
                bad = [a for a, x in k.kw.items() if a in LOSSY and not (x[0] == "const" and x[1] in (None, False) and a not in ("include",) or a == "include" and x == ("const", None))]
                ck.ob("nothing-left-out", what, not bad and not k.args, f"the {what} is written with {bad}", k.loc)
        o = [x for x in g.nodes if x.kind == "call" and x.id in g.live() and x.name == "open" and not x.get("inlined")]
        for x in o: ck.ob("written-to-path", what, bool(x.args) and g.r(x.args[0], x) == path or g.r(x.kw.get("file", ("const", 0)), x) == path, f"{what} is written to {g.r(x.args[0], x) if x.args else '?'}", x.loc)
    # keep what is there until it has been read: nothing of the object is changed by writing
    for n in g.nodes:
        if n.id in g.live() and n.kind in ("store", "substore", "del"): ck.ob("writing-changes-nothing", what, False, f"{name} changes the object it writes", n.loc)


def scenario(ck):
    p = ck.p; C = p.cls(JS)
    m = C.find_method("read_data"); g = ck.graph(m, selfcls=C); sp = m.params()[2] if len(m.params()) > 2 else None
    hits = []
    for n in g.nodes:
        if n.id in g.live() and n.kind == "store" and n.attr == "scenario_data":
            for d, v in leaves(g, n.value, n):
                if v[0] == "call":
                    c = g.nodes[v[1]]
                    if c.name in ("parse_file", "model_validate_json", "model_validate", "parse_raw", "validate_python", "parse_obj") and reads_path(g, c, sp): hits.append((n, c))
    ck.ob("scenario-read", "scenario file", bool(hits), "the scenario file is never read", m.loc)
    for n, c in hits:
        T = c.recv and g.resolve(c.recv, c)
        ok = "ScenarioData" in g.render(T) if T else False
        ck.ob("scenario-type", "scenario file", ok, f"the scenario file is read as {g.render(T) if T else '?'}", c.loc)
        bad = [(b, pol) for b, s, pol in g.guard_atoms(n) if not (b.term is not None and (g.r(b.term, b) == sp and pol or isnot(g, b, pol, sp)))]
        ck.ob("scenario-read-whenever-given", "scenario file", not bad, f"the scenario file is read only if {g.r(bad[0][0].term, bad[0][0])[:100]} is {bad[0][1]}" if bad else "", n.loc)
        # the whole file has been read before
        ck.ob("scenario-last", "scenario file", not [k for k in g.nodes if k.kind == "store" and k.attr == "scenario_data" and k is not n and k.id in g.live() and g.reaches(n, k)], "the scenario read from its file is replaced afterwards", n.loc)
    for n, c in hits:
        if "encoding" in c.kw:
            e = g.resolve(c.kw["encoding"], c)
            ck.ob("one-encoding", "scenario file", e[0] == "const" and str(e[1]) in UTF, "the scenario file is read with another encoding", c.loc)


def isnot(g, b, pol, sp):
    r = g.resolve(b.term, b)
    return r[0] == "cmp" and g.render(r[2]) == sp and r[3] == ("const", None) and pol == (r[1] in ("is not", "!=")) and r[1] in ("is", "is not", "==", "!=")


def reads_path(g, c, sp, depth=0):
    """the call's argument is (the content of the file at) the path parameter"""
    if sp is None or depth > 4: return False
    for a in list(c.args[:1]) + [c.kw[k] for k in ("path", "obj", "json_data", "b") if k in c.kw]:
        for d, v in leaves(g, a, c):
            if g.r(v, d) == sp: return True
            if v[0] == "call":
                k = g.nodes[v[1]]
                if reads_path(g, k, sp, depth + 1): return True
                if k.recv is not None:
                    for d2, w in leaves(g, k.recv, k):
                        if w[0] == "call" and (g.nodes[w[1]].name == "open" and reads_path(g, g.nodes[w[1]], sp, depth + 1)): return True
    return False


def kinds(ck):
    """a list of element kinds is declared so that every concrete kind survives"""
    p = ck.p; ms = models(p); n = 0
    for c in ms:
        for f, (own, (ann, val)) in sorted(c.all_fields().items()):
            if f == "model_config" or own is not c: continue
            ks = [k for k in classes_in(p, own.mod, ann) if not p.is_enum(k)]
            if not ks: continue
            n += 1; qs = {k.qual for k in ks}
            for k in ks:
                for s in p.subclasses(k):
                    if s.qual in qs or not s.mod.name.startswith("prodsys.models"): continue
                    extra = fields(s) - fields(k)
                    if not extra or abstract_base(p, s): continue
                    # a more special declared kind may already cover it
                    if any(fields(s) <= fields(x) and s.is_sub(x) for x in ks): continue
                    ck.ob("declared-kinds-complete", f"{c.name}.{f}/{s.name}", False, f"{f} is declared with {names(qs)}: of a {s.name} the settings {', '.join(sorted(extra))} are dropped when it is written", c.mod.rel + ":" + str(getattr(ann, 'lineno', 0)))
            ck.ob("declared-kinds-complete", f"{c.name}.{f}", True, "", c.loc)
            ambiguous(ck, p, c, f, ks, ann)
    ck.need("fields with element kinds", n, 8)
    lossy_models(ck, ms)


def abstract_base(p, s):
    """a class that only serves as base of others"""
    return any(True for x in p.subclasses(s) if x is not s) and literals_of(s, "type") is None


def ambiguous(ck, p, c, f, ks, ann):
    """no kind can be mistaken for another declared before it"""
    for i, a in enumerate(ks):
        for j, b in enumerate(ks):
            if a is b or any("deprecated" in ast.unparse(d) for d in a.node.decorator_list): continue    # deprecated kinds are superseded by an equivalent one
            fa, fb = fields(a), fields(b)
            if not required(b) <= fa or not fa <= fb: continue
            if any(literals_of(a, x) and literals_of(b, x) and not literals_of(a, x) & literals_of(b, x) for x in fa & fb): continue
            ck.ob("kinds-distinguishable", f"{c.name}.{f}/{a.name}", i < j, f"a {a.name} written to the file is read back as {b.name}", c.loc)


def lossy_models(ck, ms):
    """no field is excluded from, renamed in or transformed by the written form"""
    n = 0
    for c in ms:
        for f, (own, (ann, val)) in c.all_fields().items():
            if own is not c: continue
            n += 1
            for call in [x for x in [val] if isinstance(x, ast.Call)] + [x for x in ast.walk(ann) if isinstance(x, ast.Call)] if ann is not None else []:
                kws = {k.arg: k.value for k in call.keywords}
                bad = [k for k in ("exclude", "alias", "serialization_alias", "validation_alias") if k in kws and not (isinstance(kws[k], ast.Constant) and kws[k].value in (None, False))]
                if ast.unparse(call.func).split(".")[-1] in ("Field", "PlainSerializer", "WrapSerializer") and (bad or "Serializer" in ast.unparse(call.func)):
                    ck.ob("written-as-it-is", f"{c.name}.{f}", False, f"{f} is declared with {bad or ast.unparse(call.func)}: what is written is not what is read", c.mod.rel + f":{call.lineno}")
                if "PrivateAttr" in ast.unparse(call.func): ck.ob("written-as-it-is", f"{c.name}.{f}", False, f"{f} is private and never written", c.mod.rel + f":{call.lineno}")
            if ann is not None and f != "model_config" and f.startswith("_"): ck.ob("written-as-it-is", f"{c.name}.{f}", False, f"{f} is private and never written", c.loc)
        for m in c.methods.values():
            if any(d.split(".")[-1] in ("field_serializer", "model_serializer") for d in decos(m)): ck.ob("written-as-it-is", f"{c.name}.{m.name}", False, f"{c.name} has its own written form ({m.name})", m.loc)
            if m.name in ("model_dump", "model_dump_json", "dict", "json"): ck.ob("written-as-it-is", f"{c.name}.{m.name}", False, f"{c.name} overrides {m.name}", m.loc)
        cfg = c.find_field("model_config")
        if cfg and cfg[0] is c and isinstance(cfg[1][1], ast.Call):
            bad = [k.arg for k in cfg[1][1].keywords if k.arg in ("json_encoders", "alias_generator", "ser_json_bytes", "str_to_lower", "str_to_upper", "str_strip_whitespace", "coerce_numbers_to_str")]
            ck.ob("written-as-it-is", f"{c.name}.model_config", not bad, f"the written form of {c.name} is changed by {bad}", c.loc)
        ck.ob("written-as-it-is", c.name, True, "", c.loc)
    ck.need("model fields", n, 60)


def decos(m): return [ast.unparse(d.func) if isinstance(d, ast.Call) else ast.unparse(d) for d in m.node.decorator_list]


def results(ck):
    """optimisation results: the complete record is dumped; solutions are written with the adapter's writer"""
    p = ck.p; n = 0
    for f in p.all_funcs("prodsys.optimization"):
        dumps = [x for x in ast.walk(f.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("dump", "dumps") and ast.unparse(x.func.value) == "json"]
        for x in dumps:
            n += 1
            bad = [k.arg for k in x.keywords if k.arg in ("skipkeys", "default", "ensure_ascii")]
            arg = ast.unparse(x.args[0]) if x.args else "?"
            ck.ob("record-dumped-whole", f"{f.short}", not bad and bool(x.args) and not isinstance(x.args[0], (ast.Subscript, ast.DictComp, ast.ListComp, ast.GeneratorExp)), f"the results file is written as {arg} with {bad}", f.mod.rel + f":{x.lineno}")
            for w in ast.walk(f.node):
                if isinstance(w, ast.With):
                    for it in w.items:
                        e = it.context_expr
                        if isinstance(e, ast.Call) and ast.unparse(e.func) == "open" and x in list(ast.walk(w)):
                            md = e.args[1] if len(e.args) > 1 else next((k.value for k in e.keywords if k.arg == "mode"), None)
                            ck.ob("file-replaced", f.short, isinstance(md, ast.Constant) and str(md.value).startswith(("w", "x")), f"the results file is opened with mode {ast.unparse(md) if md else 'r'}", f.mod.rel + f":{e.lineno}")
    ck.ob("record-dumped-whole", "optimisation methods", n >= 4, f"only {n} of the four optimisation methods write their results file", p.mod("prodsys.optimization.util").rel + ":1")


def solutions(ck):
    """files written by the configuration writer are read with its encoding everywhere"""
    n = 0
    for f in ck.p.all_funcs("app"):
        for x in ast.walk(f.node):
            if isinstance(x, ast.Call) and ast.unparse(x.func) == "open" and x.args:
                n += 1
                if "optimization_results" in ast.unparse(x.args[0]): continue       # written by json.dump in pure ASCII
                md = x.args[1] if len(x.args) > 1 else next((k.value for k in x.keywords if k.arg == "mode"), None)
                if md is not None and "b" in ast.unparse(md): continue
                e = next((k.value for k in x.keywords if k.arg == "encoding"), None)
                ck.ob("one-encoding", f.short, isinstance(e, ast.Constant) and e.value in UTF, "a configuration file is read with the platform's encoding", f.mod.rel + f":{x.lineno}")
    return n


def check(ck):
    p = ck.p; C = p.cls(JS)
    reading(ck)
    writing(ck, C, "write_data", "configuration", "{me}")
    writing(ck, C, "write_scenario_data", "scenario", "{me}.scenario_data")
    scenario(ck)
    kinds(ck)
    results(ck)
    solutions(ck)
