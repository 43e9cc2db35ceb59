"""P01 A run is reproducible from configuration and seed."""
TECHNIQUE = "bracket analysis of the random-state save/seed/restore on all normal and exceptional paths, call-graph closure of what runs inside it, and a taint-style scan of everything the simulation can execute for clock, unseeded generators, hash order, environment and process-wide state"
NOTE = "Decides the absence of the listed sources of non-determinism in prodsys' own code; simpy, numpy and pandas are taken as deterministic. Floating-point results across platforms are not covered."
import ast
from ..lib import *

RS = {"random": ("random.getstate", "random.seed", "random.setstate"), "numpy": ("numpy.random.get_state", "numpy.random.seed", "numpy.random.set_state")}
CLOCK = ("time.time", "time.time_ns", "time.perf_counter", "time.perf_counter_ns", "time.monotonic", "time.monotonic_ns", "time.process_time", "time.localtime", "time.gmtime", "time.strftime", "time.ctime",
         "datetime.datetime.now", "datetime.datetime.today", "datetime.datetime.utcnow", "datetime.date.today", "os.urandom", "os.getpid", "uuid.uuid1", "uuid.uuid4", "threading.get_ident", "os.times", "os.environ.get", "os.getenv", "os.listdir", "os.scandir", "glob.glob", "pandas.Timestamp.now")
GENS = ("numpy.random.default_rng", "numpy.random.RandomState", "random.Random", "random.SystemRandom", "numpy.random.SeedSequence", "numpy.random.PCG64", "numpy.random.Generator", "numpy.random.MT19937")
RESEED = ("random.seed", "numpy.random.seed", "random.setstate", "numpy.random.set_state")
RUNNER = "prodsys.util.runner.Runner"


def fname(g, n):
    """dotted name of what a call node calls"""
    s = g.r(("call", n.id), n)
    return s[:s.find("(")] if "(" in s else s


def body_nodes(g):
    """calls that process simulation events"""
    out = []
    for n in g.nodes:
        if n.kind in ("call",) and n.id in g.live():
            s = g.r(("call", n.id), n)
            if s.startswith("super().run(") or s.startswith("super().step(") or ".Environment.run(" in s or ".Environment.step(" in s or s.startswith("self.step("): out.append(n)
    return out


def bracket(ck, name, g, ys, seedok, what):
    """the state of every global generator is saved, the generator seeded and the state restored around ys"""
    calls = [(fname(g, n), n) for n in g.nodes if n.kind == "call" and n.id in g.live()]
    for gen, (sv, sd, rs) in RS.items():
        saves = [n for f, n in calls if f == sv]; seeds = [n for f, n in calls if f == sd]; rest = [n for f, n in calls if f == rs]
        rest = [n for n in rest if n.args and any(v[0] == "call" and v[1] in {s.id for s in saves} for d, v in leaves(g, n.args[0], n))]
        for y in ys:
            ck.ob("seeded", f"{name}/{gen}", any(g.dominates(s, y) and s.args and seedok(g.r(s.args[0], s)) and not any(g.reaches(s, r) and g.reaches(r, y) and g.path_avoiding(r, y, [s]) is not None for r in rest) for s in seeds), f"{what} draws from the {gen} generator without it having been seeded with the seed of the simulation", y.loc)
            for s in seeds:
                ck.ob("saved", f"{name}/{gen}", g.path_avoiding(g.entry, s, saves) is None, f"the {gen} generator is seeded before the caller's state has been saved", s.loc)
                if len(s.args): ck.ob("seeded", f"{name}/{gen}-value", seedok(g.r(s.args[0], s)), f"the {gen} generator is seeded with {g.r(s.args[0], s)[:60]}", s.loc)
                for r in [z for f, z in calls if f == sv]:
                    ck.ob("saved", f"{name}/{gen}-before", not (g.reaches(s, r) and g.path_avoiding(s, r, rest) is not None and any(z.args and any(v[0] == "call" and v[1] == r.id for d, v in leaves(g, z.args[0], z)) for f, z in calls if f == rs)), f"the state of the {gen} generator that is restored was saved after seeding", r.loc)
            ends = [g.exit] + [n for n in g.nodes if n.kind == "rexit"]
            p = g.path_avoiding(y, g.exit, rest)
            ck.ob("restored", f"{name}/{gen}", bool(rest) and p is None, f"the caller's {gen} generator is not restored after {what}", y.loc)
            ex = any(l == "exc" for s, l in y.succ)
            p = g.path_avoiding(y, [n for n in g.nodes if n.kind == "rexit"], rest, exc=True) if ex else [y]
            ck.ob("restored", f"{name}/{gen}-on-failure", bool(rest) and p is None, f"the caller's {gen} generator is not restored if {what} fails", y.loc)
            for r in rest:
                late = [s for f, s in calls if f in (sd, rs) and s not in rest and g.reaches(r, s) and s.args and not (f == rs)]
                ck.ob("restored", f"{name}/{gen}-last", not late, f"the {gen} generator is seeded after the caller's state was restored", r.loc)


def managers(ck, g):
    """with blocks of g that bracket the random state: {withenter node: (fn, argument text)}"""
    out = {}
    for n in g.nodes:
        if n.kind == "withenter" and n.id in g.live() and n.term[0] == "call":
            c = g.nodes[n.term[1]]
            for f in c.get("cands") or ():
                if any(d.split(".")[-1] == "contextmanager" for d in f.decorators): out[n.id] = (f, [g.r(a, c) for a in list(c.args) + list(c.kw.values())], c)
    return out


def inside(g, w, n):
    """n can only be reached through the with block w and not after it"""
    if not g.dominates(w, n): return False
    ex = [x for x in g.nodes if x.kind == "withexit" and x.term == w.term]
    return not any(g.reaches(x, n) and g.path_avoiding(x, n, [w]) is not None for x in ex)


def is_random_manager(ck, f):
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call) and f.mod.resolve_expr(n.func) is None and ast.unparse(n.func).split(".")[-1] in ("seed", "setstate", "set_state"): return True
    return any(isinstance(n, ast.Call) and ast.unparse(n.func).split(".")[-1] in ("seed", "setstate", "set_state") for n in ast.walk(f.node))


def under_seed(ck, name, g, ys, seedtexts, what):
    ms = {w: v for w, v in managers(ck, g).items() if is_random_manager(ck, v[0])}
    own = [n for n in g.nodes if n.kind == "call" and n.id in g.live() and fname(g, n) in ("random.seed", "numpy.random.seed")]
    if own:
        bracket(ck, name, g, ys, lambda s: s in seedtexts, what); return
    for y in ys:
        ok = [w for w in ms if inside(g, g.nodes[w], y)]
        ck.ob("seeded", name, bool(ok), f"{what} happens outside the block that seeds the generators", y.loc)
        for w in ok:
            ck.ob("seeded", name + "/seed", bool(ms[w][1]) and ms[w][1][0] in seedtexts, f"{what} is seeded with {(ms[w][1] or ['nothing'])[0][:60]} instead of the configured seed", g.nodes[w].loc)
    for w, (f, a, c) in ms.items():
        gm = ck.graph(f); pars = f.params()
        yy = [n for n in gm.nodes if n.kind == "yield" and n.id in gm.live()]
        ck.ob("seeded", f.short, len(yy) == 1, "the seeding block does not hand over exactly once", f.loc)
        bracket(ck, f.short, gm, yy, lambda s: s in pars, "what runs under the seed")
        # states set by hand inside the block belong to the simulation itself
        for n in g.nodes:
            if n.kind == "call" and n.id in g.live() and fname(g, n) in RESEED and inside(g, g.nodes[w], n) and n.args:
                t = g.r(n.args[0], n)
                fld = t[5:].split("[")[0].split(".")[0] if t.startswith("self.") else None
                ok = False
                if fld:
                    ss = [s for m in f_class(ck, g).methods.values() for s in [ck.graph(m)] for s in [(s, z) for z in s.stores(fld)]]
                    ok = bool(ss) and all(all(v == ("const", None) or "get_state()" in gg.r(v, d) or "getstate()" in gg.r(v, d) for d, v in leaves(gg, z.value, z)) for gg, z in ss)
                ck.ob("own-stream", f"{name}/{fname(g, n)}", ok, f"the simulation continues with a random state that is not its own ({t[:60]})", n.loc)


def f_class(ck, g): return g.fn.cls


def brackets(ck):
    env = ck.p.cls("prodsys.simulation.sim.Environment"); k = 0
    for nm, f in env.methods.items():
        g = ck.graph(f); ys = body_nodes(g)
        if not ys: continue
        k += 1
        under_seed(ck, f"Environment.{nm}", g, ys, ("self.seed",), "the simulation")
    for w in ("run", "run_until"):
        m = env.methods.get(w)
        ck.ob("seeded", f"Environment.{w}/overrides", m is not None and bool(body_nodes(ck.graph(m))), f"{w} of the environment does not run the simulation under its seed", env.loc)
    for nm, f in env.methods.items():
        for s in ck.graph(f).stores("seed"):
            g = ck.graph(f)
            ck.ob("own-seed", f"Environment.{nm}", nm == "__init__" and g.r(s.value, s) in f.params(), "the seed of the environment is not the one it was created with", s.loc)
    f = ck.p.func(RUNNER + ".initialize_simulation"); g = ck.graph(f, stop=("validate_configuration",), inline=lambda fn: fn.cls is not None and fn.cls.qual == RUNNER)
    draws = drawers(ck)
    setup = [n for n in g.nodes if n.kind == "call" and n.id in g.live() and not n.get("inlined") and any(c.mod.name.startswith(("prodsys.factories", "prodsys.simulation", "prodsys.models")) for c in n.get("cands") or ()) and n.name in draws and not any('contextmanager' in d for c in n.get("cands") or () for d in c.decorators)]
    ck.need("calls that build the simulation in Runner.initialize_simulation", len(setup), 3)
    under_seed(ck, "Runner.initialize_simulation", g, setup, ("self.adapter.seed", "self.env.seed"), "building the simulation")
    for f2 in [m for m in ck.p.cls(RUNNER).methods.values()]:
        g2 = ck.graph(f2, inline=lambda fn: False)
        for c in g2.calls("Environment"):
            a = list(c.args) + list(c.kw.values())
            ck.ob("own-seed", f"{f2.short}/environment", len(a) == 1 and g2.r(a[0], c) in ("self.adapter.seed", "adapter.seed"), "the environment is not created with the seed of the configuration", c.loc)
    f = ck.p.func(RUNNER + ".run"); g = ck.graph(f, inline=lambda fn: fn.cls is not None and fn.cls.qual == RUNNER)
    rs = [c for c in g.calls("run", "run_until") if g.r(c.recv, c) == "self.env"]
    ck.ob("runs-env", "Runner.run", bool(rs) and g.path_avoiding(g.entry, g.exit, rs) is None, "a run does not use the environment of the runner", f.loc)


def drawers(ck):
    """names of functions that may draw random numbers (call-graph closure by name)"""
    calls = {}; draws = set()
    for f in ck.p.all_funcs("prodsys."):
        if not f.mod.name.startswith(("prodsys.simulation", "prodsys.factories", "prodsys.models", "prodsys.util.statistical")): continue
        nm = f.cls.name if f.name == "__init__" and f.cls else f.name
        for x in ast.walk(f.node):
            if isinstance(x, ast.Call): calls.setdefault(nm, set()).add(ast.unparse(x.func).split(".")[-1])
            if isinstance(x, ast.Attribute) and (dotted(f.mod, x) or "").startswith(("random.", "numpy.random.")): draws.add(nm)
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load): calls.setdefault(nm, set()).add("const:" + x.id)
    for m in ck.p.modules.values():
        for n, e in m.consts.items():
            if isinstance(e, ast.Dict): calls.setdefault("const:" + n, set()).update(x.id for x in ast.walk(e) if isinstance(x, ast.Name))
    grown = True
    while grown:
        new = {n for n, c in calls.items() if n not in draws and c & draws}
        draws |= new; grown = bool(new)
    return draws


# ---------------------------------------------------------------- what can run in a simulation
def scope(ck, validation=True):
    """functions of the packages the simulation consists of, plus what they call elsewhere"""
    base = ("prodsys.simulation", "prodsys.factories", "prodsys.models", "prodsys.util.statistical_functions")
    allf = [f for f in ck.p.all_funcs("prodsys.")]
    byname = {}
    for f in allf: byname.setdefault(f.name, []).append(f)
    inn = [f for f in allf if f.mod.name.startswith(base)]
    rc = ck.p.cls(RUNNER)
    inn += [rc.methods[m] for m in ("__init__", "initialize_simulation", "run") if m in rc.methods]
    seen = {f.qual for f in inn}; work = list(inn)
    while work:
        f = work.pop()
        for x in ast.walk(f.node):
            if isinstance(x, ast.Call):
                r = f.mod.resolve_expr(x.func)
                if r and r[0] == "func": c = [r[1]]
                elif isinstance(x.func, ast.Attribute) and (validation or x.func.attr != "validate_configuration"):
                    c = [z for z in byname.get(x.func.attr, ()) if z.cls is not None and (z.mod.name.startswith(("prodsys.adapters", "prodsys.util.runner")) and "hash" not in z.name and f.cls is not None and f.cls.qual == RUNNER or z.cls is f.cls)]
                else: c = []
                for z in c:
                    if z.qual in seen or not z.mod.name.startswith(("prodsys.adapters", "prodsys.util")) or "post_processing" in z.mod.name or "visualization" in z.mod.name: continue
                    seen.add(z.qual); inn.append(z); work.append(z)
    return inn


def dotted(mod, e):
    """dotted external name of an expression, following the imports of the module"""
    parts = []
    while isinstance(e, ast.Attribute): parts.append(e.attr); e = e.value
    if not isinstance(e, ast.Name): return None
    im = imports(mod).get(e.id)
    return ".".join([im or e.id] + parts[::-1])


_IMP = {}
def imports(mod):
    k = (mod.name, id(mod))
    if k not in _IMP:
        m = {}
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.Import):
                for a in n.names: m[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
            elif isinstance(n, ast.ImportFrom) and n.level == 0:
                for a in n.names: m[a.asname or a.name] = f"{n.module}.{a.name}"
        _IMP[k] = m
    return _IMP[k]


def locals_of(f):
    a = f.node.args
    s = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
    g = {y for n in ast.walk(f.node) if isinstance(n, ast.Global) for y in n.names}
    for n in ast.walk(f.node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)): s.add(n.id)
    return s - g


def parents(node):
    m = {}
    for n in ast.walk(node):
        for c in ast.iter_child_nodes(n): m[c] = n
    return m


def loc(f, n): return f"{f.mod.rel}:{getattr(n, 'lineno', f.node.lineno)}"


def sources(ck, fs):
    k = 0
    for f in fs:
        L = locals_of(f); par = None
        seeding = f.mod.name == "prodsys.simulation.sim" or f.mod.name == "prodsys.util.runner"
        for n in ast.walk(f.node):
            if not isinstance(n, ast.Call): continue
            k += 1
            root = n.func
            while isinstance(root, ast.Attribute): root = root.value
            if isinstance(root, ast.Name) and root.id in L: continue
            d = dotted(f.mod, n.func) or ""
            if d in CLOCK:
                ck.ob("wall-clock", f"{f.short}/{d}", harmless(f, n), f"what is simulated can depend on {d}, which differs from run to run", loc(f, n))
            elif d in GENS:
                a = list(n.args) + [x.value for x in n.keywords]
                ck.ob("own-generator", f"{f.short}/{d}", bool(a) and not (isinstance(a[0], ast.Constant) and a[0].value is None), f"{d} is created without a seed", loc(f, n))
            elif d.startswith("secrets."): ck.ob("own-generator", f"{f.short}/{d}", False, "numbers are drawn from the operating system", loc(f, n))
            elif d in RESEED and not seeding:
                ck.ob("no-reseeding", f"{f.short}/{d}", False, f"the generators are set to another state while the simulation is built or runs", loc(f, n))
            elif isinstance(n.func, ast.Name) and n.func.id in ("hash", "id") and n.func.id not in imports(f.mod) and n.func.id not in f.mod.consts and f.mod.lookup(n.func.id) is None:
                par = par or parents(f.node); p = par.get(n)
                ok = f.name == "__hash__" or isinstance(p, ast.Compare) and all(isinstance(o, (ast.Eq, ast.NotEq, ast.In, ast.NotIn)) for o in p.ops)
                ck.ob("hash-value", f"{f.short}/{n.func.id}", ok, f"what is simulated can depend on {n.func.id}(), which differs between processes", loc(f, n))
    ck.ob("scanned", "calls", k > 100, f"only {k} calls were found in the simulation", "")


def harmless(f, call):
    """the value of a clock call only ends up in local variables, logs or a time stamp"""
    par = parents(f.node); names = set(); fields = set()
    def up(n):
        p = par.get(n)
        while isinstance(p, (ast.BinOp, ast.JoinedStr, ast.FormattedValue, ast.UnaryOp, ast.Tuple)): n = p; p = par.get(n)
        return n, p
    def use(n):
        n, p = up(n)
        if isinstance(p, ast.Expr): return True
        if isinstance(p, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            for t in (p.targets if isinstance(p, ast.Assign) else [p.target]):
                if isinstance(t, ast.Name):
                    if t.id in names: continue
                    names.add(t.id)
                    if not all(use(x) for x in ast.walk(f.node) if isinstance(x, ast.Name) and x.id == t.id and isinstance(x.ctx, ast.Load)): return False
                elif isinstance(t, ast.Attribute) and t.attr == "time_stamp": pass
                else: return False
            return True
        if isinstance(p, ast.Call):
            d = ast.unparse(p.func)
            if d == "print" or d.startswith(("logger.", "logging.")): return True
            if d.startswith("time.") or d in ("str", "round", "float", "int"): return use(p)
        if isinstance(p, ast.keyword): return False
        return False
    return f.cls is not None and f.cls.qual == RUNNER and use(call)


# ---------------------------------------------------------------- order of sets
SETM = ("union", "intersection", "difference", "symmetric_difference")
FREE = ("any", "all", "set", "frozenset", "len", "bool", "isinstance")


class Sets:
    def __init__(s, ck, fs):
        s.ck = ck; s.fs = fs; s.ret = set(); s.fld = {}; s.params = set()
        for c in ck.p.all_classes():
            for n, (ann, v) in c.fields.items():
                if ann is not None and s.isann(ann): s.fld.setdefault(n, []).append(c)
        names = {}
        for f in fs: names.setdefault(f.name, []).append(f)
        for _ in range(4):
            before = (len(s.ret), len(s.params))
            for f in fs:
                env = s.env(f)
                if f.node.returns is not None and s.isann(f.node.returns): s.ret.add(f.name)
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Return) and n.value is not None and s.isset(n.value, env, f): s.ret.add(f.name)
                    if isinstance(n, ast.Call):
                        nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else None
                        for c in names.get(nm, ()):
                            ps = [p for p in c.params() if p not in ("self", "cls")]
                            for i, a in enumerate(n.args):
                                if i < len(ps) and s.isset(a, env, f): s.params.add((c.qual, ps[i]))
                            for kk in n.keywords:
                                if kk.arg in ps and s.isset(kk.value, env, f): s.params.add((c.qual, kk.arg))
            if (len(s.ret), len(s.params)) == before: break

    def isann(s, a):
        t = ast.unparse(a).strip("'\"")
        return t.split("[")[0].split(".")[-1] in ("Set", "set", "FrozenSet", "frozenset", "AbstractSet") or t.startswith(("Optional[Set", "Optional[set"))

    def env(s, f):
        e = set()
        for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs:
            if a.annotation is not None and s.isann(a.annotation) or (f.qual, a.arg) in s.params: e.add(a.arg)
        for _ in range(3):
            n0 = len(e)
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) and s.isset(n.value, e, f):
                    for t in n.targets:
                        if isinstance(t, ast.Name): e.add(t.id)
                elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and (s.isann(n.annotation) or n.value is not None and s.isset(n.value, e, f)): e.add(n.target.id)
                elif isinstance(n, ast.NamedExpr) and s.isset(n.value, e, f): e.add(n.target.id)
            if len(e) == n0: break
        return e

    def isset(s, x, env, f):
        if isinstance(x, (ast.Set, ast.SetComp)): return True
        if isinstance(x, ast.Name): return x.id in env
        if isinstance(x, ast.IfExp): return s.isset(x.body, env, f) or s.isset(x.orelse, env, f)
        if isinstance(x, ast.BoolOp): return any(s.isset(v, env, f) for v in x.values)
        if isinstance(x, ast.BinOp) and isinstance(x.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
            def view(v): return isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr in ("keys", "items") and not v.args
            return s.isset(x.left, env, f) or (s.isset(x.right, env, f) and not isinstance(x.op, ast.Sub)) or view(x.left) or view(x.right)
        if isinstance(x, ast.Attribute):
            return x.attr in s.fld and (not (isinstance(x.value, ast.Name) and x.value.id == "self") or f.cls is None or any(c is f.cls or f.cls.is_sub(c.qual) for c in s.fld[x.attr]))
        if isinstance(x, ast.Call):
            fn = x.func
            if isinstance(fn, ast.Name):
                if fn.id in ("set", "frozenset"): return True
                if fn.id in ("iter", "map", "filter", "reversed", "enumerate"): return any(s.isset(a, env, f) for a in x.args)
                r = f.mod.lookup(fn.id)
                return fn.id in s.ret and r is not None and r[0] == "func"
            if isinstance(fn, ast.Attribute):
                if fn.attr in SETM or fn.attr in ("copy",): return s.isset(fn.value, env, f)
                return fn.attr in s.ret
        return False

    def check(s):
        k = 0
        for f in s.fs:
            env = s.env(f); par = parents(f.node)
            for n in ast.walk(f.node):
                if not isinstance(n, ast.expr) or not s.isset(n, env, f): continue
                if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load): continue
                k += 1
                bad = s.sensitive(n, par, env, f)
                s.ck.ob("set-order", f"{f.short}/{ast.unparse(n)[:40]}", bad is None, f"the order of a set, which depends on hash values, decides what is simulated: {bad}", loc(f, n))
        return k

    def sensitive(s, n, par, env, f):
        p = par.get(n); t = lambda z: ast.unparse(z)[:60].split("\n")[0]
        if isinstance(p, (ast.For, ast.AsyncFor)) and p.iter is n: return None if all(s.quiet(b, p, f) for b in p.body) else t(p)
        if isinstance(p, ast.comprehension) and p.iter is n:
            c = par.get(p)
            if isinstance(c, ast.SetComp): return None
            return s.wrapped(c, par, t)
        if isinstance(p, ast.Call):
            fn = p.func
            if n in p.args or any(kk.value is n for kk in p.keywords):
                if isinstance(fn, ast.Name):
                    if fn.id in FREE: return None
                    if fn.id in ("sorted", "min", "max"): return None if not any(kk.arg == "key" for kk in p.keywords) else t(p)
                    if fn.id in ("iter", "map", "filter", "enumerate", "reversed"): return None    # is a set expression of its own
                    if fn.id in ("list", "tuple"): return s.wrapped(p, par, t)
                    if fn.id in ("sum", "next", "zip", "str", "repr", "dict"): return t(p)
                    r = f.mod.lookup(fn.id)
                    return None
                if isinstance(fn, ast.Attribute):
                    if fn.attr in ("extend", "choice", "choices", "sample", "shuffle", "join", "fromkeys", "array", "permutation", "chain", "dumps"): return t(p)
                    return None
        if isinstance(p, ast.Attribute) and p.value is n:
            c = par.get(p)
            if p.attr == "pop" and isinstance(c, ast.Call) and c.func is p: return t(c)
            return None
        if isinstance(p, ast.Starred): return s.wrapped(par.get(p), par, t)
        if isinstance(p, ast.AugAssign) and p.value is n and isinstance(p.op, ast.Add): return t(p)
        if isinstance(p, (ast.Assign,)) and any(isinstance(x, (ast.Tuple, ast.List)) for x in p.targets): return t(p)
        if isinstance(p, (ast.YieldFrom, ast.FormattedValue)): return t(p)
        return None

    def wrapped(s, c, par, t):
        """a sequence made of a set: only harmless if its order is thrown away at once"""
        q = par.get(c)
        if isinstance(q, ast.Call) and isinstance(q.func, ast.Name):
            if q.func.id in FREE: return None
            if q.func.id in ("sorted", "min", "max") and not any(kk.arg == "key" for kk in q.keywords): return None
        if isinstance(q, ast.Compare) and all(isinstance(o, (ast.In, ast.NotIn)) for o in q.ops): return None
        if isinstance(q, ast.Attribute) and q.attr in ("update", "issubset", "issuperset"): return None
        if isinstance(q, ast.Call) and isinstance(q.func, ast.Attribute) and q.func.attr in ("issubset", "issuperset", "intersection", "difference", "isdisjoint"): return None
        return t(c)

    def quiet(s, b, loop, f):
        """a statement whose effect does not depend on the order of the iterations"""
        if isinstance(b, (ast.Pass, ast.Raise, ast.Assert, ast.Continue)): return True
        if isinstance(b, ast.If): return all(s.quiet(x, loop, f) for x in b.body + b.orelse)
        if isinstance(b, ast.Return): return b.value is None or isinstance(b.value, ast.Constant)
        if isinstance(b, ast.Assign): return isinstance(b.value, ast.Constant) or all(isinstance(x, ast.Name) and not used_outside(x.id, loop, f) for x in b.targets) and not any(isinstance(x, ast.Call) for x in ast.walk(b.value))
        if isinstance(b, ast.Expr) and isinstance(b.value, ast.Call) and isinstance(b.value.func, ast.Attribute): return b.value.func.attr in ("add", "discard") or ast.unparse(b.value.func).startswith("logger.")
        if isinstance(b, ast.For): return all(s.quiet(x, loop, f) for x in b.body)
        if isinstance(b, ast.Break): return False
        return False


def used_outside(name, loop, f):
    inner = {id(x) for x in ast.walk(loop)}
    return any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Load) and id(x) not in inner for x in ast.walk(f.node))


# ---------------------------------------------------------------- state that outlives a run
MUT = ("append", "extend", "insert", "remove", "pop", "popleft", "appendleft", "clear", "update", "setdefault", "add", "discard", "sort", "reverse", "popitem", "__setitem__", "subtract")


def shared(ck, fs):
    mods = {f.mod.name: f.mod for f in fs}
    k = 0
    for mod in mods.values():
        for st in mod.tree.body:
            # draws and clocks at import time
            for n in ast.walk(st) if not isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)) else []:
                if isinstance(n, ast.Call):
                    d = dotted(mod, n.func) or ""
                    ck.ob("import-time", f"{mod.name}/{d}", d not in CLOCK and d not in GENS and not (d.startswith(("random.", "numpy.random."))), f"{d} is evaluated once when the module is imported and shared by all runs", f"{mod.rel}:{n.lineno}")
            if isinstance(st, ast.ClassDef):
                for b in st.body:
                    for n in ast.walk(b) if isinstance(b, (ast.Assign, ast.AnnAssign)) else []:
                        if isinstance(n, ast.Call):
                            d = dotted(mod, n.func) or ""
                            ck.ob("import-time", f"{mod.name}.{st.name}/{d}", d not in CLOCK and d not in GENS and not d.startswith(("random.", "numpy.random.", "itertools.")), f"{d} is evaluated once when the class is defined and shared by all runs", f"{mod.rel}:{n.lineno}")
    for f in fs:
        L = locals_of(f); k += 1
        for n in ast.walk(f.node):
            if isinstance(n, (ast.Global,)):
                for y in n.names: ck.ob("process-state", f"{f.short}/{y}", False, f"the module variable {y} is changed, so what ran earlier in the process influences a run", loc(f, n))
            b = None
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT: b = n.func.value
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "next" and n.args: b = n.args[0]
            elif isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)): b = n.value
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and n.args: b = n.args[0]
            if b is None: continue
            while isinstance(b, ast.Subscript): b = b.value
            r = b
            while isinstance(r, ast.Attribute): r = r.value
            if isinstance(r, ast.Call) and isinstance(r.func, ast.Name) and r.func.id == "type": ck.ob("process-state", f"{f.short}/{ast.unparse(b)[:40]}", False, "an attribute of a class is changed, so what ran earlier in the process influences a run", loc(f, n)); continue
            if "__class__" in ast.unparse(b).split("."): ck.ob("process-state", f"{f.short}/{ast.unparse(b)[:40]}", False, "an attribute of a class is changed, so what ran earlier in the process influences a run", loc(f, n)); continue
            if not isinstance(r, ast.Name): continue
            if r.id == "cls" and f.is_classmethod if hasattr(f, "is_classmethod") else r.id == "cls" and any("classmethod" in d for d in f.decorators) and not any("validator" in d for d in f.decorators):
                if not any("validator" in d for d in f.decorators): ck.ob("process-state", f"{f.short}/{ast.unparse(b)[:40]}", False, "an attribute of a class is changed, so what ran earlier in the process influences a run", loc(f, n))
                continue
            if r.id in L: 
                if r.id in ("self",) and isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name) and f.cls is not None:
                    o = class_mutable(ck, f.cls, b.attr)
                    if o: ck.ob("process-state", f"{f.short}/{b.attr}", False, f"{b.attr} is shared by all objects of {o.name}, so what ran earlier in the process influences a run", loc(f, n))
                continue
            rr = f.mod.lookup(r.id); isconst = r.id in f.mod.consts
            ck.ob("process-state", f"{f.short}/{ast.unparse(b)[:40]}", not (isconst or rr is not None and rr[0] in ("class", "module", "const") or r.id in imports(f.mod)), f"{ast.unparse(b)[:40]} outlives the run and is changed by it, so what ran earlier in the process influences a run", loc(f, n))
        # mutable default arguments
        a = f.node.args; ps = a.posonlyargs + a.args
        for p, d in list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp)) or isinstance(d, ast.Call) and not (isinstance(d.func, ast.Name) and d.func.id in ("Field", "tuple", "frozenset")):
                hit = None
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT and isinstance(n.func.value, ast.Name) and n.func.value.id == p.arg: hit = n
                    elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name) and n.value.id == p.arg: hit = n
                    elif isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id == p.arg and any(isinstance(t, ast.Attribute) for t in n.targets): hit = n
                ck.ob("process-state", f"{f.short}/{p.arg}", hit is None, f"the default of {p.arg} is one object shared by all calls and is kept or changed", loc(f, hit or f.node))
        for d in f.decorators:
            if d.split("(")[0].split(".")[-1] in ("lru_cache", "cache"):
                ck.ob("process-state", f"{f.short}/cache", not (f.params() and any(isinstance(n, ast.Call) and (dotted(f.mod, n.func) or "").startswith(("random.", "numpy.random.")) for n in ast.walk(f.node))) and f.cls is not None, "results of a function are remembered across runs", f.loc)
    return k


def class_mutable(ck, c, attr):
    """attr is a mutable attribute of a plain (not pydantic) class that its objects do not replace"""
    for k in c.mro():
        for b in k.node.body:
            tg = b.targets if isinstance(b, ast.Assign) else [b.target] if isinstance(b, ast.AnnAssign) and b.value is not None else []
            if any(isinstance(t, ast.Name) and t.id == attr for t in tg):
                if isinstance(b.value, (ast.List, ast.Dict, ast.Set, ast.Call)) and not pydantic(k) and not any("dataclass" in ast.unparse(d) for d in k.node.decorator_list):
                    for m in c.mro():
                        i = m.methods.get("__init__")
                        if i and any(isinstance(n, ast.Attribute) and n.attr == attr and isinstance(n.ctx, ast.Store) for n in ast.walk(i.node)): return None
                    return k
                return None
    return None


def pydantic(c):
    return any(ast.unparse(b).split(".")[-1] in ("BaseModel",) for k in c.mro() for b in k.node.bases)


def check(ck):
    brackets(ck)
    fs = scope(ck)
    ck.need("functions of the simulation", len(fs), 200)
    sources(ck, fs)
    s = Sets(ck, scope(ck, False)); s.check()     # validating a configuration only raises errors
    shared(ck, fs)
