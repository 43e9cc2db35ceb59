"""Behaviour-preserving rewrites of the whole repository; every check must stay quiet on each.
usage: tools/refactor.py [R1 R2 ...] [-p P02,P05]"""
import ast, copy, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FN = (ast.FunctionDef, ast.AsyncFunctionDef)


def funcs(tree):
    return [n for n in ast.walk(tree) if isinstance(n, FN)]


def own(fn):
    """nodes of fn outside nested defs/lambdas"""
    out = []
    def w(n):
        for c in ast.iter_child_nodes(n):
            out.append(c)
            if not isinstance(c, FN + (ast.Lambda, ast.ClassDef)): w(c)
    w(fn)
    return out


def isgen(fn): return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own(fn))


class Rename(ast.NodeTransformer):
    def __init__(self, m): self.m = m
    def visit_Name(self, n):
        if n.id in self.m: n.id = self.m[n.id]
        return n


def R1(tree):
    "rename local variables"
    imported = {(a.asname or a.name).split(".")[0] for n in ast.walk(tree) if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
    for f in funcs(tree):
        if any(isinstance(n, FN + (ast.Lambda, ast.ClassDef, ast.Global, ast.Nonlocal, ast.Import, ast.ImportFrom, ast.ExceptHandler)) for n in own(f)): continue
        if any(f is not g and f in own(g) for g in funcs(tree)): continue
        params = {a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs} | {a.arg for a in (f.args.vararg, f.args.kwarg) if a}
        loc = {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - params
        loc -= {n.id for c in ast.walk(f) if isinstance(c, ast.comprehension) for n in ast.walk(c.target) if isinstance(n, ast.Name)} & imported
        Rename({x: x + "_lv" for x in loc}).visit(f)
    return tree


class Body(ast.NodeTransformer):
    """maps statements to lists of statements"""
    def stmts(self, l):
        out = []
        for s in l:
            s = self.generic_visit(s) if not isinstance(s, list) else s
            r = self.st(s)
            out += r if isinstance(r, list) else [r]
        return out
    def generic_visit(self, n):
        for f, v in ast.iter_fields(n):
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt): setattr(n, f, self.stmts(v))
            elif isinstance(v, list):
                for x in v:
                    if isinstance(x, ast.AST): self.visit(x)
            elif isinstance(v, ast.AST): self.visit(v)
        return n


def infn(cls):
    def run(tree):
        for f in funcs(tree):
            f.body = cls(f).stmts(f.body) if not any(f is not g and f in own(g) for g in funcs(tree)) else f.body
        return tree
    run.__doc__ = cls.__doc__
    return run


class _R2(Body):
    "return via a local variable"
    def __init__(self, f): self.f = f
    def st(self, s):
        if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
            return [ast.Assign([ast.Name("result_value", ast.Store())], s.value, lineno=0), ast.Return(ast.Name("result_value", ast.Load()))]
        return s


class _R3(Body):
    "invert if/else"
    def __init__(self, f): self.f = f
    def st(self, s):
        if isinstance(s, ast.If) and s.orelse: return ast.If(ast.UnaryOp(ast.Not(), s.test), s.orelse, s.body)
        return s


class _R5(Body):
    "guard clauses: last if of a loop body becomes continue"
    def __init__(self, f): self.f = f
    def st(self, s):
        if isinstance(s, (ast.For, ast.While)) and s.body and isinstance(s.body[-1], ast.If) and not s.body[-1].orelse:
            i = s.body[-1]
            s.body = s.body[:-1] + [ast.If(ast.UnaryOp(ast.Not(), i.test), [ast.Continue()], [])] + i.body
        return s


class _R6(Body):
    "list comprehension assigned to a name becomes a loop"
    def __init__(self, f): self.f = f
    def st(self, s):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1:
            g = s.value.generators[0]; nm = s.targets[0].id
            names = {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            if any(isinstance(x, ast.Name) and x.id == nm for x in ast.walk(s.value)): return s
            used = sum(isinstance(x, ast.Name) and x.id in names for x in ast.walk(self.f))
            here = sum(isinstance(x, ast.Name) and x.id in names for x in ast.walk(s.value))
            if used != here or names & {a.arg for a in self.f.args.args}: return s
            body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(nm, ast.Load()), "append", ast.Load()), [s.value.elt], []))]
            for c in reversed(g.ifs): body = [ast.If(c, body, [])]
            return [ast.Assign(s.targets, ast.List([], ast.Load()), lineno=0), ast.For(g.target, g.iter, body, [], lineno=0)]
        return s


class _R8(Body):
    "conditional expression becomes if/else"
    def __init__(self, f): self.f = f
    def st(self, s):
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp):
            return ast.If(s.value.test, [ast.Assign(s.targets, s.value.body, lineno=0)], [ast.Assign(copy.deepcopy(s.targets), s.value.orelse, lineno=0)])
        if isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
            return ast.If(s.value.test, [ast.Return(s.value.body)], [ast.Return(s.value.orelse)])
        return s


class _R15(Body):
    "if a and b becomes nested ifs"
    def __init__(self, f): self.f = f
    def st(self, s):
        if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
            b = s.body
            for v in reversed(s.test.values): b = [ast.If(v, b, [])]
            return b[0]
        return s


class _R13(Body):
    "hoist the first argument of a call statement into a local"
    def __init__(self, f): self.f = f; self.k = 0
    def st(self, s):
        v = s.value if isinstance(s, (ast.Expr, ast.Assign, ast.Return)) else None
        if isinstance(v, ast.Call) and v.args and isinstance(v.args[0], (ast.Attribute, ast.Call, ast.BinOp, ast.ListComp, ast.List, ast.Subscript)) and isinstance(v.func, (ast.Name, ast.Attribute)) and not any(isinstance(x, ast.Call) for x in ast.walk(v.func)):
            self.k += 1; nm = f"argument_{self.k}"
            a = v.args[0]; v.args[0] = ast.Name(nm, ast.Load())
            return [ast.Assign([ast.Name(nm, ast.Store())], a, lineno=0), s]
        return s


class _R16(Body):
    "conditions of ifs via a local variable"
    def __init__(self, f): self.f = f; self.k = 0
    def st(self, s):
        if isinstance(s, ast.If) and isinstance(s.test, (ast.Compare, ast.BoolOp, ast.UnaryOp)):
            self.k += 1; nm = f"condition_{self.k}"
            t = s.test; s.test = ast.Name(nm, ast.Load())
            if isinstance(s, ast.If): return [ast.Assign([ast.Name(nm, ast.Store())], t, lineno=0), s]
        return s


class _R17(Body):
    "while c: ... becomes while True: if not c: break"
    def __init__(self, f): self.f = f
    def st(self, s):
        if isinstance(s, ast.While) and not s.orelse and not (isinstance(s.test, ast.Constant)):
            s.body = [ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Break()], [])] + s.body; s.test = ast.Constant(True)
        return s


class _R18(Body):
    "yield env.process(x) via a local"
    def __init__(self, f): self.f = f; self.k = 0
    def st(self, s):
        v = s.value if isinstance(s, (ast.Expr, ast.Assign)) else None
        if isinstance(v, ast.Yield) and isinstance(v.value, ast.Call):
            self.k += 1; nm = f"event_{self.k}"
            e = v.value; v.value = ast.Name(nm, ast.Load())
            return [ast.Assign([ast.Name(nm, ast.Store())], e, lineno=0), s]
        return s


class _R19(Body):
    "else after return / continue is dropped"
    def __init__(self, f): self.f = f
    def st(self, s):
        if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Continue, ast.Break, ast.Raise)):
            e = s.orelse; s.orelse = []
            return [s] + e
        return s


def R4(tree):
    "statements that do nothing"
    for f in funcs(tree):
        i = 1 if f.body and isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
        f.body.insert(i, ast.parse("_unused = None").body[0])
        for n in own(f):
            if isinstance(n, (ast.For, ast.While, ast.If)): n.body.insert(0, ast.Pass())
    return tree


def R10(tree):
    "method bodies move into helper methods"
    for c in [n for n in ast.walk(tree) if isinstance(n, ast.ClassDef)]:
        new = []
        for f in c.body:
            new.append(f)
            if not isinstance(f, ast.FunctionDef) or f.decorator_list or f.name.startswith("__") or f.args.vararg or f.args.kwarg or f.args.kwonlyargs or f.args.posonlyargs: continue
            if any(isinstance(n, ast.Name) and n.id == "super" for n in ast.walk(f)) or not f.args.args or f.args.args[0].arg != "self": continue
            if any(isinstance(n, ast.Raise) and "NotImpl" in ast.unparse(n) for n in ast.walk(f)): continue
            h = copy.deepcopy(f); h.name = f"do_{c.name.lower()}_{f.name}"; h.args.defaults = []
            call = ast.Call(ast.Attribute(ast.Name("self", ast.Load()), h.name, ast.Load()), [ast.Name(a.arg, ast.Load()) for a in f.args.args[1:]], [])
            f.body = [ast.Return(ast.YieldFrom(call))] if isgen(f) else [ast.Return(call)]
            new.append(h)
        c.body = new
    return tree


class _R11(ast.NodeTransformer):
    def visit_Compare(self, n):
        self.generic_visit(n)
        F = {ast.Eq: ast.Eq, ast.NotEq: ast.NotEq, ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
        if len(n.ops) == 1 and type(n.ops[0]) in F and not any(isinstance(x, (ast.Call, ast.Yield)) for x in ast.walk(n)): return ast.Compare(n.comparators[0], [F[type(n.ops[0])]()], [n.left])
        return n


def R11(tree):
    "comparisons are flipped"
    for f in funcs(tree): _R11().visit(f)
    return tree


def R14(tree):
    "self.env / self.data are read into locals"
    for f in funcs(tree):
        if not f.args.args or f.args.args[0].arg != "self": continue
        for a in ("env", "resource", "data"):
            if any(isinstance(n, ast.Attribute) and n.attr == a and isinstance(n.ctx, ast.Store) for n in ast.walk(f)): continue
            uses = [n for n in ast.walk(f) if isinstance(n, ast.Attribute) and n.attr == a and isinstance(n.value, ast.Name) and n.value.id == "self"]
            if not uses or any(isinstance(n, ast.Name) and n.id == f"the_{a}" for n in ast.walk(f)): continue
            if any(isinstance(n, FN) for n in own(f)): continue
            class T(ast.NodeTransformer):
                def visit_Attribute(s, n):
                    s.generic_visit(n)
                    if n.attr == a and isinstance(n.value, ast.Name) and n.value.id == "self" and isinstance(n.ctx, ast.Load): return ast.Name(f"the_{a}", ast.Load())
                    return n
            # only where the first statement certainly reads it or it is always there
            if f.name in ("__init__",) or f.decorator_list or a != "env": continue
            T().visit(f)
            f.body.insert(0, ast.parse(f"the_{a} = self.{a}").body[0])
    return tree


R2, R3, R5, R6, R8, R13, R15, R16, R17, R18, R19 = map(infn, (_R2, _R3, _R5, _R6, _R8, _R13, _R15, _R16, _R17, _R18, _R19))
ALL = {k: v for k, v in list(globals().items()) if k.startswith("R") and k[1:].isdigit()}


def make(name, d):
    for top in ("prodsys",):
        shutil.copytree(os.environ.get("MUT_REPO", "/repo") + f"/{top}", f"{d}/{top}", ignore=shutil.ignore_patterns("__pycache__", "*.html", "*.png"))
    for x in os.listdir(os.environ.get("MUT_REPO", "/repo")):
        if x.endswith("_api") or x == "app":
            if os.path.isdir(os.environ.get("MUT_REPO", "/repo") + "/" + x): shutil.copytree(os.environ.get("MUT_REPO", "/repo") + "/" + x, f"{d}/{x}", ignore=shutil.ignore_patterns("__pycache__"))
    for r, _, fs in os.walk(d):
        for f in fs:
            if f.endswith(".py"):
                p = os.path.join(r, f); src = open(p, encoding="utf-8").read()
                t = ALL[name](ast.parse(src)); ast.fix_missing_locations(t)
                out = ast.unparse(t); compile(out, p, "exec")
                open(p, "w", encoding="utf-8").write(out)


def run(name, pids):
    d = tempfile.mkdtemp(prefix="ref_", dir="/tmp")
    try:
        make(name, d)
        out = []
        for pid in pids:
            r = subprocess.run([sys.executable, "-m", "sa.run", pid], cwd=HERE, env=dict(os.environ, SA_REPO=d, SA_EVIDENCE=d + "/ev"), capture_output=True, text=True)
            if r.returncode != 0: out.append((pid, r.returncode, [l for l in (r.stdout + r.stderr).splitlines() if not l.startswith("KNOWN")][-14:]))
        return name, out
    finally: shutil.rmtree(d)


if __name__ == "__main__":
    a = sys.argv[1:]; pids = None
    if "-p" in a: i = a.index("-p"); pids = a[i + 1].split(","); del a[i:i + 2]
    if "--make" in a:
        make(a[1], a[2]); sys.exit()
    pids = pids or sorted(f[:-3].upper() for f in os.listdir(HERE + "/sa/checks") if f.startswith("p") and f.endswith(".py"))
    with ThreadPoolExecutor(8) as ex:
        for name, out in ex.map(lambda n: run(n, pids), a or sorted(ALL, key=lambda k: int(k[1:]))):
            print(name, ALL[name].__doc__, "--", "quiet" if not out else "")
            for pid, rc, ls in out:
                print("  ", pid, rc)
                for l in ls: print("      ", l[:260])
