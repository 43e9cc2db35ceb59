"""Source normalisation before analysis: accumulation loops become comprehensions."""
import ast

FN = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)


def names(n, ctx=None):
    return [x for x in ast.walk(n) if isinstance(x, ast.Name) and (ctx is None or isinstance(x.ctx, ctx))]


def _strip(body):
    return [s for s in body if not (isinstance(s, ast.Pass) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]


def _chain(body, x, gens):
    """body accumulates into x: -> element expression or None; appends to gens"""
    body = _strip(body)
    # guard clause: if c: continue ; rest
    if len(body) >= 2 and isinstance(body[0], ast.If) and not body[0].orelse and len(_strip(body[0].body)) == 1 and isinstance(_strip(body[0].body)[0], ast.Continue):
        c = body[0].test
        gens[-1].ifs.append(ast.copy_location(ast.UnaryOp(ast.Not(), c), c))
        return _chain(body[1:], x, gens)
    if len(body) != 1: return None
    s = body[0]
    if isinstance(s, ast.If) and not s.orelse:
        gens[-1].ifs.append(s.test); return _chain(s.body, x, gens)
    if isinstance(s, ast.For) and not s.orelse:
        gens.append(ast.comprehension(s.target, s.iter, [], 0)); return _chain(s.body, x, gens)
    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == "append" \
            and isinstance(s.value.func.value, ast.Name) and s.value.func.value.id == x and len(s.value.args) == 1 and not s.value.keywords and not isinstance(s.value.args[0], ast.Starred):
        return s.value.args[0]
    if isinstance(s, ast.AugAssign) and isinstance(s.op, ast.Add) and isinstance(s.target, ast.Name) and s.target.id == x and isinstance(s.value, ast.List) and len(s.value.elts) == 1:
        return s.value.elts[0]
    return None


def _empty(v): return isinstance(v, ast.List) and not v.elts or isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "list" and not v.args


def _block(fn, body):
    i = 0
    while i < len(body):
        s = body[i]
        for f in ("body", "orelse", "finalbody"):
            b = getattr(s, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt) and not isinstance(s, FN): _block(fn, b)
        for h in getattr(s, "handlers", []) or []: _block(fn, h.body)
        t = None
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and _empty(s.value): t = s.targets[0].id
        elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None and _empty(s.value): t = s.target.id
        if t:
            for j in range(i + 1, len(body)):
                u = body[j]
                if isinstance(u, ast.For) and not u.orelse and any(n.id == t for n in names(u)):
                    gens = [ast.comprehension(u.target, u.iter, [], 0)]
                    import copy
                    probe = copy.deepcopy(u)
                    gens = [ast.comprehension(probe.target, probe.iter, [], 0)]
                    e = _chain(probe.body, t, gens)
                    if e is None: break
                    comp = ast.ListComp(e, gens)
                    if any(n.id == t for n in names(comp)): break
                    if any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)) for n in ast.walk(comp)): break
                    lv = {n.id for g in gens for n in names(g.target)}
                    # loop variables are not used outside the loop
                    inside = {id(n) for n in ast.walk(u)}
                    if any(n.id in lv and id(n) not in inside and _after(fn, n, u) for n in names(fn, ast.Load)): break
                    ast.copy_location(comp, e); comp.lineno = u.lineno
                    new = ast.copy_location(ast.Assign([ast.copy_location(ast.Name(t, ast.Store()), u)], comp), u)
                    if isinstance(s, ast.AnnAssign):
                        new = ast.copy_location(ast.AnnAssign(ast.copy_location(ast.Name(t, ast.Store()), u), s.annotation, comp, 1), u)
                    ast.fix_missing_locations(new)
                    body[j] = new; del body[i]; i -= 1
                    break
                if any(n.id == t for n in names(u)): break
                if isinstance(u, (ast.Return, ast.Raise)): break
        i += 1


def _after(fn, n, u):
    """may n read the loop variable left over by loop u: a read that is not itself inside a scope rebinding it"""
    return n.lineno > u.lineno and not _rebound(fn, n)


def _rebound(fn, n):
    """n lies in a loop / comprehension that binds the same name"""
    for x in ast.walk(fn):
        if isinstance(x, (ast.For,)) and any(y.id == n.id for y in names(x.target)) and any(y is n for b in x.body for y in ast.walk(b)): return True
        if isinstance(x, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)) and any(y.id == n.id for g in x.generators for y in names(g.target)) and any(y is n for y in ast.walk(x)): return True
        if isinstance(x, ast.Lambda) and any(a.arg == n.id for a in x.args.args) and any(y is n for y in ast.walk(x)): return True
    return False


def _immediate(s):
    """expressions of a statement that are evaluated exactly once when it is reached"""
    if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.Return, ast.Expr)): return [s.value] if s.value is not None else []
    if isinstance(s, ast.If): return [s.test]
    if isinstance(s, ast.For): return [s.iter]
    if isinstance(s, ast.Raise): return [s.exc] if s.exc is not None else []
    return []


def _find_load(e, t):
    """the load of t in e, if it is evaluated unconditionally and before any call of e completes"""
    order = []
    def walk(n):
        if isinstance(n, (ast.Lambda, ast.FunctionDef)): return False
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)): return walk(n.generators[0].iter) if any(x.id == t for x in names(n.generators[0].iter)) else stop(n)
        if isinstance(n, ast.Name): return n if n.id == t else None
        if isinstance(n, ast.BoolOp): kids = n.values[:1]; rest = n.values[1:]
        elif isinstance(n, ast.IfExp): kids = [n.test]; rest = [n.body, n.orelse]
        else: kids = list(ast.iter_child_nodes(n)); rest = []
        for k in kids:
            r = walk(k)
            if r is not None: return r
        if rest or isinstance(n, (ast.Call, ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)): return False
        return None
    def stop(n): return False
    r = walk(e)
    return r if isinstance(r, ast.Name) else None


class _Put(ast.NodeTransformer):
    def __init__(self, old, new): self.old = old; self.new = new
    def visit_Name(self, n): return self.new if n is self.old else n


def _temps(fn, body):
    """t = E; stmt using t once  ->  stmt with E, for a local t used nowhere else"""
    for s in body:
        for f in ("body", "orelse", "finalbody"):
            b = getattr(s, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt) and not isinstance(s, FN): _temps(fn, b)
        for h in getattr(s, "handlers", []) or []: _temps(fn, h.body)
    i = len(body) - 2
    while i >= 0:
        s = body[i]
        t = s.targets[0].id if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) else None
        if t and i + 1 < len(body) and isinstance(body[i + 1], ast.Return) and isinstance(body[i + 1].value, ast.Name) and body[i + 1].value.id == t \
                and not any(isinstance(x, (ast.Global, ast.Nonlocal)) and t in x.names for x in ast.walk(fn)):
            body[i:i + 2] = [ast.copy_location(ast.Return(s.value), s)]; i -= 1; continue
        if t:
            j = i + 1
            while j < len(body) and (isinstance(body[j], ast.Pass) or isinstance(body[j], ast.Expr) and isinstance(body[j].value, ast.Constant)): j += 1
            if j < len(body) and len([n for n in names(fn) if n.id == t]) == 2 and t not in {a.arg for a in ast.walk(fn) if isinstance(a, ast.arg)} \
                    and not any(isinstance(x, (ast.Global, ast.Nonlocal)) and t in x.names for x in ast.walk(fn)) \
                    and not any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr, ast.Lambda)) for n in ast.walk(s.value)):
                for e in _immediate(body[j]):
                    u = _find_load(e, t)
                    if u is not None:
                        v = s.value
                        for fld in ("value", "test", "iter", "exc"):
                            if getattr(body[j], fld, None) is e: setattr(body[j], fld, _Put(u, v).visit(e))
                        del body[i]; break
        i -= 1


def normalise(tree):
    for f in [n for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef))]:
        _temps(f, f.body)
        _block(f, f.body)
        _temps(f, f.body)
    return tree
