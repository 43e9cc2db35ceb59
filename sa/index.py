"""Whole-program index of /repo's Python sources (parsed, never executed)."""
from __future__ import annotations
import ast, os
from .norm import normalise
from typing import Dict, List, Optional

REPO = os.environ.get("SA_REPO", "/repo")


class AnchorError(Exception):
    """Something a rule is anchored on does not exist (any more)."""


class FuncInfo:
    def __init__(self, node, mod, cls=None, parent=None):
        self.node = node; self.mod = mod; self.cls = cls; self.name = node.name; self.parent = parent
        decs = [dec_name(d) for d in node.decorator_list]
        self.decorators = decs
        self.is_property = any(d in ("property", "cached_property", "functools.cached_property") for d in decs)
        self.is_static = "staticmethod" in decs
        self.is_classmethod = "classmethod" in decs or any(d.split(".")[-1] in ("field_validator", "model_validator", "validator", "root_validator") for d in decs)
        self.is_abstract = any(d.split(".")[-1] == "abstractmethod" for d in decs)
        self.is_generator = has_yield(node)

    @property
    def qual(self):
        return f"{self.mod.name}.{self.cls.name + '.' if self.cls else ''}{self.name}"

    @property
    def short(self):
        return f"{self.cls.name + '.' if self.cls else ''}{self.name}"

    @property
    def loc(self):
        return f"{self.mod.rel}:{self.node.lineno}"

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def all_params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]

    def required_params(self, bound=True):
        a = self.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        n = len(pos) - len(a.defaults)
        req = pos[:n] + [k.arg for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
        if bound and self.cls and not self.is_static and req:
            req = req[1:]
        return req

    def __repr__(self):
        return f"<fn {self.qual}>"


class ClassInfo:
    def __init__(self, node, mod):
        self.node = node; self.mod = mod; self.name = node.name
        self.methods: Dict[str, FuncInfo] = {}
        self.fields: Dict[str, tuple] = {}
        self.order: List[str] = []
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.methods[st.name] = FuncInfo(st, mod, self)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                self.fields[st.target.id] = (st.annotation, st.value); self.order.append(st.target.id)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.fields[t.id] = (None, st.value); self.order.append(t.id)
        self._mro = None; self.outer = None

    @property
    def qual(self): return f"{self.mod.name}.{self.name}"

    @property
    def loc(self): return f"{self.mod.rel}:{self.node.lineno}"

    def bases(self):
        out = []
        for b in self.node.bases:
            r = self.mod.resolve_expr(b)
            if r and r[0] == "class": out.append(r[1])
        return out

    def base_names(self):
        return [dotted(b) or "" for b in self.node.bases]

    def mro(self):
        if self._mro is None:
            self._mro = [self]
            for b in self.bases():
                for c in b.mro():
                    if c not in self._mro: self._mro.append(c)
        return self._mro

    def find_method(self, name) -> Optional[FuncInfo]:
        for c in self.mro():
            if name in c.methods: return c.methods[name]
        return None

    def find_field(self, name):
        for c in self.mro():
            if name in c.fields: return c, c.fields[name]
        return None

    def all_fields(self):
        out = {}
        for c in reversed(self.mro()):
            for k in c.order: out[k] = (c, c.fields[k])
        return out

    def is_sub(self, other):
        return other in self.mro()

    def __repr__(self): return f"<class {self.qual}>"


def dec_name(d):
    if isinstance(d, ast.Call): d = d.func
    return dotted(d) or ""


def dotted(e):
    if isinstance(e, ast.Name): return e.id
    if isinstance(e, ast.Attribute):
        b = dotted(e.value)
        return f"{b}.{e.attr}" if b else None
    return None


def has_yield(fn):
    stack = list(fn.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)): return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)): continue
        stack.extend(ast.iter_child_nodes(n))
    return False


class Module:
    def __init__(self, project, name, path, rel):
        self.project = project; self.name = name; self.path = path; self.rel = rel
        with open(path, encoding="utf-8") as f: self.src = f.read()
        self.tree = normalise(ast.parse(self.src))
        self.is_pkg = os.path.basename(path) == "__init__.py"
        self.funcs: Dict[str, FuncInfo] = {}
        self.classes: Dict[str, ClassInfo] = {}
        self.consts: Dict[str, ast.expr] = {}
        self.imports: Dict[str, tuple] = {}
        for n in ast.walk(self.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname: self.imports[a.asname] = ("mod", a.name)
                    else: self.imports[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ""
                if n.level:
                    parts = self.name.split(".")
                    if not self.is_pkg: parts = parts[:-1]
                    parts = parts[:len(parts) - (n.level - 1)]
                    base = ".".join(parts + ([n.module] if n.module else []))
                for a in n.names:
                    if a.name == "*": self.imports.setdefault("*", ("star", []))[1].append(base)
                    else: self.imports[a.asname or a.name] = ("from", base, a.name)
        self._top(self.tree.body)
        self._nested()

    def _nested(self):
        """classes defined inside functions are indexed like top-level ones; .outer is the enclosing function"""
        for f in list(self.funcs.values()) + [m for c in self.classes.values() for m in c.methods.values()]:
            for n in ast.walk(f.node):
                if isinstance(n, ast.ClassDef) and n.name not in self.classes:
                    self.classes[n.name] = c = ClassInfo(n, self); c.outer = f

    def _top(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)): self.funcs[st.name] = FuncInfo(st, self)
            elif isinstance(st, ast.ClassDef): self.classes[st.name] = ClassInfo(st, self)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name): self.consts[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                self.consts[st.target.id] = st.value
            elif isinstance(st, ast.If):
                self._top(st.body); self._top(st.orelse)
            elif isinstance(st, ast.Try):
                self._top(st.body)
                for h in st.handlers: self._top(h.body)

    def lookup(self, name, seen=None):
        """-> ('class',ClassInfo)|('func',FuncInfo)|('const',Module,expr)|('mod',name)|('ext',dotted)|None"""
        seen = seen or set()
        if (self.name, name) in seen: return None
        seen.add((self.name, name))
        if name in self.classes: return ("class", self.classes[name])
        if name in self.funcs: return ("func", self.funcs[name])
        if name in self.consts: return ("const", self, self.consts[name])
        if name in self.imports and name != "*":
            imp = self.imports[name]
            if imp[0] == "mod":
                return ("mod", imp[1]) if imp[1] in self.project.modules else ("ext", imp[1])
            base, sym = imp[1], imp[2]
            if base in self.project.modules:
                m = self.project.modules[base]
                if f"{base}.{sym}" in self.project.modules and sym not in m.classes and sym not in m.funcs and sym not in m.consts:
                    return ("mod", f"{base}.{sym}")
                return m.lookup(sym, seen)
            if f"{base}.{sym}" in self.project.modules: return ("mod", f"{base}.{sym}")
            return ("ext", f"{base}.{sym}")
        for b in self.imports.get("*", ("star", []))[1]:
            if b in self.project.modules:
                r = self.project.modules[b].lookup(name, seen)
                if r: return r
        return None

    def resolve_expr(self, e):
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            try: e = ast.parse(e.value, mode="eval").body
            except SyntaxError: return None
        if isinstance(e, ast.Name): return self.lookup(e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(e.value)
            if not b: return None
            if b[0] == "mod":
                m = self.project.modules.get(b[1])
                if m is None: return ("ext", f"{b[1]}.{e.attr}")
                r = m.lookup(e.attr)
                if r: return r
                if f"{b[1]}.{e.attr}" in self.project.modules: return ("mod", f"{b[1]}.{e.attr}")
                return None
            if b[0] == "ext": return ("ext", f"{b[1]}.{e.attr}")
            if b[0] == "class":
                m = b[1].find_method(e.attr)
                if m: return ("func", m)
                f = b[1].find_field(e.attr)
                if f: return ("member", b[1], e.attr)
        if isinstance(e, ast.Subscript): return None
        return None


class Project:
    def __init__(self, root=None):
        self.root = root or REPO
        self.modules: Dict[str, Module] = {}
        for top in ("prodsys", "app"):
            for d, dirs, files in os.walk(os.path.join(self.root, top)):
                dirs[:] = sorted(x for x in dirs if x not in ("__pycache__",))
                for f in sorted(files):
                    if f.endswith(".py"): self._add(os.path.join(d, f))
        p = os.path.join(self.root, "prodsys_api.py")
        if os.path.exists(p): self._add(p)
        if not self.modules: raise AnchorError(f"no sources under {self.root}")
        self._subs = None

    def _add(self, path):
        rel = os.path.relpath(path, self.root)
        name = rel[:-3].replace(os.sep, ".")
        if name.endswith(".__init__"): name = name[:-9]
        try: self.modules[name] = Module(self, name, path, rel)
        except SyntaxError as e: raise AnchorError(f"{rel} does not parse: {e}")

    def mod(self, name) -> Module:
        if name not in self.modules: raise AnchorError(f"module {name} not found")
        return self.modules[name]

    def cls(self, qual) -> ClassInfo:
        m, c = qual.rsplit(".", 1)
        r = self.mod(m).lookup(c)
        if not r or r[0] != "class": raise AnchorError(f"class {qual} not found")
        return r[1]

    def func(self, qual) -> FuncInfo:
        """'pkg.mod.func' or 'pkg.mod.Class.method'"""
        m, f = qual.rsplit(".", 1)
        if m in self.modules:
            r = self.modules[m].lookup(f)
            if r and r[0] == "func": return r[1]
            raise AnchorError(f"function {qual} not found")
        mm, c = m.rsplit(".", 1)
        ci = self.cls(m)
        fi = ci.find_method(f)
        if not fi: raise AnchorError(f"method {qual} not found")
        return fi

    def all_classes(self):
        for m in self.modules.values():
            for c in m.classes.values(): yield c

    def all_funcs(self, prefix=""):
        for m in self.modules.values():
            if not m.name.startswith(prefix): continue
            for f in m.funcs.values(): yield f
            for c in m.classes.values():
                for f in c.methods.values(): yield f

    def subclasses(self, ci):
        if self._subs is None:
            self._subs = {}
            for c in self.all_classes():
                for b in c.mro()[1:]: self._subs.setdefault(b, []).append(c)
        return self._subs.get(ci, [])

    # ---- types -----------------------------------------------------------
    def ann_type(self, e, mod, depth=0):
        """annotation -> frozenset of ('C',ClassInfo)|('L',T)|('D',T)|('T',(T..))|('X',name)"""
        if e is None or depth > 8: return frozenset()
        if isinstance(e, ast.Constant):
            if isinstance(e.value, str):
                try: return self.ann_type(ast.parse(e.value, mode="eval").body, mod, depth + 1)
                except SyntaxError: return frozenset()
            if e.value is None: return frozenset()
            return frozenset()
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitOr):
            return self.ann_type(e.left, mod, depth + 1) | self.ann_type(e.right, mod, depth + 1)
        if isinstance(e, ast.Subscript):
            h = (dotted(e.value) or "").split(".")[-1]
            sl = e.slice
            args = list(sl.elts) if isinstance(sl, ast.Tuple) else [sl]
            if h in ("Optional", "Union", "Annotated", "Type", "Final"):
                if h == "Annotated": args = args[:1]
                out = frozenset()
                for a in args: out |= self.ann_type(a, mod, depth + 1)
                return out
            if h in ("List", "list", "Sequence", "Iterable", "Iterator", "Set", "set", "FrozenSet"):
                return frozenset([("L", self.ann_type(args[0], mod, depth + 1))])
            if h in ("Generator",):
                a = args[2] if len(args) > 2 else args[0]
                return self.ann_type(a, mod, depth + 1)
            if h in ("Dict", "dict", "Mapping", "DefaultDict"):
                return frozenset([("D", self.ann_type(args[-1], mod, depth + 1))])
            if h in ("Tuple", "tuple"):
                return frozenset([("T", tuple(self.ann_type(a, mod, depth + 1) for a in args))])
            return frozenset()
        if isinstance(e, (ast.Name, ast.Attribute)):
            r = mod.resolve_expr(e)
            if r is None: return frozenset([("X", dotted(e))])
            if r[0] == "class": return frozenset([("C", r[1])])
            if r[0] == "const": return self.ann_type(r[2], r[1], depth + 1)
            return frozenset([("X", dotted(e))])
        return frozenset()

    def attr_type(self, t, attr):
        out = frozenset()
        for k in t:
            if k[0] == "C":
                f = k[1].find_field(attr)
                if f and f[1][0] is not None:
                    out |= self.ann_type(f[1][0], f[0].mod)
                    continue
                m = k[1].find_method(attr)
                if m and m.is_property:
                    out |= self.ann_type(m.node.returns, m.mod)
                    continue
                out |= self._init_attr_type(k[1], attr)
        return out

    def _init_attr_type(self, ci, attr):
        for c in ci.mro():
            m = c.methods.get("__init__")
            if not m: continue
            anns = {a.arg: a.annotation for a in m.node.args.args}
            for n in ast.walk(m.node):
                tgt = None
                if isinstance(n, ast.AnnAssign): tgt, ann, val = n.target, n.annotation, n.value
                elif isinstance(n, ast.Assign) and len(n.targets) == 1: tgt, ann, val = n.targets[0], None, n.value
                if tgt is not None and isinstance(tgt, ast.Attribute) and isinstance(tgt.value, ast.Name) and tgt.value.id == "self" and tgt.attr == attr:
                    if ann is not None: return self.ann_type(ann, c.mod)
                    if isinstance(val, ast.Name) and anns.get(val.id) is not None: return self.ann_type(anns[val.id], c.mod)
                    if isinstance(val, ast.Call):
                        r = c.mod.resolve_expr(val.func)
                        if r and r[0] == "class": return frozenset([("C", r[1])])
        return frozenset()

    def elem_type(self, t):
        out = frozenset()
        for k in t:
            if k[0] in ("L", "D"): out |= k[1]
            elif k[0] == "T":
                for x in k[1]: out |= x
        return out

    # ---- value sets of enums / Literals ---------------------------------
    def enum_values(self, ci):
        """Enum class -> {member: value}"""
        out = {}
        for k in ci.order:
            v = ci.fields[k][1]
            if isinstance(v, ast.Constant) and not k.startswith("_"): out[k] = v.value
        return out

    def is_enum(self, ci):
        return any("Enum" in n for c in ci.mro() for n in c.base_names())


def classes_in(t):
    out = []
    for k in t:
        if k[0] == "C": out.append(k[1])
    return out
