"""Shared analyses on inlined graphs."""
from __future__ import annotations
import ast
from .index import ClassInfo, FuncInfo, AnchorError, dotted, classes_in
from .flow import Graph, norm_atom


# ---- linear arithmetic normal form -------------------------------------------------
def lin(g, t, node):
    """term -> {atom: coef, 1: const} (linear over rendered atoms)"""
    t = g.resolve(t, node)
    return _lin(g, t)


def _add(a, b, k=1):
    out = dict(a)
    for x, v in b.items():
        out[x] = out.get(x, 0) + k * v
        if out[x] == 0: del out[x]
    return out


def _lin(g, t):
    k = t[0]
    if k == "const" and isinstance(t[1], (int, float)) and not isinstance(t[1], bool): return {1: t[1]} if t[1] else {}
    if k == "bin" and t[1] in ("+", "-"): return _add(_lin(g, t[2]), _lin(g, t[3]), 1 if t[1] == "+" else -1)
    if k == "bin" and t[1] == "*":
        for a, b in ((t[2], t[3]), (t[3], t[2])):
            if a[0] == "const" and isinstance(a[1], (int, float)):
                return {x: v * a[1] for x, v in _lin(g, b).items()} if a[1] else {}
    if k == "neg": return {x: -v for x, v in _lin(g, t[1]).items()}
    return {g.render(t): 1}


def lin_atom(g, term, node):
    """comparison term -> canonical ('<=0'|'==0', frozenset(lin items)) over integers, or None"""
    t = g.resolve(term, node); pol = True
    while t[0] == "not": t = t[1]; pol = not pol
    if t[0] != "cmp": return None
    op, a, b = t[1], t[2], t[3]
    la, lb = _lin(g, a), _lin(g, b)
    if not pol: op = {"<": ">=", ">": "<=", "<=": ">", ">=": "<", "==": "!=", "!=": "=="}.get(op, op)
    return canon_ineq(op, la, lb)


def canon_ineq(op, la, lb):
    if op == "<=": d = _add(la, lb, -1)
    elif op == ">=": d = _add(lb, la, -1)
    elif op == "<": d = _add(_add(la, lb, -1), {1: 1})
    elif op == ">": d = _add(_add(lb, la, -1), {1: 1})
    elif op in ("==", "!="):
        d = _add(la, lb, -1)
        items = sorted(d.items(), key=lambda z: str(z[0]))
        if items and items[0][1] < 0: d = {k: -v for k, v in d.items()}
        return (op, frozenset(d.items()))
    else: return None
    return ("<=", frozenset(d.items()))


def ineq(text_op, a, b):
    """build a canonical inequality from {atom:coef} dicts"""
    return canon_ineq(text_op, {k: v for k, v in a.items() if v}, {k: v for k, v in b.items() if v})


def edge_ineq(g, branch, label):
    """canonical inequality established by taking `label` of a branch"""
    t = branch.term if label else ("not", branch.term)
    return lin_atom(g, t, branch)


# ---- attribute deltas ------------------------------------------------------------------
def attr_deltas(g, attr, base="self", cap=6):
    """possible net changes of base.attr from entry to every node: {node id: set(ints) | None(top)}"""
    state = {g.entry.id: frozenset([0])}
    work = [g.entry.id]
    while work:
        nid = work.pop()
        n = g.nodes[nid]; cur = state[nid]
        out = cur
        if n.kind == "store" and n.attr == attr and g.r(n.base, n) == base:
            l = lin(g, n.value, n)
            me = f"{base}.{attr}"
            if l.get(me) == 1 and set(l) <= {me, 1}:
                out = None if cur is None else frozenset(x + l.get(1, 0) for x in cur)
            else: out = None
        if out is not None and len(out) > cap: out = None
        for s, lab in n.succ:
            o = out if not (n.kind == "store" and False) else cur
            old = state.get(s, frozenset())
            new = None if (o is None or old is None) else old | o
            if new is not None and len(new) > cap: new = None
            if s not in state or new != old:
                state[s] = new; work.append(s)
    return state


def event_counts(g, is_event, start=None, cap=4, reset=None):
    """possible numbers of events (saturating at cap) on paths from start to each node (before executing it)"""
    start = start or g.entry
    state = {start.id: frozenset([0])}; work = [start.id]
    ev = {n.id for n in g.nodes if is_event(n)}
    while work:
        nid = work.pop(); cur = state[nid]
        out = frozenset(min(cap, x + 1) for x in cur) if nid in ev else cur
        if reset is not None and reset(g.nodes[nid]): out = frozenset([0])
        for s, lab in g.nodes[nid].succ:
            old = state.get(s, frozenset()); new = old | out
            if s not in state or new != old: state[s] = new; work.append(s)
    return state


# ---- predicates as DNF ---------------------------------------------------------------
def paths_to(g, target, start=None, limit=3000, loop=1, exc=False):
    """simple-ish path enumeration (each node visited at most `loop`+1 times)"""
    out = []; start = start or g.entry
    st = [(start.id, (start.id,), {start.id: 1})]
    # prune to nodes that reach target
    back = {target.id}; w = [target.id]
    while w:
        for p, l in g.nodes[w.pop()].pred:
            if p not in back and (exc or l != "exc"): back.add(p); w.append(p)
    while st:
        nid, path, cnt = st.pop()
        if nid == target.id: out.append([g.nodes[i] for i in path]); 
        if len(out) > limit: return out
        if nid == target.id: continue
        for s, l in g.nodes[nid].succ:
            if s not in back or (l == "exc" and not exc): continue
            if cnt.get(s, 0) > loop: continue
            c2 = dict(cnt); c2[s] = c2.get(s, 0) + 1
            st.append((s, path + (s,), c2))
    return out


def literals(g, path):
    out = []
    for n in path:
        if n.kind == "edge":
            b = g.nodes[n.of]
            if b.kind == "branch": out.append(("" if n.label else "!") + g.r(b.term, b))
    return out


def dnf(g, target, **kw):
    """set of frozenset(literals) for all paths to target (contradictory paths dropped)"""
    res = set()
    for p in paths_to(g, target, **kw):
        ls = set(literals(g, p))
        if any(("!" + l) in ls for l in ls if not l.startswith("!")): continue
        res.add(frozenset(ls))
    # absorb: drop supersets
    return minimise(res)


def minimise(res):
    res = set(res)
    ch = True
    while ch:
        ch = False
        for a in list(res):
            if any(b < a for b in res): res.discard(a); ch = True
        # resolution a|x , a|!x -> a
        for a in list(res):
            for l in list(a):
                neg = l[1:] if l.startswith("!") else "!" + l
                b = (a - {l}) | {neg}
                if b in res:
                    res.discard(a); res.discard(b); res.add(a - {l}); ch = True; break
            if ch: break
            for l in list(a):
                neg = l[1:] if l.startswith("!") else "!" + l
                # a = {l}+R , b={neg}+R' with R' <= R  -> a without l
                if any(neg in b and (b - {neg}) <= (a - {l}) for b in res if b is not a):
                    res.discard(a); res.add(a - {l}); ch = True; break
            if ch: break
    return res


def returns(g):
    """[(return node, value term)] of the root function"""
    live = g.live()
    return [n for n in g.nodes if n.kind == "assign" and n.key == (g.root.id, "$ret") and n.id in live]


def is_none(g, t, node):
    t = g.resolve(t, node)
    return t == ("const", None)


def nonexc_live(g):
    seen = {g.entry.id}; st = [g.entry.id]
    while st:
        for s, l in g.nodes[st.pop()].succ:
            if l != "exc" and s not in seen: seen.add(s); st.append(s)
    return seen


# ---- collections -------------------------------------------------------------------------
def additions(g, name_pred=None):
    """nodes that add an element to a list: compelt / .append / += [x] / .extend : (node, value term, target term)"""
    out = []
    for n in g.nodes:
        if n.kind == "compelt": out.append((n, n.value, ("comp", g.comps[n.comp]["kind"], n.comp)))
        elif n.kind == "call" and n.name in ("append", "add", "appendleft") and n.args: out.append((n, n.args[0], n.recv))
        elif n.kind == "call" and n.name == "insert" and len(n.args) == 2: out.append((n, n.args[1], n.recv))
    return out


def flows_from(g, term, node, pred, depth=0, seen=None):
    """does any subterm (resolved; through comps/calls) satisfy pred?"""
    seen = seen if seen is not None else set()
    t = g.resolve(term, node)
    return _any_sub(g, t, pred, depth, seen)


def _any_sub(g, t, pred, depth, seen):
    if depth > 25 or not isinstance(t, tuple) or not t: return False
    if isinstance(t[0], str):
        if t in seen: return False
        seen.add(t)
        if pred(t): return True
        if t[0] in ("call", "spawn"):
            n = g.nodes[t[1]]
            for x in ([n.func] if n.func else []) + list(n.args) + list(n.kw.values()):
                if _any_sub(g, g.resolve(x, n), pred, depth + 1, seen): return True
            return False
        if t[0] == "comp":
            info = g.comps[t[2]]
            n = g.nodes[info["elt"]]
            for v in n.vals:
                if _any_sub(g, g.resolve(v, n), pred, depth + 1, seen): return True
            for h in info["heads"]:
                hn = g.nodes[h]
                if _any_sub(g, g.resolve(hn.iter, hn), pred, depth + 1, seen): return True
            return False
    for x in t:
        if isinstance(x, tuple) and _any_sub(g, x, pred, depth + 1, seen): return True
    return False


def has_type(g, n, *names):
    """receiver type of a call includes (a subclass of) one of the named classes"""
    for ci in classes_in(n.get("recvtype") or ()):
        for m in ci.mro():
            if m.name in names: return True
    return False


def collection_adds(g, term, node):
    """all (add node, element term) that put elements into the list `term` denotes at node"""
    t = g.resolve(term, node)
    outs = []
    if t[0] == "comp":
        n = g.nodes[g.comps[t[2]]["elt"]]
        return [(n, n.value)]
    return outs


def ast_funcs(tree):
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)): yield n


def self_fields_read(p, fn: FuncInfo, selfname="self", depth=0, seen=None):
    """attributes of self read in fn, following self.method()/super().method()/properties of the same class"""
    seen = seen if seen is not None else set()
    if fn.qual in seen or depth > 5: return set()
    seen.add(fn.qual); out = set()
    sn = fn.params()[0] if fn.params() else selfname
    for n in ast.walk(fn.node):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == sn and isinstance(n.ctx, ast.Load):
            out.add(n.attr)
            m = fn.cls.find_method(n.attr) if fn.cls else None
            if m: out |= self_fields_read(p, m, depth=depth + 1, seen=seen)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Call) and isinstance(n.func.value.func, ast.Name) and n.func.value.func.id == "super" and fn.cls:
            for b in fn.cls.mro()[1:]:
                if n.func.attr in b.methods:
                    out |= self_fields_read(p, b.methods[n.func.attr], depth=depth + 1, seen=seen); break
    return out


def list_origin(g, t, node, through=False):
    """identities of list objects a term may denote: list literals / comprehensions by defining node, params, attrs by rendering"""
    out = set()
    t0 = t
    defs = []
    def walk(t, node, seen):
        if t[0] == "var":
            for d in g.rd((t[1], t[2]), node):
                if d.id in seen: continue
                seen.add(d.id)
                v = d.value
                if v[0] in ("list",) or v[0] == "call": out.add(("def", d.id) if v[0] == "list" else ("call", v[1]))
                elif v[0] == "bin" and v[1] == "+":
                    walk(v[2], d, seen)
                else: walk(v, d, seen)
        elif t[0] == "comp":
            out.add(("comp", t[2]))
            if through:
                for h in g.comps[t[2]]["heads"]: walk(g.nodes[h].iter, g.nodes[h], seen)
        elif t[0] in ("list", "call"): out.add(("r", g.render(g.resolve(t, node))))
        elif t[0] == "phi":
            for x in t[1]: walk(x, node, seen)
        elif t[0] == "callend": pass
        else: out.add(("r", g.render(g.resolve(t, node))))
    walk(t0, node, set())
    return out


# ---- typestate exploration -------------------------------------------------------------------
def _flag_vars(g):
    """local variables that are assigned constants and tested directly: they are tracked by Explore"""
    tested = set()
    for n in g.nodes:
        if n.kind == "branch" and n.id in g.live():
            t = n.term
            while t and t[0] == "not": t = t[1]
            if t and t[0] == "cmp": ts = [q for q in t[2:] if isinstance(q, tuple)]
            else: ts = [t]
            for q in ts:
                if q and q[0] == "var": tested.add((q[1], q[2]))
    consts = {n.key for n in g.nodes if n.kind == "assign" and isinstance(n.value, tuple) and n.value and n.value[0] == "const"}
    return tested & consts


def _flag_eval(t, d):
    """constant value of a test as ('c', value) or None"""
    k = t[0] if isinstance(t, tuple) and t else None
    if k == "const": return ("c", t[1])
    if k == "var": return d.get((t[1], t[2]))
    if k == "not":
        v = _flag_eval(t[1], d); return ("c", not v[1]) if v else None
    if k == "cmp" and len(t) == 4:
        a, b = _flag_eval(t[2], d), _flag_eval(t[3], d)
        if a is None or b is None: return None
        if t[1] == "is": return ("c", a[1] is b[1])
        if t[1] == "==": return ("c", a[1] == b[1])
    return None


def _flag_step(g, n, env, flags):
    if n.kind == "assign" and n.key in flags:
        d = dict(env); v = _flag_eval(n.value, d)
        if v is None: d.pop(n.key, None)
        else: d[n.key] = v
        return frozenset(d.items())
    if env and n.kind == "edge" and g.nodes[n.of].kind == "branch":
        v = _flag_eval(g.nodes[n.of].term, dict(env))
        if v is not None and bool(v[1]) != bool(n.label): return None
    return env


class Explore:
    """worklist over (node, abstract state).  step(node, state) -> state|None|list at the node; edge(node, succ, label, state) -> state|None.
    report(key, node, msg) is called by the step functions through self.bad"""

    def __init__(self, g, init, step, edge=None, limit=60000, start=None):
        self.g = g; self.bads = {}; self.seen = {}; self.atexit = set()
        start = start or g.entry
        self.cur = None
        flags = _flag_vars(g)
        k0 = (start.id, (init, frozenset()))
        work = [k0]; self.seen[k0] = None
        while work:
            k = work.pop(); nid, (st, env) = k; n = g.nodes[nid]
            self.cur = k
            if flags:
                env = _flag_step(g, n, env, flags)
                if env is None: continue
            outs = step(self, n, st)
            if outs is None: continue
            if not isinstance(outs, list): outs = [outs]
            if n is g.exit: self.atexit |= set(outs)
            for o in outs:
                for s, lab in n.succ:
                    o2 = edge(self, n, g.nodes[s], lab, o) if edge else o
                    if o2 is None: continue
                    for o3 in (o2 if isinstance(o2, list) else [o2]):
                        k3 = (s, (o3, env))
                        if k3 not in self.seen:
                            self.seen[k3] = k; work.append(k3)
            if len(self.seen) > limit: raise AnchorError(f"state space of {g.fn.qual} too large")

    def bad(self, rule, node, msg):
        if (rule, node.id) in self.bads: return
        path = []; k = self.cur
        while k is not None and len(path) < 400:
            n = self.g.nodes[k[0]]
            if n.kind in ("edge", "yield", "store", "call", "handler") : path.append(f"{n.loc} {n.kind}")
            k = self.seen[k]
        self.bads[(rule, node.id)] = (node, msg, list(reversed(path))[-25:])


def bool_atom(g, branch):
    return g.r(branch.term, branch)


def upd(st, **kw):
    d = dict(st); d.update(kw); return tuple(sorted(d.items()))


def mkstate(**kw): return tuple(sorted(kw.items()))


def list_parts(g, term, node):
    """the lists a concatenation / copy / chain is made of, as rendered terms (None for something unknown)"""
    t = g.resolve(term, node)
    return _parts(g, t)


def _parts(g, t):
    k = t[0]
    if k == "bin" and t[1] == "+": return _parts(g, t[2]) | _parts(g, t[3])
    if k == "phi":
        out = set()
        for x in t[1]: out |= _parts(g, x)
        return out
    if k in ("list", "tuple"):
        out = set()
        for x in t[1]:
            if x[0] == "star": out |= _parts(g, x[1])
            else: out.add("[%s]" % g.render(x))
        return out
    if k == "call":
        n = g.nodes[t[1]]
        if n.name in ("list", "tuple", "chain", "iter") and n.args:
            out = set()
            for a in n.args: out |= _parts(g, g.resolve(a, n))
            return out
    if k == "comp":
        info = g.comps[t[2]]; n = g.nodes[info["elt"]]
        v = g.resolve(n.value, n)
        last = g.nodes[info["heads"][-1]]
        if v[0] == "elem" and v[2] == last.id:
            gs = [b for b, s, pol in g.guard_atoms(n) if any(g.dominates(g.nodes[h], b) for h in info["heads"])]
            inner = _parts(g, g.resolve(last.iter, last))
            if not gs: return inner
            return {f"{x} if filtered" for x in inner}
    if k == "elem":
        # for l in (a, b): for x in l
        return {"elem of " + x for x in _parts(g, t[1])} if t[1][0] in ("tuple", "list") else {g.render(t)}
    return {g.render(t)}


def loop_guards(g, n, head):
    """branch literals inside the loop `head` that dominate n"""
    return {("" if pol else "!") + s for b, s, pol in g.guard_atoms(n) if g.dominates(head, b)}


def innermost(g, n):
    ls = [h for h in g.loops_of(n) if h.iter is not None]
    if not ls: return None
    return max(ls, key=lambda h: sum(g.dominates(x, h) for x in ls))


def done_edge(g, head):
    return next(e for e in g.nodes if e.kind == "edge" and e.of == head.id and e.label == "done")


def iter_edge(g, head):
    return next(e for e in g.nodes if e.kind == "edge" and e.of == head.id and e.label == "iter")


def visits_all(g, head):
    """the loop is never left before every element has been visited (no break / return / raise out of it, except through done)"""
    body = {n.id for n in g.nodes if n.id != head.id and g.dominates(iter_edge(g, head), n) and g.reaches(n, head)} | {iter_edge(g, head).id}
    for i in body:
        for s, l in g.nodes[i].succ:
            if l == "exc": continue
            if s not in body and s != head.id and s not in {n for n in body}:
                # leaves the loop
                return g.nodes[i]
    # dead-end escapes: nodes dominated by the iter edge that do not come back
    for n in g.nodes:
        if n.id in g.live() and n.id not in body and g.dominates(iter_edge(g, head), n) and n.id != head.id and n.kind in ("raise",): continue
    return None


def argmap(n, fn, bound=True):
    """parameter name -> argument term of a call to fn (bound: the receiver is not among the arguments)"""
    ps = fn.params()
    if bound and ps: ps = ps[1:]
    out = {}
    for i, a in enumerate(n.args):
        if i < len(ps): out[ps[i]] = a
    for k, v in n.kw.items():
        if k is not None: out[k] = v
    return out


def report(ck, x, name, g, rules):
    """obligations from a typestate exploration"""
    by = {}
    for (rule, nid), v in x.bads.items(): by.setdefault(rule, []).append(v)
    for r in rules:
        if r in by:
            for n, msg, path in by[r]: ck.ob(r, name, False, msg, n.loc, path)
        else: ck.ob(r, name, True, "", g.fn.loc)


def nested_funcs(fn):
    """nested function definitions of fn as FuncInfo (analysable on their own; free variables stay global names)"""
    from .index import FuncInfo as FI
    out = []
    for n in ast.walk(fn.node):
        if n is not fn.node and isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            out.append(FI(n, fn.mod, None, fn))
    return out


def strs(g, t):
    """string constants of a list/tuple/set term, or None"""
    if t is None: return None
    if t[0] in ("list", "tuple", "set"):
        out = []
        for x in t[1]:
            if x[0] == "const" and isinstance(x[1], str): out.append(x[1])
            elif x[0] == "member": out.append(x[2])
            else: return None
        return out
    return None




def leaves(g, t, node, seen=None):
    """[(node at which the value was computed, value term)] of a term, following variables back through all definitions"""
    seen = set() if seen is None else seen
    if t[0] == "var":
        out = []
        for d in g.rd((t[1], t[2]), node):
            if d.id in seen: continue
            seen.add(d.id)
            out += leaves(g, d.value, d, seen)
        return out
    if t[0] == "phi":
        return [x for u in t[1] for x in leaves(g, u, node, seen)]
    return [(node, t)]


def def_chain(g, t, node, seen=None):
    """all assignment nodes a term's value passes through"""
    seen = {} if seen is None else seen
    if t[0] == "var":
        for d in g.rd((t[1], t[2]), node):
            if d.id in seen: continue
            seen[d.id] = d
            def_chain(g, d.value, d, seen)
    elif t[0] == "phi":
        for u in t[1]: def_chain(g, u, node, seen)
    return list(seen.values())


def reach_under(g, keep):
    """ids of the nodes that stay reachable when every branch outcome whose literal ("cond" / "!cond") is not kept is cut"""
    seen = {g.entry.id}; w = [g.entry.id]
    while w:
        for s, l in g.nodes[w.pop()].succ:
            if s in seen: continue
            n = g.nodes[s]
            if n.kind == "edge" and g.nodes[n.of].kind == "branch":
                b = g.nodes[n.of]
                if not keep(("" if n.label else "!") + g.r(b.term, b)): continue
            seen.add(s); w.append(s)
    return seen
