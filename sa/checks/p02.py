"""P02 Bounded queues never overfill and promised places balance."""
TECHNIQUE = "typestate and event counting over inlined control-flow graphs (reserve/put balance), guard-strength comparison"
NOTE = "Decides on every path of the current sources that promises and puts balance and that the fullness test is as strong as required; it trusts simpy's FilterStore and does not bound run-time interleavings inside simpy."
import ast
from ..lib import *
from ..index import AnchorError, classes_in
from .gates import check_gate

Q = "prodsys.simulation.store.Queue"
QSTOP = ("Queue.put", "Queue.get", "Queue.reserve", "Queue.unreserve", "Queue.full", "Auxiliary.reserve")
R = "prodsys.simulation.router.Router."
CT = "prodsys.simulation.control."


def qcalls(g, name):
    return [n for n in g.calls(name) if has_type(g, n, "Queue", "FilterStore")]


def counter_attr(ck):
    """the attribute of Queue in which promised places are counted: whatever reserve() increments"""
    g = ck.graph(Q + ".reserve")
    attrs = sorted({n.attr for n in g.stores() if g.r(n.base, n) == "self"})
    for a in attrs:
        if attr_deltas(g, a).get(g.exit.id) == frozenset([1]): return a
    return attrs[0] if attrs else None


def place(attr, g=None):
    return f"self.{attr}"


def queue_class(ck):
    ci = ck.p.cls(Q)
    a = counter_attr(ck)
    if a is None:
        ck.ob("promise-counted", "Queue.reserve", False, "reserve() does not count the promised place", ci.find_method("reserve").loc); return None
    pend, items, cap = f"self.{a}", "len(self.items)", "self.capacity"
    want = {"reserve": 1, "unreserve": -1, "put": -1, "get": 0}
    for m, d in want.items():
        g = ck.graph(f"{Q}.{m}")
        got = attr_deltas(g, a).get(g.exit.id)
        ck.ob("promise-delta", f"Queue.{m}", got == frozenset([d]),
              f"on return {m}() must have changed the promised places by {d:+d}, but changes them by {sorted(got) if got else 'an unknown amount'}", g.fn.loc)
    # the base class does the real work exactly once and its event is handed back
    for m, par in (("put", 0), ("get", 0)):
        g = ck.graph(f"{Q}.{m}")
        ev = [n for n in g.calls(m) if n.recv is not None and "super" in g.r(n.recv, n)]
        cnt = event_counts(g, lambda n: n in ev).get(g.exit.id)
        ck.ob("delegates-once", f"Queue.{m}", cnt == frozenset([1]), f"{m}() must hand over to the underlying store exactly once on every path, counts {sorted(cnt or [])}", g.fn.loc)
        p = g.fn.params()[1]
        for n in ev:
            v = g.arg(n, 0, p)
            ck.ob("delegates-argument", f"Queue.{m}", v is not None and g.r(v, n) == p, f"{m}() passes {g.r(v, n) if v else 'nothing'} instead of its argument", n.loc)
        for rn in returns(g):
            if rn.get("isreturn"):
                ck.ob("returns-event", f"Queue.{m}", rn.value == ("call", ev[0].id) if ev and False else flows_from(g, rn.value, rn, lambda t: t[0] == "call" and t[1] in {n.id for n in ev}),
                      f"{m}() does not return the event of the underlying store", rn.loc)
        if not any(rn.get("isreturn") for rn in returns(g)):
            ck.ob("returns-event", f"Queue.{m}", False, f"{m}() does not return the event of the underlying store", g.fn.loc)
    # reserve never exceeds capacity
    g = ck.graph(Q + ".reserve", stop=())
    deltas = attr_deltas(g, a)
    goodedges = []
    for n in g.nodes:
        if n.kind != "edge" or g.nodes[n.of].kind != "branch": continue
        b = g.nodes[n.of]; iq = edge_ineq(g, b, n.label)
        ds = deltas.get(b.id)
        if not iq or not ds or len(ds) != 1: continue
        d = next(iter(ds))
        exp = ineq("<=", {pend: 1, items: 1, 1: 1 - d}, {cap: 1})
        if iq == exp or (iq[0] == "<=" and stronger(iq[1], exp[1])): goodedges.append(n)
        if g.r(b.term, b) and any(x in g.r(b.term, b) for x in ("inf",)): pass
    path = g.path_avoiding(g.entry, g.exit, goodedges)
    ck.ob("promise-bounded", "Queue.reserve", path is None, "a place is promised without having established that promised + held places stay within the capacity",
          g.fn.loc, path and [x.loc for x in path if x.kind in ("edge", "store")])
    raises = [n for n in g.nodes if n.kind == "raise" and n.id in g.live()]
    ck.ob("promise-refused", "Queue.reserve", bool(raises), "reserve() never refuses", g.fn.loc)
    # full
    g = ck.graph(Q + ".full", mode="cond")
    exp_t = ineq("<=", {cap: 1}, {pend: 1, items: 1})
    exp_f = ineq("<=", {pend: 1, items: 1, 1: 1}, {cap: 1})
    for ex, exp, name in ((g.texit, exp_t, "full"), (g.fexit, exp_f, "not full")):
        es = [n for n in g.nodes if n.kind == "edge" and g.nodes[n.of].kind == "branch" and (edge_ineq(g, g.nodes[n.of], n.label) == exp)]
        path = g.path_avoiding(g.entry, ex, es)
        ck.ob("full-definition", f"Queue.full/{name}", path is None and ex.pred != [], f"reports '{name}' without capacity - promised - held {'<=' if name == 'full' else '>'} 0 having been established",
              g.fn.loc, path and [f"{x.loc} {g.r(g.nodes[x.of].term, x) if x.kind == 'edge' else x.kind}" for x in path])
    # capacity: unlimited iff configured as 0
    g = ck.graph(Q + ".__init__")
    sup = [n for n in g.calls("__init__") if n.recv is not None and "super" in g.r(n.recv, n)]
    ck.ob("capacity", "Queue.__init__/delegates", len(sup) == 1, "the underlying store is not initialised exactly once", g.fn.loc)
    for n in sup:
        v = g.arg(n, 1, "capacity"); s = g.r(v, n) if v else ""
        ok = v is not None and s in ("{data.capacity|float('inf')}", "{data.capacity|inf}", "{data.capacity|math.inf}", "{data.capacity|numpy.inf}", "{float('inf')|data.capacity}")
        ck.ob("capacity", "Queue.__init__/value", ok, f"capacity handed to the store is {s or 'missing'} instead of the configured one (0 = unlimited)", n.loc)
    for n in g.nodes:
        if n.kind == "assign" and n.id in g.live() and g.r(n.value, n) in ("float('inf')", "inf", "math.inf", "numpy.inf"):
            gs = g.guard_set(n)
            ck.ob("capacity", "Queue.__init__/unlimited-iff-zero", bool(gs & {"(0 == data.capacity)", "!data.capacity"}), "capacity is made unlimited although it is not configured as 0", n.loc)
    init = [n for n in g.stores(a)]
    ck.ob("promise-delta", "Queue.__init__", len(init) == 1 and g.r(init[0].value, init[0]) == "0", "promised places do not start at 0", g.fn.loc)
    return a


def stronger(a, b):
    """linear constraint a (<=0) implies b (<=0) with the same variables"""
    a, b = dict(a), dict(b)
    ca, cb = a.pop(1, 0), b.pop(1, 0)
    return a == b and ca >= cb


def ownership(ck, attr):
    """nobody but Queue writes the promise counter or the item list"""
    ci = ck.p.cls(Q); own = {m.qual for m in ci.methods.values()}
    nfun = 0
    for fn in ck.p.all_funcs("prodsys"):
        nfun += 1
        for n in ast.walk(fn.node):
            t = None
            if isinstance(n, ast.Assign): t = n.targets
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)): t = [n.target]
            for x in t or []:
                if isinstance(x, ast.Attribute) and x.attr == attr and fn.qual not in own:
                    ck.ob("promise-owner", fn.short, False, f"writes Queue.{attr} directly", f"{fn.mod.rel}:{n.lineno}")
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "remove", "pop", "insert", "clear", "extend") \
                    and isinstance(n.func.value, ast.Attribute) and n.func.value.attr == "items" and fn.mod.name.startswith(("prodsys.simulation", "prodsys.factories", "prodsys.control")):
                ck.ob("items-owner", fn.short, False, "changes the items of a queue directly", f"{fn.mod.rel}:{n.lineno}")
    ck.ob("promise-owner", f"{nfun} functions scanned", nfun > 200, "too few functions scanned", "prodsys")


def balanced(g, res, put):
    """every execution of `put` is preceded by its own execution of `res`, and vice versa"""
    lr = [h.id for h in g.loops_of(res)]; lp = [h.id for h in g.loops_of(put)]
    if lr == lp or set(lr) == set(lp):
        if not g.dominates(res, put): return "the reservation does not precede the put on every path"
        if g.path_avoiding(put, put, [res]) is not None: return "several puts for one reservation"
        if g.path_avoiding(res, [res, g.exit], [put]) is not None: return "a reserved place stays unused on some path"
        return None
    inr = [h for h in lr if h not in lp]; inp = [h for h in lp if h not in lr]
    if len(inr) == 1 and len(inp) == 1 and set(lr) - set(inr) == set(lp) - set(inp):
        hr, hp = g.nodes[inr[0]], g.nodes[inp[0]]
        if g.r(hr.iter, hr) == g.r(hp.iter, hp) and g.dominates(hr, hp): return None
    return "reservation and put are executed a different number of times"


def put_sites(ck):
    """source output and initial auxiliary placement: own reservation for every put"""
    covered = set()
    for q in ("prodsys.simulation.source.Source.create_product_loop", "prodsys.factories.auxiliary_factory.AuxiliaryFactory.place_auxiliaries_in_queues"):
        g = ck.graph(q, stop=QSTOP)
        puts = qcalls(g, "put") or [n for n in g.calls("put")]
        ck.need(f"queue puts in {q}", len(puts))
        rs = g.calls("reserve")
        for p in puts:
            covered.add((p.ctx.mod.rel, p.ast.lineno))
            mine = [r for r in rs if g.r(r.recv, r) == g.r(p.recv, p)]
            errs = [balanced(g, r, p) for r in mine]
            ok = len(mine) == 1 and errs == [None]
            ck.ob("put-uses-own-promise", g.fn.short, ok, (errs[0] if len(mine) == 1 else f"{len(mine)} reservations of {g.r(p.recv, p)}") or "", p.loc)
    return covered


def selector(g, t, node):
    """which queue of the target: (attributes, 'first'|'choice'|'each'|'self')"""
    t = g.resolve(t, node)
    fam = set(); which = "self"
    s = g.render(t)
    for f in ("input_queues", "output_queues"):
        if f in s: fam.add(f)
    if t[0] == "item" and t[2] == ("const", 0): which = "first"
    elif t[0] == "call" and g.nodes[t[1]].name == "choice": which = "choice"
    elif t[0] == "call" and g.nodes[t[1]].name == "next": which = "first"
    elif t[0] == "elem": which = "each"
    return tuple(sorted(fam)), which


def promises(ck):
    """each routing function promises exactly one place for every target it returns, none when it gives up"""
    sel = {}
    cases = [("get_routed_production_request", "input_queues"), ("route_product_to_sink", "input_queues"),
             ("route_product_to_storage", None), ("route_auxiliary_to_store", None)]
    for name, fam in cases:
        g = ck.graph(R + name, stop=QSTOP)
        rs = qcalls(g, "reserve"); us = qcalls(g, "unreserve")
        other = [n for n in g.calls("reserve") if n not in rs]
        rs += [n for n in other if not n.inlined and n.cands and any("Queue" in c.short for c in n.cands)]
        if not rs:
            ck.ob("promise-on-route", f"Router.{name}", False, "no place is reserved in the target of the routed item", g.fn.loc); continue
        # states: net promises on each path, split on 'result is None'
        cnt = net_counts(g, rs, us)
        rets = returns(g)
        ck.need(f"returns of {name}", len(rets))
        bad = []
        for rn in rets:
            none_paths, val_paths = split_none(g, rn, cnt)
            for what, c, want in (("None", none_paths, {0}), ("a request", val_paths, {1})):
                if c and not c <= want: bad.append((rn, what, c, want))
        ck.ob("promise-on-route", f"Router.{name}", not bad, "; ".join(f"returning {w} leaves {sorted(c)} promised places instead of {sorted(x)}" for _, w, c, x in bad), (bad[0][0].loc if bad else g.fn.loc))
        for r in rs: sel[name] = (selector(g, r.recv, r), r)
        # nothing may happen between establishing that the target is not full and promising the place
        if name != "route_product_to_sink":
            check_gate(ck, "free-before-promise", f"Router.{name}", ck.graph(R + name, stop=QSTOP + ("Resource.full",)))
            checks = [n for n in g.nodes if n.kind == "branch" and n.id in g.live() and g.r(n.term, n).endswith(".full")]
            # a filter over no candidates yields no candidate, so passing the filter loop counts as the check
            checks += [h for n in list(checks) for h in g.loops_of(n) if h.iter is not None]
            ck.ob("check-before-promise", f"Router.{name}", bool(checks) and all(not g.path_avoiding(g.entry, r, checks) for r in rs), "a place is promised without looking whether the target is full", rs[0].loc)
            ys = [n for n in g.nodes if n.kind == "yield" and n.id in g.live()]
            for r in rs:
                for y in ys:
                    p = g.path_avoiding(y, r, checks)
                    ck.ob("check-and-promise-atomic", f"Router.{name}", p is None, f"simulation time may pass (yield at {y.loc}) between the fullness check and the promise", r.loc)
                    if p is not None: break
    return sel


def net_counts(g, plus, minus, lo=-2, hi=3):
    P = {n.id for n in plus}; M = {n.id for n in minus}
    st = {g.entry.id: frozenset([0])}; work = [g.entry.id]
    while work:
        i = work.pop(); cur = st[i]
        out = frozenset(min(hi, x + 1) for x in cur) if i in P else frozenset(max(lo, x - 1) for x in cur) if i in M else cur
        for s, l in g.nodes[i].succ:
            if l == "exc": continue
            old = st.get(s, frozenset()); new = old | out
            if s not in st or new != old: st[s] = new; work.append(s)
    return st


def split_none(g, rn, cnt):
    """(counts on paths where the returned value is None, counts on paths where it is not)"""
    lv = leaves(g, rn.value, rn)
    P = {n.id for n in qcalls(g, "reserve")}; M = {n.id for n in qcalls(g, "unreserve")}
    at = {}
    for d, t in lv: at.setdefault(d.id, (t == ("const", None), g.r(t, d)))
    tests = {}
    for e in g.nodes:
        if e.kind == "edge" and g.nodes[e.of].kind == "branch":
            b = g.nodes[e.of]; s = g.r(b.term, b)
            t0 = b.term; neg = False
            if t0[0] == "cmp" and t0[1] in ("is", "==") and ("const", None) in t0[2:]: t0 = t0[2] if t0[3] == ("const", None) else t0[3]; neg = True
            if t0[0] == "var":
                for d, t in leaves(g, t0, b):
                    if d.id in at: tests.setdefault(e.id, {})[d.id] = e.label != neg
            for i, (isn, val) in at.items():
                if isn: continue
                if s == val: tests.setdefault(e.id, {})[i] = e.label
                elif s in (f"(None is {val})", f"({val} is None)", f"(None == {val})"): tests.setdefault(e.id, {})[i] = not e.label
    # a value may be tested before it is (re)bound for the return: polarity is kept per value text
    byval = {}
    for i, (isn, val) in at.items(): byval.setdefault(val, set()).add(i)
    st = {(g.entry.id, None, None): frozenset([0])}; work = [(g.entry.id, None, None)]
    while work:
        k = work.pop(); i, leaf, pol = k; cur = st[k]
        out = frozenset(min(3, x + 1) for x in cur) if i in P else frozenset(max(-2, x - 1) for x in cur) if i in M else cur
        if i in tests:
            if leaf in tests[i] and at[leaf][0] and tests[i][leaf]: continue      # None cannot be truthy
            v = set(tests[i].values())
            if leaf in tests[i]: pol = (tests[i][leaf], at[leaf][1])
            elif len(v) == 1: pol = (next(iter(v)), at[next(iter(tests[i]))][1])
        if i in at and i != rn.id or (i == rn.id and i in at): leaf = i
        for s, l in g.nodes[i].succ:
            if l == "exc": continue
            k2 = (s, leaf, pol); old = st.get(k2, frozenset()); new = old | out
            if k2 not in st or new != old: st[k2] = new; work.append(k2)
    none, val = set(), set()
    hastests = bool(tests)
    for (i, leaf, pol), c in st.items():
        if i != rn.id: continue
        if rn.id in at: leaf = rn.id
        if leaf is None: val |= c; continue
        isn, txt = at[leaf]
        if isn: none |= c
        elif pol is not None and pol[1] == txt: (val if pol[0] else none).update(c)
        else: val |= c
    return frozenset(none), frozenset(val)


def deliveries(ck, sel):
    """a delivery puts the item into exactly one queue: the one a place was promised in"""
    g = ck.graph(CT + "TransportController.put_product_to_input_queue", stop=QSTOP)
    puts = [n for n in g.calls("put") if n.recv is not None]
    ck.need("puts of deliveries", len(puts), 1)
    src = [e for e in g.nodes if e.kind == "edge" and e.label is True and g.nodes[e.of].kind == "branch" and "Source)" in g.r(g.nodes[e.of].term, g.nodes[e.of]) and "isinstance" in g.r(g.nodes[e.of].term, g.nodes[e.of])]
    cnt = event_counts(g, lambda n: n in puts)
    for rn in returns(g):
        c = cnt.get(rn.id, frozenset())
        isrc = gate_counts(g, puts, src, rn); other = gate_counts(g, puts, src, rn, avoid=True)
        ck.ob("delivery-puts-once", "TransportController.put_product_to_input_queue", (not isrc or isrc == {0}) and other == {1},
              f"deliveries put the item into {sorted(other)} queues (to a source: {sorted(isrc)}) instead of exactly one", rn.loc)
    for n in puts:
        fam, which = selector(g, n.recv, n)
        if fam == ("input_queues",):
            for name in ("get_routed_production_request", "route_product_to_sink"):
                if name in sel:
                    (f2, w2), r = sel[name]
                    ck.ob("same-queue", f"Router.{name} / put_product_to_input_queue", f2 == fam and w2 == which and which in ("first",),
                          f"place promised in '{w2}' of {f2}, item put into '{which}' of {fam}", r.loc)
    for n in puts: yield n
    for cls in ("ProductionController", "BatchController"):
        g = ck.graph(CT + cls + ".start_process", stop=QSTOP)
        puts = qcalls(g, "put") or g.calls("put")
        ck.need(f"output puts of {cls}", len(puts))
        rs = qcalls(g, "reserve") or [n for n in g.calls("reserve")]
        for p in puts:
            yield p
            ok = False; why = "no compensating reservation follows the put of a finished product (its place was never promised)"
            for r in rs:
                # reservation loop runs over the put events (or over the queues put into)
                dep = flows_from(g, r.recv, r, lambda t: t[0] == "call" and t[1] == p.id) or dep_list(g, r, p)
                same_loop = g.r(r.recv, r) == g.r(p.recv, p)
                waits = [y for y in g.nodes if y.kind == "yield" and g.path_avoiding(p, y, []) and g.path_avoiding(y, r, [])]
                if not (dep or same_loop): why = f"the compensating reservation is not made per queue that was put into ({g.r(r.recv, r)})"; continue
                if not waits: why = "places are compensated before the put has taken effect"; continue
                if same_loop and not dep and balanced_after(g, p, r): why = balanced_after(g, p, r); continue
                lp = g.loops_of(r)
                if g.path_avoiding(p, g.exit, [r] + [h for h in lp]) is not None: why = "the reservation is skipped on some path"; continue
                if not same_loop and len(lp) > max(1, 0): why = "more reservations than puts"; continue
                ok = True
            ok = ok and len(rs) == 1
            ck.ob("output-compensated", f"{cls}.start_process", ok, why if len(rs) <= 1 else f"{len(rs)} reservations", p.loc)
        # which family of queues
        for p in puts:
            fam, which = selector(g, p.recv, p)
            ck.ob("output-queue", f"{cls}.start_process", fam == ("output_queues",), f"finished products are put into {fam or g.r(p.recv, p)}", p.loc)


def balanced_after(g, p, r):
    return None


def dep_list(g, r, p):
    """r's receiver comes out of a list into which p's result (or receiver) was put"""
    heads = g.loops_of(r)
    for h in heads:
        if h.iter is None: continue
        roots = list_origin(g, h.iter, h, through=True)
        for n, v, tgt in additions(g):
            if n.id not in g.live() or tgt is None: continue
            o = list_origin(g, tgt, n)
            if o & roots:
                if flows_from(g, v, n, lambda t: t[0] == "call" and t[1] == p.id): return True
                if g.r(v, n) == g.r(p.recv, p): return True
    return False


def gate_counts(g, events, edges, rn, avoid=False):
    P = {n.id for n in events}; E = {e.id for e in edges}
    st = {(g.entry.id, False): frozenset([0])}; work = [(g.entry.id, False)]
    while work:
        i, z = work.pop(); cur = st[(i, z)]
        out = frozenset(min(3, x + 1) for x in cur) if i in P else cur
        z2 = z or i in E
        for s, l in g.nodes[i].succ:
            if l == "exc": continue
            k = (s, z2); old = st.get(k, frozenset()); new = old | out
            if k not in st or new != old: st[k] = new; work.append(k)
    return set(st.get((rn.id, not avoid), frozenset()))


def accounted(ck, nodes, covered):
    """every put on a queue anywhere in prodsys is one of the analysed ones"""
    cov = covered | {(n.ctx.mod.rel, n.ast.lineno) for n in nodes}
    ci = ck.p.cls(Q); own = {m.qual for m in ci.methods.values()}
    sites = 0
    for fn in ck.p.all_funcs("prodsys"):
        if fn.qual in own or not fn.mod.name.startswith(("prodsys.simulation", "prodsys.factories", "prodsys.control", "prodsys.util.runner")): continue
        for n in ast.walk(fn.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "put" and len(n.args) == 1:
                sites += 1
                ck.ob("put-accounted", fn.short, (fn.mod.rel, n.lineno) in cov, "items enter a queue outside the analysed hand-over protocol", f"{fn.mod.rel}:{n.lineno}")
    ck.need("put sites", sites, 5)


def check(ck):
    a = queue_class(ck)
    if a: ownership(ck, a)
    covered = put_sites(ck)
    sel = promises(ck)
    nodes = list(deliveries(ck, sel))
    accounted(ck, nodes, covered)
    # the whole transport step delivers exactly once
    g = ck.graph(CT + "TransportController.start_process", stop=QSTOP)
    puts = g.calls("put_product_to_input_queue") or g.calls("put")
    cnt = event_counts(g, lambda n: n in puts).get(g.exit.id)
    ck.ob("delivery-puts-once", "TransportController.start_process", cnt == frozenset([1]), f"a transport performs {sorted(cnt or [])} deliveries", g.fn.loc)
