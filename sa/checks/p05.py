"""P05 Interrupted work keeps its remaining time."""
TECHNIQUE = "typestate exploration of the inlined process_state graphs with exceptional edges"
NOTE = "All paths of the state processes incl. any number of interruptions are covered by a finite abstraction; the arithmetic is checked symbolically (linear normal form), simpy's interrupt semantics are trusted."
from ..lib import *
from .states import *


def walk(ck, m):
    g = m.g
    def step(x, n, st):
        d = dict(st)
        if n.kind == "edge" and g.nodes[n.of].kind == "branch":
            f = edge_facts(m, n)
            if f.get("infeasible"): return None
            if "flag" in f:
                if f["flag"] != d["flag"]: return None
            if f.get("a1"): d["a1"] = True
            if f.get("a2"): d["a2"] = True
            if "rem0" in f:
                if d["rem0"] and not f["rem0"]: return None
                if f["rem0"] and d["nz"]: return None      # the segment that was interrupted had time left
                d["rem0"] = f["rem0"] or d["rem0"]; d["nz"] = not f["rem0"]
            if "neg" in f: d["neg"] = f["neg"]
            return upd(d)
        k = m.kind(n)
        if k == "flag0": d["flag"] = False
        elif k in ("flag1", "flag?"): x.bad("flag-owner", n, "the running work marks itself as interrupted")
        elif k == "start":
            if d["due"]: x.bad("elapsed-lost", n, "the start of the interrupted segment is overwritten before its elapsed time has been deducted")
            d["fresh"] = True
        elif k == "start?": d["fresh"] = False
        elif k == "ded":
            if not d["due"]: x.bad("deducted-twice", n, "elapsed time is deducted although no time has been worked since the last deduction")
            d["due"] = False; d["rem0"] = False; d["nz"] = False
        elif k == "zero":
            if not d["done"] and not d["neg"]: x.bad("remaining-dropped", n, "the remaining time is set to zero although it has not elapsed")
            d["rem0"] = True; d["nz"] = False
        elif k == "set":
            if not d["pre"]: x.bad("remaining-changed", n, f"the remaining time is set to {g.r(n.value, n)} after the work could have been interrupted")
        elif n.kind == "call" and n.name == "succeed" and n.recv is not None and g.r(n.recv, n) == "self.finished_process":
            if d["ann"]: x.bad("announced-twice", n, "the end of the work is announced twice")
            if not (d["done"] or d["rem0"]): x.bad("announced-early", n, "the end of the work is announced before its full duration has elapsed")
            d["ann"] = True
        elif n.kind == "handler": pass
        elif n.kind == "yield":
            if d["unann"]: x.bad("unannounced-tolerated", n, "an interruption that was not announced is tolerated"); return None
            if n.id in m.T:
                if d["done"]: x.bad("worked-twice", n, "work is carried out again after its full duration has elapsed")
                if d["due"]: x.bad("elapsed-not-deducted", n, "work resumes without the time worked before the interruption having been deducted")
                if d["flag"]: x.bad("resumed-interrupted", n, "work resumes while it is still marked as interrupted, so a further failure cannot interrupt it")
                if not (d["a1"] and d["a2"]): x.bad("availability", n, f"work starts or resumes without it having been established at that moment that {'both the state and its resource are' if not (d['a1'] or d['a2']) else 'the resource is' if d['a1'] else 'the state is'} available")
                if not d["fresh"]: x.bad("start-not-noted", n, "the time at which this segment of the work starts is not noted, so the elapsed time cannot be computed")
            elif d["due"]: x.bad("deducted-late", n, "time passes between the interruption and the deduction of the elapsed time")
            # while the work is not marked as interrupted every failure interrupts it, so established availability persists
            if d["flag"] or not (d["a1"] and d["a2"]): d["a1"] = d["a2"] = False
            d["fresh"] = False; d["pre"] = False
        elif n is g.exit:
            if d["unann"]: x.bad("unannounced-tolerated", n, "an interruption that was not announced is tolerated")
            if not d["ann"]: x.bad("not-announced", n, "the work can end without its end being announced")
            if not (d["done"] or d["rem0"]): x.bad("ended-early", n, "the work ends before its full duration has elapsed")
        return upd(d)
    def edge(x, n, s, lab, st):
        d = dict(st)
        if lab == "exc":
            if n.kind != "yield": return None if n.kind == "call" else st
            if s.kind == "handler" and s.types and not ({"Interrupt", "Exception", "BaseException"} & set(s.types)): return None
            if d["flag"]: return None          # interrupt_process() does not interrupt twice
            base = upd(d, due=True) if n.id in m.T else st
            base = upd(base, a1=False, a2=False)
            return [upd(base, flag=True), upd(base, unann=True)]
        if n.kind == "yield" and n.id in m.T: return upd(d, done=True)
        return st
    init = mkstate(flag=False, a1=False, a2=False, due=False, fresh=False, done=False, rem0=False, neg=False, pre=True, ann=False, unann=False, nz=False)
    return Explore(g, init, step, edge)


RULES = {"flag-owner": "", "elapsed-lost": "", "deducted-twice": "", "deducted-late": "", "remaining-dropped": "", "remaining-changed": "", "announced-twice": "", "announced-early": "", "unannounced-tolerated": "",
         "worked-twice": "", "elapsed-not-deducted": "", "resumed-interrupted": "", "availability": "", "start-not-noted": "", "not-announced": "", "ended-early": ""}


def check(ck):
    for ci in interruptible(ck):
        m = StateModel(ck, ci); g = m.g
        name = f"{ci.name}.process_state"
        ck.ob("remaining-timed", name, bool(m.T) and m.rem is not None, f"the work is not timed by one remaining-duration attribute: {sorted(set(m.T.values()))}", g.fn.loc)
        if not m.rem: continue
        ck.ob("start-noted", name, m.start is not None, "the start of a segment of work is not noted", g.fn.loc)
        if not m.start: continue
        # the timed term may go through a local: it must not be older than the last change of the remaining time
        for y in m.yields:
            if y.id in m.T:
                t = g.resolve(y.value, y); c = g.nodes[t[1]]
                if c.args and c.args[0][0] == "var":
                    for d in g.rd((c.args[0][1], c.args[0][2]), c):
                        stale = [s for s in g.stores(m.rem) if g.path_avoiding(d, s, [d], exc=True) and g.path_avoiding(s, c, [d], exc=True)]
                        ck.ob("remaining-fresh", name, not stale, "the timed wait uses an outdated copy of the remaining time", y.loc)
                # exactly one timed wait, inside a try that handles the interruption
                h = [g.nodes[s] for s, l in y.succ if l == "exc"]
                ck.ob("interruption-handled", name, bool(h), "an interruption of the running work is not handled", y.loc)
        x = walk(ck, m)
        byrule = {}
        for (rule, nid), (n, msg, path) in x.bads.items(): byrule.setdefault(rule, []).append((n, msg, path))
        for rule in RULES:
            if rule in byrule:
                for n, msg, path in byrule[rule]: ck.ob(rule, name, False, msg, n.loc, path)
            else: ck.ob(rule, name, True, "", g.fn.loc)
        ck.need(f"abstract states reaching the timed wait of {name}", sum(1 for (nid, _) in x.seen if nid in m.T))
        # sampled once, before the first wait
        inits = [n for n in g.stores(m.rem) if m.kind(n) == "set"]
        ck.ob("sampled-before", name, bool(inits) and all(not g.path_avoiding(y, i, []) for i in inits for y in m.yields), "the duration is not fixed before the work can be interrupted", g.fn.loc)
        # announcing an interruption
        ip = ci.find_method("interrupt_process")
        gi = ck.graph(ip, selfcls=ci)
        ints = [n for n in gi.calls("interrupt") if n.recv is not None and gi.r(n.recv, n) == "self.process"]
        ck.ob("interrupt-raises", f"{ci.name}.interrupt_process", len(ints) >= 1, "the process is never interrupted", ip.loc)
        flags = [n for n in gi.stores("interrupted") if gi.r(n.value, n) == "True" and gi.r(n.base, n) == "self"]
        for n in ints:
            gs = gi.guard_set(n)
            ck.ob("interrupt-alive", f"{ci.name}.interrupt_process", "self.process.is_alive" in gs, "a process that is not running may be interrupted", n.loc)
            ck.ob("interrupt-once", f"{ci.name}.interrupt_process", "!self.interrupted" in gs, "work that is already interrupted may be interrupted again", n.loc)
            ok = any(gi.dominates(f, n) or gi.always_after(n, [f]) for f in flags)
            ck.ob("interrupt-announced", f"{ci.name}.interrupt_process", ok, "the interruption is not announced to the running work", n.loc)
            ck.ob("interrupt-now", f"{ci.name}.interrupt_process", not gi.guard_set(n) - {"self.process.is_alive", "!self.interrupted", "self.process", "!(None is self.process)"}, f"running work is only interrupted if {sorted(gi.guard_set(n))}", n.loc)
        for f in flags:
            ck.ob("announce-interrupts", f"{ci.name}.interrupt_process", any(gi.dominates(n, f) or gi.always_after(f, [n]) for n in ints), "work is marked as interrupted without being interrupted", f.loc)
        others = [n for n in gi.stores() if n.attr in (m.rem, m.start)]
        ck.ob("remaining-owner", f"{ci.name}.interrupt_process", not others, "announcing an interruption changes the remaining time", others[0].loc if others else ip.loc)
    # nobody else writes the bookkeeping of a state or interrupts its process directly
    nf = 0
    attrs = {"done_in", "interrupted"}
    for fn in ck.p.all_funcs("prodsys.simulation"):
        nf += 1
        if fn.cls is not None and fn.cls.name.endswith("State") and fn.mod.name == "prodsys.simulation.state": continue
        for n in ast.walk(fn.node):
            t = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) else []
            for q in t:
                if isinstance(q, ast.Attribute) and q.attr in attrs:
                    ck.ob("bookkeeping-owner", fn.short, False, f"writes {q.attr} of a state", f"{fn.mod.rel}:{n.lineno}")
    ck.need("functions scanned", nf, 100)
    # a source produces nothing at time 0, so a segment never starts at 0 (the states treat start == 0 as 'not begun')
    g = ck.graph("prodsys.simulation.source.Source.create_product_loop", stop=("create_product", "put", "reserve"))
    for n in g.calls("create_product"):
        ok = any(edge_ineq(g, b, pol) in (("<=", frozenset({("self.time_model.get_next_time()", -1), (1, 1)}.__iter__())),) for b, s, pol in g.guard_atoms(n)) or any("get_next_time" in s for b, s, pol in g.guard_atoms(n))
        ck.ob("no-work-at-zero", "Source.create_product_loop", ok, "products can be created at time 0, where the states treat work as not begun", n.loc)
