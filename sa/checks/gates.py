"""The gate in front of every routing decision: which candidates count as having a free place."""
from ..lib import *


def gate_elements(g):
    """[(compelt node, loop head)] of the filters over requests that look at a fullness test"""
    live = g.live(); out = []
    fulls = [b for b in g.nodes if b.kind == "branch" and b.id in live and g.r(b.term, b).endswith(".full")]
    for n in g.nodes:
        if n.id not in live: continue
        if n.kind == "compelt": val = n.value
        elif n.kind == "call" and n.name in ("append", "appendleft") and n.args and not n.get("inlined"): val = n.args[-1]
        else: continue
        h = innermost(g, n)
        if h is None: continue
        v = g.r(val, n)
        if any(g.dominates(iter_edge(g, h), b) and g.reaches(b, h) and g.r(b.term, b).find(v + ".resource") >= 0 for b in fulls): out.append((n, h, v))
    return out


def judge(g, n, h, v, group=None):
    """(error, path) if the filter lets through a candidate that is not known to be free, or holds back one that is"""
    start = iter_edge(g, h)
    res = v + ".resource"
    iq = res + ".input_queues"
    def facts(p):
        kind = None; full = False; swept = False; sfree = False
        for x in p:
            if x.kind != "edge": continue
            b = g.nodes[x.of]
            if b.kind == "branch":
                s = g.r(b.term, b)
                t = {f"isinstance({res}, TransportResource)": "transport", f"isinstance({res}, ProductionResource)": "production", f"isinstance({res}, Store)": "store"}.get(s)
                if t and x.label is True:
                    if kind not in (None, t): return None      # the three kinds exclude each other
                    kind = t
                elif t:
                    if kind == t: return None
                elif s == res + ".full":
                    if x.label is True: full = True
                    else: sfree = True
                elif s.endswith(".full") and iq in s:
                    if x.label is True: full = True
            elif b.kind == "loophead" and b.iter is not None and x.label == "done" and g.r(b.iter, b) == iq:
                if any(c.kind == "branch" and g.r(c.term, c) == f"elem({iq}).full" and g.dominates(iter_edge(g, b), c) for c in g.nodes): swept = True
        return kind, full, swept, sfree
    for p in paths_to(g, n, start=start):
        f = None if h in p else facts(p)
        if f is None: continue
        kind, full, swept, sfree = f
        if kind == "transport": continue
        if full: return f"a {kind or 'target'} with a full queue is still let through", p
        if kind == "production" and swept: continue
        if kind == "store" and sfree: continue
        if kind is None and (swept or sfree): continue
        return f"a {kind or 'target'} is let through without all of its queues having been found free", p
    for p in paths_to(g, h, start=start):
        if any(m in p for m in (group or [n])): continue
        f = facts(p)
        if f is None: continue
        kind, full, swept, sfree = f
        if full or kind is None: continue
        if kind == "production" and (full or not swept): 
            if not full and not swept: return "a production resource is held back although no full queue was found", p
            continue
        return f"a {kind} is held back although none of its queues is full", p
    return None, None


def check_gate(ck, rule, name, g):
    es = gate_elements(g)
    if not es:
        ck.ob(rule, name, False, "candidates are not filtered by whether their queues are full", g.fn.loc); return []
    for n, h, v in es:
        err, p = judge(g, n, h, v, [m for m, h2, _ in es if h2.id == h.id])
        ck.ob(rule, name, err is None, err or "", n.loc, p and [f"{x.loc} {'' if x.label else 'not '}{g.r(g.nodes[x.of].term, x)}" for x in p if x.kind == "edge" and g.nodes[x.of].kind == "branch"])
    return es
