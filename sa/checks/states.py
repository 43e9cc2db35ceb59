"""Typestate of interruptible states: what happens between the timed wait of a process state and its interruptions."""
from ..lib import *

S = "prodsys.simulation.state."


def interruptible(ck):
    base = ck.p.cls(S + "State")
    out = [c for c in ck.p.subclasses(base) if c.find_field("interrupted") is not None and not (c.find_method("process_state") is None or c.find_method("process_state").is_abstract)]
    ck.need("interruptible states", len(out), 4)
    return sorted(out, key=lambda c: c.name)


class StateModel:
    """the interesting nodes of one process_state"""

    def __init__(self, ck, ci):
        self.ci = ci; self.ck = ck
        g = self.g = ck.graph(ci.find_method("process_state"), selfcls=ci, stop=("consider_battery_usage", "get_location", "get_next_time", "log_start_state", "log_end_state", "log_start_interrupt_state", "log_end_interrupt_state", "get_handling_time"))
        live = g.live()
        self.yields = [n for n in g.nodes if n.kind == "yield" and n.id in live]
        self.T = {}
        for y in self.yields:
            t = g.resolve(y.value, y)
            if t[0] == "call" and g.nodes[t[1]].name == "timeout":
                c = g.nodes[t[1]]
                self.T[y.id] = g.r(c.args[0], c) if c.args else "?"
        rems = {v for v in self.T.values() if v.startswith("self.") and v.count(".") == 1}
        self.rem = next(iter(rems))[5:] if len(rems) == 1 else None
        self.start = None
        now = {"self.env.now"}
        # the attribute that is set to now right before the timed wait
        for n in g.stores():
            if g.r(n.base, n) == "self" and g.r(n.value, n) == "self.env.now": self.start = n.attr
        self.waits = [y for y in self.yields if y.id not in self.T]

    def kind(self, n):
        """('ded'|'zero'|'set'|'start'|'flag1'|'flag0'|None)"""
        g = self.g
        if n.kind != "store" or g.r(n.base, n) != "self": return None
        if n.attr == "interrupted":
            return {"True": "flag1", "False": "flag0"}.get(g.r(n.value, n), "flag?")
        if self.start and n.attr == self.start: return "start" if g.r(n.value, n) == "self.env.now" else "start?"
        if self.rem and n.attr == self.rem:
            v = g.resolve(n.value, n)
            if v == ("const", 0) or v == ("const", 0.0): return "zero"
            if self._isded(v): return "ded"
            if v[0] == "call" and g.nodes[v[1]].name == "max":
                c = g.nodes[v[1]]
                a = [g.resolve(x, c) for x in c.args]
                if len(a) == 2 and any(x in (("const", 0), ("const", 0.0)) for x in a) and any(self._isded(x) for x in a): return "ded"
            return "set"
        return None

    def _isded(self, v):
        from ..lib import _lin
        l = _lin(self.g, v)
        return l == {f"self.{self.rem}": 1, "self.env.now": -1, f"self.{self.start}": 1}


def edge_facts(m, e):
    """facts established by a branch edge"""
    g = m.g; b = g.nodes[e.of]
    if b.kind != "branch": return {}
    s = g.r(b.term, b); f = {}
    lab = e.label
    if s == "self.interrupted": f["flag"] = lab
    for w in ("triggered", "processed"):
        if s == f"self.active.{w}" and lab: f["a1"] = True
        if s == f"self.resource.active.{w}" and lab: f["a2"] = True
    rem = f"self.{m.rem}"
    if s in (rem,): f["rem0"] = not lab
    elif s == f"(0 < {rem})": f["rem0"] = not lab
    elif s == f"(0 == {rem})": f["rem0"] = lab
    elif s == f"({rem} < 0)": f["neg"] = lab
    if m.start and s in (f"(0 == self.{m.start})",) and lab: f["infeasible"] = True
    if m.start and s == f"self.{m.start}" and not lab: f["infeasible"] = True
    return f
