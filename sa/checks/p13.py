"""P13 Simulating leaves the configuration untouched."""
TECHNIQUE = "whole-program ownership analysis: every statement that changes an object is traced backwards (locals, arguments at all call sites, fields at all stores and constructor calls, copies) to where the changed object comes from"
NOTE = "Completing a configuration while it is being constructed (default queues added by the validators) happens before a simulation and is not counted. Library calls outside the project are assumed not to change the configuration objects they are given."
from ..lib import *
from ..own import Own
from ..index import FuncInfo

SIM = ("prodsys.simulation", "prodsys.factories", "prodsys.control", "prodsys.util.runner", "prodsys.conf", "prodsys.util.statistical_functions")
AD = "prodsys.adapters.adapter.ProductionSystemAdapter"


def is_config(c): return c.mod.name.startswith("prodsys.models") and not c.mod.name.startswith("prodsys.models.performance") or c.mod.name.startswith("prodsys.adapters")


def scope(ck):
    """functions of the simulation and everything of the configuration model they reach"""
    p = ck.p; fs = {}
    todo = [f for f in p.all_funcs("prodsys") if f.mod.name.startswith(SIM)]
    A = p.cls(AD)
    for n in ("hash", "validate_configuration"):
        m = A.find_method(n)
        if m: todo.append(m)
    todo += [c.methods["hash"] for c in p.all_classes() if is_config(c) and "hash" in c.methods]
    while todo:
        f = todo.pop()
        if f.qual in fs: continue
        fs[f.qual] = f
        g = ck.graph(f, inline=lambda x: False, **({"selfcls": f.cls} if f.cls else {}))
        for n in g.nodes:
            if n.kind in ("call", "spawn"):
                for m in n.get("cands") or ():
                    if isinstance(m, FuncInfo) and m.mod.name.startswith("prodsys"): todo.append(m)
    return list(fs.values())


def check(ck):
    fs = scope(ck)
    own = Own(ck, fs, is_config, lambda f, n: None)
    ck.need("functions that take part in a simulation", len(fs), 150)
    n = 0
    for f in sorted(fs, key=lambda f: f.qual):
        if f.name == "__init__" and is_config(f.cls) if f.cls else False: continue
        for node, t, kind, txt in own.mutations(f):
            g = own.g(f); n += 1
            os = own.origin(f, g, t, node)
            bad = sorted(o[1] for o in os if o[0] == "shared")
            ck.ob("configuration-unchanged", f"{f.short} {txt[:60]}", not bad, f"{txt[:80]} changes an object of the configuration ({', '.join(bad)})", node.loc)
    ck.need("statements that change an object", n, 100)
