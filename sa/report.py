"""Obligations, known findings, evidence."""
from __future__ import annotations
import json, os, sys, time, traceback
from .index import Project, AnchorError
from .flow import Graph

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("SA_EVIDENCE", os.path.join(HERE, "evidence"))


class Check:
    def __init__(self, pid, tier="quick", project=None):
        self.id = pid; self.tier = tier; self.p = project or Project()
        self.obs = []; self._graphs = {}; self.functions = set(); self.notes = []; self.assumptions = []
        self.maxdepth = 10 if tier == "quick" else 14

    # graphs -------------------------------------------------------------------
    def graph(self, qual, **kw):
        key = (qual if isinstance(qual, str) else qual.qual, tuple(sorted((k, str(v)) for k, v in kw.items())))
        if key not in self._graphs:
            fn = self.p.func(qual) if isinstance(qual, str) else qual
            kw.setdefault("maxdepth", self.maxdepth)
            self._graphs[key] = Graph(self.p, fn, **kw)
        g = self._graphs[key]
        self.functions.add(g.fn.qual)
        for c in g.ctxs:
            if c.fn is not None and c.kind == "func": self.functions.add(c.fn.qual)
        return g

    # obligations -----------------------------------------------------------------
    def ob(self, rule, construct, ok, msg="", loc="", path=None):
        self.obs.append({"rule": rule, "construct": construct, "ok": bool(ok), "msg": msg, "loc": loc, "path": [str(x) for x in path] if path else None})
        return bool(ok)

    def need(self, what, n, minimum=1):
        """anchor guard: fewer instances than the rule was built on -> no verdict"""
        if n < minimum: raise AnchorError(f"{what}: found {n}, expected at least {minimum}")

    def violations(self): return [o for o in self.obs if not o["ok"]]


def load_known():
    out = []
    path = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            if l.startswith("finding:"):
                # finding: property=P02 key=<rule>@<construct> -- text
                head, _, text = l[len("finding:"):].partition(" -- ")
                parts = dict(x.split("=", 1) for x in head.split() if "=" in x)
                out.append((parts["property"], parts["key"], text))
    return out


def run(pid, fn, tier, level="other"):
    t0 = time.time()
    try:
        ck = Check(pid, tier)
        fn(ck)
    except AnchorError as e:
        print(f"ERROR property={pid} anchor vanished: {e}"); return 2
    except Exception:
        traceback.print_exc(); print(f"ERROR property={pid} internal error"); return 2
    known = {(p, k): t for p, k, t in load_known()}
    bad = []; hit = []
    seen = set()
    for o in ck.violations():
        k = (pid, f"{o['rule']}@{o['construct']}".replace(" ", "_"))
        if k in known:
            if k not in seen: hit.append((k[1], known[k]))
            seen.add(k)
        else: bad.append(o)
    rules = {}
    for o in ck.obs:
        r = rules.setdefault(o["rule"], {"obligations": 0, "failed": 0}); r["obligations"] += 1; r["failed"] += not o["ok"]
    for k, t in hit: print(f"KNOWN-FINDING: property={pid} {t}")
    os.makedirs(EVID, exist_ok=True)
    if bad:
        rp = os.path.join(EVID, f"{pid}.violation.txt")
        with open(rp, "w") as f:
            for o in bad:
                f.write(f"{o['loc']}: [{o['rule']}] {o['construct']}: {o['msg']}\n")
                for x in o["path"] or []: f.write(f"    via {x}\n")
        for o in bad:
            print(f"{o['loc']}: [{o['rule']}] {o['construct']}: {o['msg']}")
        print(f"VIOLATION property={pid} replay={rp}")
    else:
        rp = os.path.join(EVID, f"{pid}.violation.txt")
        if os.path.exists(rp): os.remove(rp)
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level,
          "coverage": {"explanation": f"static analysis of {len(ck.functions)} functions of /repo's current sources: {len(ck.obs)} obligations under {len(rules)} rules; no code of the repository is executed",
                       "functions_analysed": sorted(ck.functions), "obligations": len(ck.obs),
                       "discharged": sum(o["ok"] for o in ck.obs), "rules": rules,
                       "graph_nodes": sum(len(g.nodes) for g in ck._graphs.values()),
                       "instances": [f"{o['loc']} [{o['rule']}] {o['construct']}" for o in ck.obs][:400],
                       "known_findings_reported": [k for k, _ in hit], "notes": ck.notes},
          "assumptions": ck.assumptions or ["pydantic, simpy, numpy and pandas behave as documented", "no monkey-patching outside /repo"],
          "wall_s": round(time.time() - t0, 3)}
    ev["violations"] = len(bad)
    if bad: ev["coverage"]["violating_constructs"] = [f"{o['loc']} [{o['rule']}] {o['construct']}: {o['msg']}" for o in bad]
    with open(os.path.join(EVID, f"{pid}.json"), "w") as f: json.dump(ev, f, indent=1)
    print(f"{pid} [{tier}]: {len(ck.obs)} obligations, {sum(o['ok'] for o in ck.obs)} discharged, {len(hit)} known, {len(bad)} violations, {ev['wall_s']}s")
    return 1 if bad else 0
