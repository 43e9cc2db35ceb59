PROPERTY = "P01"
NEEDS = "several suitable resources for a product and two processes with different hash randomisation"
BREAKS = "the requests a product can choose from are listed in the order of a set of identifiers, so the random choice among them depends on hash randomisation and not only on the seed"
EDITS = [("prodsys/simulation/router.py", """        return [
            request
            for request in production_requests
            if request.resource.data.ID in possible_production_resource_ids
        ]
""", """        return [
            request
            for resource_id in possible_production_resource_ids
            for request in production_requests
            if request.resource.data.ID == resource_id
        ]
""")]
DEMO = '''
import os, subprocess, sys, hashlib
if os.environ.get("DEMO_CHILD"):
    p = psx.ProductionProcess(const(3, "m"), ID="P"); t = psx.TransportProcess(const(0.3, "a"), ID="T")
    rs = [psx.ProductionResource([p], [10, i], 1, ID=f"machine number {i}") for i in range(6)]
    v = psx.TransportResource([t], [0, 0], 2, ID="V")
    a = psx.Product([p], t, ID="a"); a.routing_heuristic = "random"
    src = psx.Source(a, const(1, "arr"), [0, 1], ID="S", routing_heuristic="FIFO")
    s = psx.ProductionSystem(rs + [v], [src], [psx.Sink(a, [40, 0], ID="K")])
    s.run(60)
    df = s.runner.event_logger.get_data_as_dataframe()
    print("LOG", hashlib.md5(df[["Time", "Resource", "State", "Activity", "Product"]].to_csv().encode()).hexdigest())
    sys.exit(0)
logs = set()
for h in ("1", "2", "3"):
    r = subprocess.run([sys.executable, __file__], capture_output=True, text=True, env={**os.environ, "DEMO_CHILD": "1", "PYTHONHASHSEED": h})
    out = [l for l in r.stdout.splitlines() if l.startswith("LOG")]
    check(bool(out), "no log: " + r.stderr[-300:])
    logs.add(out[0])
check(len(logs) == 1, "the same configuration and seed give different event logs in different processes")
'''
