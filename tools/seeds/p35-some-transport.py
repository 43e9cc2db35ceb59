PROPERTY = "P35"
NEEDS = "two products with different transport processes of which only one is offered by a resource"
BREAKS = "transport processes are only refused if none of the required ones is offered"
EDITS = [("prodsys/adapters/adapter.py", """    if required - available != set():
        raise ValueError(f"Required transport processes""", """    if required and not required & available:
        raise ValueError(f"Required transport processes""")]
DEMO = """
from prodsys import runner
def accepted(offered):
    p = psx.ProductionProcess(const(1, "t"), ID="p"); ts = {i: psx.TransportProcess(const(1, "t" + i), ID=i) for i in ("tp1", "tp2")}
    prods = [psx.Product([p], ts["tp1"], ID="prod1"), psx.Product([p], ts["tp2"], ID="prod2")]
    agv = psx.TransportResource(list(ts.values()), [0, 0], 1, ID="agv")
    m = psx.ProductionSystem([psx.ProductionResource([p], [5, 0], 1, ID="m"), agv], [psx.Source(x, const(5, "ia"), [1, i], ID=f"src{i}") for i, x in enumerate(prods)], [psx.Sink(x, [9, i], ID=f"snk{i}") for i, x in enumerate(prods)]).to_model()
    r = [x for x in m.resource_data if x.ID == "agv"][0]
    r.process_ids = list(offered)
    try:
        runner.Runner(adapter=m).initialize_simulation()
    except ValueError:
        return False
    return True
check(accepted(("tp1", "tp2")), "a system that offers all transports is accepted")
check(not accepted(("tp1",)), "the transport of the second product is missing")
check(not accepted(("tp2",)), "the transport of the first product is missing")
"""
