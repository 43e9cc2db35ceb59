PROPERTY = "P35"
NEEDS = "a store at the place of another object"
BREAKS = "the places of stores are not compared with those of machines, sources and sinks"
EDITS = [("prodsys/adapters/adapter.py", "sink_locations + store_locations", "remove_duplicate_locations(sink_locations + store_locations)")]
DEMO = """
from prodsys import runner
def accepted(places, sinks=((9, 2),)):
    p = psx.ProductionProcess(const(1, "t"), ID="p"); t = psx.TransportProcess(const(1, "tt"), ID="tp"); tp2 = psx.TransportProcess(const(1, "tt2"), ID="tp2")
    stores = [psx.Store(ID=f"store{i}", location=list(x), capacity=10) for i, x in enumerate(places)]
    aux = psx.Auxiliary(ID="aux", transport_process=tp2, storages=stores, quantity_in_storages=[1] * len(stores), relevant_processes=[p], relevant_transport_processes=[t])
    prod = psx.Product([p], t, ID="prod", auxiliaries=[aux])
    try:
        m = psx.ProductionSystem([psx.ProductionResource([p], [5, 0], 1, ID="m"), psx.TransportResource([t, tp2], [0, 0], 1, ID="agv")], [psx.Source(prod, const(5, "ia"), [1, 1], ID="src")], [psx.Sink(prod, list(x), ID=f"snk{i}") for i, x in enumerate(sinks)]).to_model()
        runner.Runner(adapter=m).initialize_simulation()
    except ValueError:
        return False
    return True
check(accepted([(3, 3), (4, 4)]), "stores at places of their own are accepted")
check(accepted([(3, 3)], ((9, 2), (9, 2))), "two sinks at one place are accepted")
check(not accepted([(5, 0)]), "a store in a machine is accepted")
check(not accepted([(1, 1)]), "a store in a source is accepted")
check(not accepted([(9, 2)]), "a store in a sink is accepted")
check(not accepted([(3, 3), (3, 3)]), "two stores at one place are accepted")
"""
