PROPERTY = "P35"
NEEDS = "a product whose compound process contains a transport process that no resource offers"
BREAKS = "transport processes inside compound processes are not required to be available"
EDITS = [("prodsys/adapters/adapter.py", "    required_transport_processes += get_contained_transport_processes_from_compound_processes(configuration, required_compound_processes)\n", "")]
DEMO = """
from prodsys.models import processes_data
def accepted(*contained):
    p = psx.ProductionProcess(const(1, "t"), ID="p"); q = psx.ProductionProcess(const(1, "tq"), ID="q"); t = psx.TransportProcess(const(1, "tt"), ID="tp"); t2 = psx.TransportProcess(const(1, "tt2"), ID="tp2")
    prod = psx.Product([p], t, ID="prod")
    agv = psx.TransportResource([t, t2], [0, 0], 1, ID="agv")
    m = psx.ProductionSystem([psx.ProductionResource([p, q], [5, 0], 1, ID="m"), agv], [psx.Source(prod, const(5, "ia"), [1, 1], ID="src")], [psx.Sink(prod, [9, 2], ID="snk")]).to_model()
    m.process_data = m.process_data + [processes_data.CompoundProcessData(ID="both", description="", type="CompoundProcesses", process_ids=list(contained))]
    m.product_data[0].processes = ["both"]
    for r in m.resource_data: r.process_ids = ["tp"] if r.ID == "agv" else ["p"]
    try:
        m.validate_configuration()
    except ValueError:
        return False
    return True
check(accepted("p", "tp"), "everything that is contained is offered")
check(not accepted("p", "q"), "a contained production process is missing")
check(not accepted("p", "tp2"), "a contained transport process is missing")
"""
