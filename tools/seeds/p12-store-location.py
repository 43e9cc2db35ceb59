PROPERTY = "P12"
NEEDS = "a configuration that has a store (a queue with a location of its own), written to a file and read back"
BREAKS = "queues are read with the plain queue type, which silently drops the location of stores"
EDITS = [("prodsys/adapters/json_adapter.py",
"""        self.queue_data = self.create_objects_from_configuration_data(data["queue_data"], queue_data.QUEUE_DATA_UNION)
""",
"""        self.queue_data = self.create_objects_from_configuration_data(data["queue_data"], queue_data.QueueData)
""")]
DEMO = '''
import os, tempfile
from prodsys.adapters import JsonProductionSystemAdapter
t = psx.TransportProcess(psx.DistanceTimeModel(speed=60, reaction_time=0.1, ID="dtm"), ID="t")
p = psx.ProductionProcess(const(3, "ptm"), ID="p")
st = psx.Store(ID="st", location=[5.0, 5.0], capacity=10)
aux = psx.Auxiliary(ID="aux", transport_process=t, storages=[st], quantity_in_storages=[2], relevant_processes=[], relevant_transport_processes=[t])
m = psx.ProductionResource([p], [10, 0], 1, ID="m")
agv = psx.TransportResource([t], [0, 0], 1, ID="agv")
prod = psx.Product([p], t, ID="prod", auxiliaries=[aux])
s = psx.ProductionSystem([m, agv], [psx.Source(prod, const(7, "atm"), [0, 5], ID="src")], [psx.Sink(prod, [20, 0], ID="snk")])
cfg = s.to_model()
def stores(c): return [(q.ID, list(q.location)) for q in c.queue_data if hasattr(q, "location")]
check(stores(cfg) == [("st", [5.0, 5.0])], f"built: {stores(cfg)}")
with tempfile.TemporaryDirectory() as d:
    path = os.path.join(d, "cfg.json")
    JsonProductionSystemAdapter(**{f: getattr(cfg, f) for f in type(cfg).model_fields}).write_data(path)
    back = JsonProductionSystemAdapter()
    back.read_data(path)
check(stores(back) == [("st", [5.0, 5.0])], f"read back: {stores(back)}")
'''
