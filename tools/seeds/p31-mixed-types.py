PROPERTY = "P31"
NEEDS = "two product types sharing a process of a batch resource"
BREAKS = "a batch takes the next waiting items whatever their product type, so products of different types are put into one batch"
EDITS = [("prodsys/simulation/control.py", """                        filter=lambda item: item.product_type == process_request.get_product().product_data.product_type
""", """                        filter=lambda item: item.processes == process_request.get_product().product_data.processes
""")]
DEMO = '''
from prodsys.models.resource_data import ControllerEnum
p = psx.ProductionProcess(const(1.5, "m"), ID="P"); t = psx.TransportProcess(const(0.05, "t"), ID="T")
m = psx.ProductionResource([p], [5, 0], 2, controller=ControllerEnum.BatchController, batch_size=2, ID="M")
v = psx.TransportResource([t], [0, 0], 1, ID="V")
ps = [psx.Product([p], t, ID=i) for i in ("x", "y")]
srcs = [psx.Source(i, psx.ScheduledTimeModel(l, absolute=True, cyclic=False, ID="arr" + i.ID), [0, 0], ID="S" + i.ID) for i, l in zip(ps, ([1, 3, 5, 7, 200], [2, 4, 6, 8, 200]))]
s = psx.ProductionSystem([m, v], srcs, [psx.Sink(i, [9, 0], ID="K" + i.ID) for i in ps])
s.run(60)
df = s.runner.event_logger.get_data_as_dataframe(); d = df[(df["Resource"] == "M") & (df["State Type"] == "Production") & (df["Activity"] == "start state")]
batches = {}
for _, r in d.iterrows(): batches.setdefault(r["Time"], []).append(r["Product"])
mixed = [b for b in batches.values() if len({i.split("_")[0] for i in b}) > 1]
check(len(d) > 1 and not mixed, f"{len(d)} products in batches of different types: {mixed}")
'''
