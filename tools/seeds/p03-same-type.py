PROPERTY = "P03"
NEEDS = "a machine with a LIFO policy and several waiting products of the same type"
BREAKS = "the machine takes any item of the same type out of its input queue and delivers another one, so one item is lost and the other exists twice"
EDITS = [("prodsys/simulation/control.py", "            events = [selected_queue.get(filter=lambda item: item is product.product_data)]\n", "            events = [selected_queue.get(filter=lambda item: item.product_type == product.product_data.product_type)]\n")]
DEMO = '''
from prodsys.models.resource_data import ResourceControlPolicy
p = psx.ProductionProcess(const(5.0, "m"), ID="P"); q = psx.ProductionProcess(const(1.0, "n"), ID="Q"); t = psx.TransportProcess(const(0.05, "t"), ID="T")
m = psx.ProductionResource([p], [5, 0], 1, control_policy=ResourceControlPolicy.LIFO, ID="M")
n = psx.ProductionResource([q], [7, 0], 1, ID="N")
v = psx.TransportResource([t], [0, 0], 1, ID="V")
x = psx.Product([p, q], t, ID="x")
s = psx.ProductionSystem([m, n, v], [psx.Source(x, const(1.0, "arr"), [0, 0], ID="S")], [psx.Sink(x, [9, 0], ID="K")])
try: s.run(33)
except ValueError as e: check(False, f"an item was lost: {e}")
r = s.runner
where = {}
for qu in r.queue_factory.queues:
    for item in qu.items: where.setdefault(item.ID, []).append(qu.data.ID)
twice = {k: w for k, w in where.items() if len(w) > 1}
check(not twice, f"items exist twice: {twice}")
fin = {i.ID for qu in r.queue_factory.queues for i in qu.items}
check(len(where) > 5, f"{where}")
'''
