PROPERTY = "P10"
NEEDS = "two or more sources of which an earlier one has no queue of its own (its default queue is created) and a later one refers to a queue, time model or product that does not exist"
BREAKS = "the validation of the sources stops at the first source that receives a default queue, so a later source may refer to anything"
EDITS = [("prodsys/adapters/adapter.py", """                values["queue_data"] += [output_queue]
                continue
""", """                values["queue_data"] += [output_queue]
                break
""")]
DEMO = """
from prodsys.models import source_data, queue_data
p = psx.ProductionProcess(const(1, "t"), ID="p"); t = psx.TransportProcess(const(1, "tt"), ID="tp")
r = psx.ProductionResource([p], [5, 0], 1, ID="m"); a = psx.TransportResource([t], [0, 0], 1, ID="agv")
prod = psx.Product([p], t, ID="prod")
s = psx.ProductionSystem([r, a], [psx.Source(prod, const(5, "ia"), [1, 1], ID="src")], [psx.Sink(prod, [2, 2], ID="snk")])
m = s.to_model()
def src(i, queues, tm="ia"):
    return source_data.SourceData(ID=f"s{i}", description="", location=[i, 9], product_type="prod", time_model_id=tm, routing_heuristic="shortest_queue", output_queues=queues)
m.source_data = [src(1, []), src(2, [])]
check(len(m.source_data) == 2, "sources without queues are accepted")
for i, bad in enumerate(([src(1, []), src(2, ["nowhere"])], [src(1, []), src(2, [], "never")], [src(2, ["nowhere"]), src(1, [])])):
    try:
        m.source_data = bad
    except ValueError:
        continue
    check(False, f"dangling reference of a source is accepted ({i})")
"""
