PROPERTY = "P22"
NEEDS = "a configuration with at least two machines whose output queues differ from their input queues, whose unused queues are removed"
BREAKS = "queues that a machine still uses as output queues are removed from the configuration"
EDITS = [("prodsys/adapters/adapter.py", "            for queue_ID in machine.input_queues + machine.output_queues", "            for queue_ID in machine.input_queues")]
DEMO = '''
import os, random
from prodsys import adapters
from prodsys.optimization import adapter_manipulation
D = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(prodsys.__file__))), "examples/optimization/optimization_example/")
base = adapters.JsonProductionSystemAdapter(); base.read_data(D + "base_scenario.json", D + "scenario.json")
base = adapters.add_default_queues_to_adapter(base)
known = {q.ID for q in base.queue_data}
for r in adapters.get_production_resources(base):
    for q in r.input_queues + r.output_queues:
        check(q in known, "a machine refers to a queue that the configuration does not have")
'''
