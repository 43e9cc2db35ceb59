PROPERTY = "P22"
NEEDS = "a mutation that moves a process module between two machines, so that both have another number of processes"
BREAKS = "the machines' process capacities do not fit their processes any more"
EDITS = [("prodsys/optimization/adapter_manipulation.py", "    adjust_process_capacities(adapter_object)\n\n    return (individual,)", "    if mutation_operation in (add_machine, add_process_module, remove_process_module):\n        adjust_process_capacities(adapter_object)\n\n    return (individual,)")]
DEMO = '''
import os, random
from prodsys import adapters
from prodsys.optimization import adapter_manipulation
D = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(prodsys.__file__))), "examples/optimization/optimization_example/")
base = adapters.JsonProductionSystemAdapter(); base.read_data(D + "base_scenario.json", D + "scenario.json")
for k in range(60):
    random.seed(k)
    c = adapter_manipulation.mutation([base.model_copy(deep=True)])[0][0]
    for r in c.resource_data:
        check(len(r.process_capacities) == len(r.process_ids), "a resource does not have one capacity per process after a mutation")
'''
