PROPERTY = "P23"
NEEDS = "two equal candidates that were evaluated under different seeds before (any optimisation with more than one run per candidate, or a base configuration with a seed)"
BREAKS = "the seed of a run is set only after the simulation was built, so that the run uses the seed of the run before: the fitness depends on the history of the candidate"
EDITS = [("prodsys/optimization/optimization.py", "        adapter_object.seed = seed\n        runner_object.initialize_simulation()\n", "        runner_object.initialize_simulation()\n        adapter_object.seed = seed\n")]
DEMO = '''
import os
from prodsys import adapters
from prodsys.optimization import optimization
D = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(prodsys.__file__))), "examples/optimization/optimization_example/")
base = adapters.JsonProductionSystemAdapter(); base.read_data(D + "base_scenario.json", D + "scenario.json")
base.ID = "b"
m = adapters.get_production_resources(base)[0]; m.process_ids = m.process_ids[:2] + ["P6"]; m.process_capacities = [1] * 3
check(optimization.check_valid_configuration(base.model_copy(deep=True), base), "the base configuration is not admissible")
base.scenario_data.info.time_range = 1000 # base.scenario_data.info.time_range = 400
def fitness(seed):
    c = base.model_copy(deep=True); c.ID = "c"; c.seed = seed
    return optimization.evaluate(base, {"current_generation": "0", "hashes": {}}, {}, 1, "", [c])
a = fitness(0)
for s in range(1, 6):
    check(fitness(s) == a, "the fitness of a candidate depends on the seed it was left with: %s, %s" % (a, fitness(s)))
'''
