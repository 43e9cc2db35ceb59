PROPERTY = "P21"
NEEDS = "a tabu search of at least one step, in which several neighbours of the same solution are built before they are scored"
BREAKS = "the neighbours are shallow copies of the current solution, so every move changes the current solution and all other neighbours"
EDITS = [("prodsys/optimization/tabu_search.py", "configuration = mutation(individual=[deepcopy(self.current)])[0][0]", "configuration = mutation(individual=[self.current.model_copy()])[0][0]")]
DEMO = '''
import json, os, random, tempfile
from prodsys import adapters
from prodsys.optimization import tabu_search
D = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(prodsys.__file__))), "examples/optimization/optimization_example/")
base = adapters.JsonProductionSystemAdapter(); base.read_data(D + "base_scenario.json", D + "scenario.json")
base.ID = "b"; base.scenario_data.info.time_range = 100
seen = []
plain = tabu_search.evaluate
def recorded(*args, **kw):
    x = kw["individual"][0]
    seen.append((x, json.dumps(x.model_dump(), default=str, sort_keys=True)))
    return plain(*args, **kw)
tabu_search.evaluate = recorded
with tempfile.TemporaryDirectory() as d:
    tabu_search.tabu_search_optimization(base, tabu_search.TabuSearchHyperparameters(seed=3, tabu_size=3, max_steps=2, number_of_seeds=1), d)
check(len(seen) > 5, "only %d candidates scored" % len(seen))
def parts(c): return {id(x) for x in c.resource_data + c.queue_data + c.source_data + c.sink_data + c.process_data}
for i, (a, dump) in enumerate(seen):
    for b, _ in seen[:i]:
        check(a is b or not parts(a) & parts(b), "two candidates share a resource, queue, source, sink or process")
'''
