PROPERTY = "P23"
NEEDS = "an evolutionary optimisation in which two candidates of a generation are crossed over"
BREAKS = "both candidates of a crossover get the same ID, so that the record and the file of one of them are overwritten by the other"
EDITS = [("prodsys/optimization/adapter_manipulation.py", "ind2[0].ID = str(uuid1())", "ind2[0].ID = ind1[0].ID")]
DEMO = '''
import os, random
from prodsys import adapters
from prodsys.optimization import adapter_manipulation
D = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(prodsys.__file__))), "examples/optimization/optimization_example/")
base = adapters.JsonProductionSystemAdapter(); base.read_data(D + "base_scenario.json", D + "scenario.json")
for k in range(5):
    random.seed(k)
    a, b = base.model_copy(deep=True), base.model_copy(deep=True)
    a.ID, b.ID = "a", "b"
    x, y = adapter_manipulation.crossover([a], [b])
    check(x[0].ID != y[0].ID, "the two candidates of a crossover are recorded under the same ID")
    check(x[0].ID not in ("a", "b") and y[0].ID not in ("a", "b"), "a changed candidate keeps its ID")
'''
