PROPERTY = "P08"
NEEDS = "a scenario that allows both changing the number of auxiliaries and changing the layout"
BREAKS = "the layout option is ignored as soon as auxiliaries may be changed too: no mutation moves a machine"
EDITS = [("prodsys/optimization/adapter_manipulation.py", "    if scenario_data.ReconfigurationEnum.LAYOUT in transformations:\n        mutations_operations", "    elif scenario_data.ReconfigurationEnum.LAYOUT in transformations:\n        mutations_operations")]
DEMO = '''
from types import SimpleNamespace as N
from prodsys.models.scenario_data import ReconfigurationEnum as R
from prodsys.optimization import adapter_manipulation as am
def ops(*options): return am.get_mutation_operations(N(scenario_data=N(options=N(transformations=list(options)))))
check(am.move_machine in ops(R.LAYOUT), "layout alone")
check(am.move_machine in ops(R.AUXILIARY_CAPACITY, R.LAYOUT), "no mutation changes the layout although it is among the options")
'''
