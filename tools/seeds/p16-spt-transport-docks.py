PROPERTY = "P16"
NEEDS = "a transport resource with the SPT_transport policy, several waiting requests, and machines whose input and output docks lie apart so that the order differs"
BREAKS = "waiting transports are ordered by the way between the wrong docks: input of the pick-up resource to output of the target"
EDITS = [("prodsys/simulation/control.py", 'get_location(x.origin, "origin"), get_location(x.target, "target")', 'get_location(x.origin, "target"), get_location(x.target, "origin")')]
DEMO = '''
from types import SimpleNamespace as N
from prodsys.simulation import control, resources
def machine(i, o):
    return resources.ProductionResource.model_construct(data=N(input_location=i, output_location=o, location=[0, 0]))
class Process:
    def get_expected_process_time(self, origin, target): return abs(origin[0] - target[0]) + abs(origin[1] - target[1])
far = N(name="far", process=Process(), origin=machine([0, 0], [50, 0]), target=machine([0, 0], [1, 0]))
near = N(name="near", process=Process(), origin=machine([0, 0], [5, 0]), target=machine([1, 0], [90, 0]))
requests = [far, near]
control.SPT_transport_control_policy(requests)
check([r.name for r in requests] == ["near", "far"], f"order {[r.name for r in requests]}: the shorter transport does not come first")
'''
