PROPERTY = "P30"
NEEDS = "an agent that chooses the position right behind the last waiting request"
BREAKS = "the sequencing environment no longer recognises the first position behind the waiting requests as an invalid action and the step ends with an IndexError"
EDITS = [("prodsys/control/sequencing_control_env.py", "        if queue_index >= len(self.resource_controller.requests):\n", "        if queue_index > len(self.resource_controller.requests):\n")]
DEMO = '''
import os, numpy as np
from prodsys import adapters
from prodsys.control import sequencing_control_env as S
D = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(prodsys.__file__))), "examples", "control", "control_example_data", "control_configuration.json")
a = adapters.JsonProductionSystemAdapter(); a.read_data(D)
class Q(S.AbstractSequencingControlEnv):
    def get_observation(s): return np.zeros(1)
    def get_info(s): return {}
    def get_termination_condition(s): return False
    def get_reward(s, r, invalid_action=False): return -1 if invalid_action else 1
e = Q(a, a.resource_data[0].ID); e.reset()
for i in range(60):
    n = len(e.resource_controller.requests)
    act = np.zeros(n + 3); act[n + i % 2] = 1
    try: obs, reward, term, trunc, info = e.step(act)
    except IndexError as ex: check(False, f"an action behind the waiting requests makes the step fail: {ex}")
    check(reward == -1, f"an invalid action was judged as valid in step {i}")
'''
