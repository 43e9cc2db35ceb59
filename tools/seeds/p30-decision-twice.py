PROPERTY = "P30"
NEEDS = "two products to be routed at the same simulation time"
BREAKS = "when a second product asks for a route while a decision of the agent is pending, it is routed at once without the agent having decided"
EDITS = [("prodsys/simulation/router.py", """        while possible_requests:
            possible_requests.pop()
        return
    gym_env.set_possible_requests(possible_requests)
""", """        while len(possible_requests) > 1:
            possible_requests.pop()
        return
    gym_env.set_possible_requests(possible_requests)
""")]
DEMO = '''
import numpy as np
from prodsys.control import routing_control_env as R
p = psx.ProductionProcess(const(3.0, "m"), ID="P"); t = psx.TransportProcess(const(0.1, "t"), ID="T")
ms = [psx.ProductionResource([p], [5, i], 1, ID=f"M{i}") for i in range(2)]
vs = [psx.TransportResource([t], [0, 0], 1, ID=f"V{i}") for i in range(4)]
ps = [psx.Product([p], t, ID=x) for x in ("a", "b")]
srcs = [psx.Source(x, psx.ScheduledTimeModel([1, 8, 15, 22, 29], absolute=True, cyclic=False, ID="arr" + x.ID), [0, 0], ID="S" + x.ID) for x in ps]
snks = [psx.Sink(x, [9, 0], ID="K" + x.ID) for x in ps]
a = psx.ProductionSystem(ms + vs, srcs, snks).to_model()
class E(R.AbstractRoutingControlEnv):
    def get_observation(s): return np.zeros(1)
    def get_info(s): return {}
    def get_termination_condition(s): return False
    def get_reward(s, invalid_action=False): return -1 if invalid_action else 1
e = E(a); e.reset(); asked = 0
res = [r for r in e.runner.resource_factory.resources]
target = [i for i, r in enumerate(res) if r.data.ID == "M1"][0]
for i in range(60):
    if e.runner.env.now > 20: break
    ids = [r.resource.data.ID for r in e.possible_requests]
    k = target if "M1" in ids else [j for j, r in enumerate(res) if r.data.ID == ids[-1]][0]
    act = np.zeros(len(res)); act[k] = 1; e.step(act)
done = [row for row in e.runner.event_logger.event_data if row["Resource"] == "M0" and row["State Type"] == "Production"]
check(not done, f"work was routed to M0 although the agent never chose it: {len(done)}")
'''
