PROPERTY = "P02"
NEEDS = "a bounded queue that already holds items when further places are promised in it"
BREAKS = "A place is promised in a queue whose held items and promised places together already fill it."
EDITS = [("prodsys/simulation/store.py", "        if self._pending_put + len(self.items) > self.capacity:", "        if self._pending_put > self.capacity:")]
DEMO = '''
from prodsys.simulation import sim, store
from prodsys.models import queue_data
env = sim.Environment()
q = store.Queue(env, queue_data.QueueData(ID="q", description="", capacity=2))
q.reserve(); q.put("a")
env.run(1)
q.reserve()
try:
    q.reserve()
except RuntimeError:
    sys.exit(0)
check(False, f"{q._pending_put} places promised and {len(q.items)} items in a queue for 2")
'''
