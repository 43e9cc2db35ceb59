PROPERTY = "P09"
NEEDS = "two queues of which one identifier is the beginning of the other (Q1, Q10), used by different resources"
BREAKS = "queues are matched by prefix, so a resource that asks for Q1 also gets Q10, the queue of another resource"
EDITS = [("prodsys/factories/queue_factory.py", "return [q for q in self.queues if q.data.ID in IDs]", "prefixes = tuple(IDs)\n        return [q for q in self.queues if q.data.ID.startswith(prefixes)]")]
DEMO = '''
from types import SimpleNamespace as N
from prodsys.factories import queue_factory
f = queue_factory.QueueFactory.model_construct(queues=[N(data=N(ID=i)) for i in ("Q10", "Q1", "Q2", "Q21")])
got = sorted(q.data.ID for q in f.get_queues(["Q1", "Q2"]))
check(got == ["Q1", "Q2"], f"asked for Q1 and Q2, got {got}")
'''
