PROPERTY = "P29"
NEEDS = "a request for a solution's pareto front or results endpoint of the optimization router"
BREAKS = "a generic solution route declared before the results route answers requests for the results"
EDITS = [("app/routers/performance.py", '''async def get_events(
    project_id: str, adapter_id: str, num_events: int = 10, offset: int = 0
):
    performance = prodsys_backend.get_performance(project_id, adapter_id)
''', '''async def get_events(
    project_id: str, adapter_id: str, num_events: int = 10, offset: int = 0
):
    performance = prodsys_backend.get_performance(adapter_id, project_id)
''')]
NEEDS = "a request for the events of a simulated adapter whose ID differs from its project's"
BREAKS = "the events endpoint hands project and adapter to the storage in the wrong order"
DEMO = '''
from fastapi import FastAPI
from fastapi.testclient import TestClient
from app.routers import projects, adapters, performance
import app.dependencies as dep
from prodsys.models.performance_data import Performance
a = FastAPI()
for r in (projects, adapters, performance): a.include_router(r.router)
c = TestClient(a, raise_server_exceptions=False)
c.post("/projects/", json={"ID": "P"}); c.post("/projects/P/adapters/", json={"ID": "A"})
P = Performance(event_log=[], kpis=[])
dep.prodsys_backend.create_performance("P", "A", P)
r = c.get("/projects/P/adapters/A/performance/events?num_events=0&offset=0")
check(r.status_code == 200 and r.json() == [], "events are not answered: " + r.text[:200])
'''
