PROPERTY = "P27"
NEEDS = "an update of a queue, sink or source that does not exist in an adapter that has others"
BREAKS = "updating a sink that does not exist stores a new one instead of answering 404"
EDITS = [("app/dao/sink_dao.py", '''    raise HTTPException(404, f"Sink with ID {sink_id} not found.")


def delete(''', '''    if not adapter.sink_data:
        raise HTTPException(404, f"Sink with ID {sink_id} not found.")
    adapter.sink_data.append(sink)
    prodsys_backend.update_adapter(project_id, adapter_id, adapter)
    return sink


def delete(''')]
DEMO = '''
from fastapi import FastAPI
from fastapi.testclient import TestClient
from app.routers import projects, adapters, sink
a = FastAPI()
for r in (projects, adapters, sink): a.include_router(r.router)
c = TestClient(a, raise_server_exceptions=False)
c.post("/projects/", json={"ID": "P"}); c.post("/projects/P/adapters/", json={"ID": "A"})
U = "/projects/P/adapters/A/sinks/"
body = lambda i: {"ID": i, "description": "", "location": [1.0, 2.0], "product_type": "p", "input_queues": []}
r = c.post(U, json=body("s1")); check(r.status_code == 200, "create " + r.text[:200])
check(c.put(U + "s9", json=body("s9")).status_code == 404, "updating a missing sink is not refused")
check([x["ID"] for x in c.get(U).json()] == ["s1"], "a refused update changed the sinks")
'''
