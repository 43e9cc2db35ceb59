PROPERTY = "P28"
NEEDS = "two projects that contain an adapter of the same ID, of which the one created later is not the addressed one"
BREAKS = "the adapter is looked up in every project, so a write may land in another project's adapter of the same ID"
EDITS = [("app/backends/in_memory.py", '''        project = self.get_project(project_id)
        for adapter in project.adapters:
            if adapter.ID == adapter_id:
                return adapter
''', '''        self.get_project(project_id)
        adapters = {adapter.ID: adapter for project in self.database.values() for adapter in project.adapters}
        if adapter_id in adapters:
            return adapters[adapter_id]
''')]
DEMO = '''
from fastapi import FastAPI
from fastapi.testclient import TestClient
from app.routers import projects, adapters, products
a = FastAPI()
for r in (projects, adapters, products): a.include_router(r.router)
c = TestClient(a, raise_server_exceptions=False)
for p in ("P", "Q"):
    check(c.post("/projects/", json={"ID": p}).status_code == 200, "project")
    check(c.post(f"/projects/{p}/adapters/", json={"ID": "A"}).status_code == 200, "adapter")
body = {"ID": "p1", "description": "", "processes": ["x"], "transport_process": "t"}
check(c.post("/projects/P/adapters/A/products/", json=body).status_code == 200, "create")
check(c.get("/projects/P/adapters/A/products/").json() != [], "the created product is not in the addressed adapter's list")
ps = [x for x in c.get("/projects/Q").json()["adapters"]][0]["product_data"]
check(ps == [], "a product appeared in another project")
ps = [x for x in c.get("/projects/P").json()["adapters"]][0]["product_data"]
check([x["ID"] for x in ps] == ["p1"], "the product is missing in its project")
'''
