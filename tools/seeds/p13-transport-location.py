PROPERTY = "P13"
NEEDS = "a simulation in which a transport resource has moved by the end, and looking at the configuration (or simulating it again) afterwards"
BREAKS = "only machines are given a private copy of their data, so a transport resource moves in the configuration itself: after the run its configured location is where it happened to stop"
EDITS = [("prodsys/factories/resource_factory.py",
"""            self.add_resource(resource_data.model_copy(deep=True))""",
"""            if isinstance(resource_data, ProductionResourceData):
                resource_data = resource_data.model_copy(deep=True)
            self.add_resource(resource_data)""")]
DEMO = '''
t = psx.TransportProcess(psx.DistanceTimeModel(speed=60, reaction_time=0.1, ID="dtm"), ID="t")
p = psx.ProductionProcess(const(3, "ptm"), ID="p")
m = psx.ProductionResource([p], [10, 0], 1, ID="m")
agv = psx.TransportResource([t], [0, 0], 1, ID="agv")
prod = psx.Product([p], t, ID="prod")
s = psx.ProductionSystem([m, agv], [psx.Source(prod, const(7, "atm"), [0, 5], ID="src")], [psx.Sink(prod, [20, 0], ID="snk")])
cfg = s.to_model()
before = cfg.model_dump()
r = prodsys.util.runner.Runner(adapter=cfg)
r.initialize_simulation()
r.run(100)
check(len(r.product_factory.finished_products) > 3, "the system works")
after = cfg.model_dump()
diff = [k for k in before if before[k] != after[k]]
check(not diff, f"simulating changed the configuration: {diff}")
'''
