PROPERTY = "P15"
NEEDS = "two processes the identifier of one of which is part of the identifier of the other, offered by different resources"
BREAKS = "production processes are matched by an identifier that is contained in the offered one, so a product is routed to a resource that cannot perform its process"
EDITS = [("prodsys/simulation/process.py", """            return self.process_data.ID in requested_process.process_data.process_ids
        return requested_process.process_data.ID == self.process_data.ID

    def get_expected_process_time(self) -> float:
        return self.time_model.get_expected_time()


class Cap""", """            return self.process_data.ID in requested_process.process_data.process_ids
        return requested_process.process_data.ID in self.process_data.ID

    def get_expected_process_time(self) -> float:
        return self.time_model.get_expected_time()


class Cap""")]
DEMO = '''
p1 = psx.ProductionProcess(const(1.0, "m"), ID="P1")
p2 = psx.ProductionProcess(const(3.0, "n"), ID="P10")
t = psx.TransportProcess(const(0.3, "a"), ID="T")
r1 = psx.ProductionResource([p1], [10, 0], 1, ID="R1")
r2 = psx.ProductionResource([p2], [5, 0], 1, ID="R2")
v = psx.TransportResource([t], [0, 0], 1, ID="V")
a = psx.Product([p1], t, ID="a"); b = psx.Product([p2], t, ID="b")
s = psx.ProductionSystem([r1, r2, v], [psx.Source(a, const(2, "arr"), [0, 0], ID="S"), psx.Source(b, const(9, "arr2"), [0, 0], ID="S2")], [psx.Sink(a, [20, 0], ID="K"), psx.Sink(b, [20, 0], ID="K2")])
s.run(60)
df = s.runner.event_logger.get_data_as_dataframe()
x = df[(df["Resource"] == "R2") & df["Product"].astype(str).str.startswith("a_") | (df["Resource"] == "R2") & (df["Product"].astype(str).str.contains("a"))]
y = df[(df["Resource"] == "R1") & df["Product"].notna()]
check(len(y) > 0, "R1 is never used")
check(len(x[x["Product"].notna() & ~x["Product"].isna() & (x["Product"].astype(str) != "nan")]) == 0, "a product was routed to a resource without its process\\n" + x.to_string()[:800])
'''
