PROPERTY = "P17"
NEEDS = "a resource with three places, staggered work running in several of them when a set-up change becomes due"
BREAKS = "a set-up waits for one of the running works instead of all of them, so it starts while the other one is still running"
EDITS = [("prodsys/simulation/state.py", """                debug_logging(self, f"waiting for running processes to finish")
                yield events.AllOf(self.env, running_processes)
""", """                debug_logging(self, f"waiting for running processes to finish")
                if running_processes:
                    yield events.AnyOf(self.env, running_processes)
""")]
DEMO = '''
pa = psx.ProductionProcess(const(3.0, "ma"), ID="PA")
pb = psx.ProductionProcess(const(1.0, "mb"), ID="PB")
t = psx.TransportProcess(const(0.05, "t"), ID="T")
sab = psx.SetupState(const(5.0, "sab"), pa, pb, ID="AB")
sba = psx.SetupState(const(5.0, "sba"), pb, pa, ID="BA")
r = psx.ProductionResource([pa, pb], [1, 0], 3, states=[sab, sba], ID="R")
v = psx.TransportResource([t], [0, 0], 1, ID="V")
a = psx.Product([pa], t, ID="a"); b = psx.Product([pb], t, ID="b")
s = psx.ProductionSystem([r, v], [psx.Source(a, const(0.9, "arra"), [0, 0], ID="SA"), psx.Source(b, const(11.3, "arrb"), [0, 0], ID="SB")], [psx.Sink(a, [2, 0], ID="KA"), psx.Sink(b, [2, 0], ID="KB")])
s.run(200)
df = s.runner.event_logger.get_data_as_dataframe()
x = df[df["Resource"] == "R"]
changes = list(x[(x["State Type"] == "Setup") & (x["Activity"] == "start state")]["Time"])
check(len(changes) > 2, "no set-ups")
open_ = {}; runs = []
for _, row in x[x["State Type"] == "Production"].iterrows():
    k = row["Product"]
    if row["Activity"] == "start state": open_[k] = row["Time"]
    elif row["Activity"] == "end state" and k in open_: runs.append((open_.pop(k), row["Time"]))
bad = [(c, i) for c in changes for i in runs if i[0] < c - 1e-9 and c < i[1] - 1e-9]
check(not bad, f"a set-up started while work was running: {bad[:3]}")
'''
