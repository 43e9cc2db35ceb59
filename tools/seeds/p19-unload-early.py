PROPERTY = "P19"
NEEDS = "a link transport with an unloading time whose loaded route has more than one leg"
BREAKS = "the unloading time is spent on the first loaded leg, before the load has arrived, instead of on the last one"
EDITS = [("prodsys/simulation/state.py", """        if self.unloading_time_model and last_transport_step and not empty_transport:
""", """        if self.unloading_time_model and initial_transport_step and not empty_transport:
""")]
DEMO = '''
n1 = psx.Node(location=[10, 0], ID="n1")
p = psx.ProductionProcess(const(1, "m"), ID="P")
r = psx.ProductionResource([p], [20, 0], 1, ID="R")
t = psx.LinkTransportProcess(psx.DistanceTimeModel(speed=1, reaction_time=0, ID="d"), ID="T", loading_time_model=const(3, "ld"), unloading_time_model=const(5, "ul"))
prod = psx.Product([p], t, ID="a")
S = psx.Source(prod, const(100, "arr"), [0, 0], ID="S"); K = psx.Sink(prod, [30, 0], ID="K")
t.add_link([S, n1]); t.add_link([n1, r]); t.add_link([r, K])
v = psx.TransportResource([t], [0, 0], 1, ID="V")
s = psx.ProductionSystem([r, v], [S], [K])
s.run(190)
df = s.runner.event_logger.get_data_as_dataframe()
x = df[(df["Resource"] == "V") & (df["State"] == "T")]
legs = []; start = None
for _, row in x.iterrows():
    if row["Activity"] == "start state": start = row
    elif row["Activity"] == "end state" and start is not None:
        legs.append((start["Origin location"], start["Target location"], bool(start["Empty Transport"]), row["Time"] - start["Time"])); start = None
by = {(o, z): d for o, z, e, d in legs if not e}
check(("S", "n1") in by and ("n1", "R") in by and ("R", "K") in by, f"legs {legs}")
check(abs(by["S", "n1"] - 13) < 1e-9, f"first loaded leg takes {by['S', 'n1']}")
check(abs(by["n1", "R"] - 15) < 1e-9, f"last loaded leg takes {by['n1', 'R']}")
check(abs(by["R", "K"] - 18) < 1e-9, f"single loaded leg takes {by['R', 'K']}")
'''
