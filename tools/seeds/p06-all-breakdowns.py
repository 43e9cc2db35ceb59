PROPERTY = "P06"
NEEDS = "two overlapping failures of one machine"
BREAKS = "A machine becomes available again when the first of two overlapping repairs ends."
EDITS = [("prodsys/simulation/resources.py", "if any([state_instance.active_breakdown for state_instance in self.states if isinstance(state_instance, state.BreakDownState)]):",
 "if all([state_instance.active_breakdown for state_instance in self.states if isinstance(state_instance, state.BreakDownState)]):")]
DEMO = '''
p = psx.ProductionProcess(const(4, "tp"), ID="P")
t = psx.TransportProcess(const(1, "tt"), ID="T")
b1 = psx.BreakDownState(const(50, "f1"), const(30, "r1"), ID="B1")
b2 = psx.BreakDownState(const(60, "f2"), const(40, "r2"), ID="B2")
r = psx.ProductionResource([p], [5, 0], 1, states=[b1, b2], ID="R")
tr = psx.TransportResource([t], [0, 0], 1, ID="TR")
prod = psx.Product([p], t, ID="prod")
s = psx.ProductionSystem([r, tr], [psx.Source(prod, const(10, "a"), [0, 0], ID="src")], [psx.Sink(prod, [9, 0], ID="snk")])
s.run(99)
df = s.runner.event_logger.get_data_as_dataframe()
# B1 fails at 50 until 80, B2 at 60 until 100: nothing may run between 60 and 100
x = df[(df["Resource"] == "R") & (df["State"] == "P") & (df["Time"] > 60) & (df["Time"] < 99) & df["Activity"].isin(["start state", "end state", "end interrupt"])]
check(len(x) == 0, "work between two overlapping failures:\\n" + str(x))
'''
