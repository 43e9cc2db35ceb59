PROPERTY = "P32"
NEEDS = "a resource with two batteries of which only the second one is exhausted"
BREAKS = "charging stops at the first battery that is not exhausted, so the second one is never charged and the resource goes on working"
EDITS = [("prodsys/simulation/resources.py", """            if not input_state.requires_charging():
                continue
            input_state.prepare_for_run()
""", """            if not input_state.requires_charging():
                return
            input_state.prepare_for_run()
""")]
DEMO = '''
p = psx.ProductionProcess(const(5.0, "m"), ID="P"); t = psx.TransportProcess(const(0.05, "t"), ID="T")
big = psx.ChargingState(time_model=const(7.0, "cb"), battery_time_model=const(1000.0, "bb"), ID="BIG")
small = psx.ChargingState(time_model=const(3.0, "cs"), battery_time_model=const(30.0, "bs"), ID="SMALL")
m = psx.ProductionResource([p], [5, 0], 1, ID="M")
v = psx.TransportResource([psx.TransportProcess(const(2.0, "t2"), ID="T2")], [0, 0], 1, states=[big, small], ID="V")
x = psx.Product([p], v.processes[0], ID="x")
s = psx.ProductionSystem([m, v], [psx.Source(x, const(8.0, "arr"), [0, 0], ID="S")], [psx.Sink(x, [9, 0], ID="K")])
s.run(300)
df = s.runner.event_logger.get_data_as_dataframe(); d = df[(df["Resource"] == "V") & (df["State Type"] == "Charging") & (df["Activity"] == "start state")]
n = len(d[d["State"] == "SMALL"]); w = df[(df["Resource"] == "V") & (df["State Type"] == "Transport") & (df["Activity"] == "end state")]
check(len(w) > 30, "no work")
check(n >= 2, f"the small battery was charged {n} times in {len(w)} transports of 2 each")
'''
