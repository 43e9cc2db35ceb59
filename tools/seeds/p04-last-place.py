PROPERTY = "P04"
NEEDS = "a transport resource with two places and two products that ask for it at the same time"
BREAKS = "after starting work the loop does not wake itself for the last free place, so a waiting transport is not started although there is room for it"
EDITS = [("prodsys/simulation/control.py", """            self.control_policy(self.requests)
            running_process = self.env.process(self.start_process())
            self.running_processes.append(running_process)
            if not self.resource.full:
""", """            self.control_policy(self.requests)
            running_process = self.env.process(self.start_process())
            self.running_processes.append(running_process)
            if self.resource.capacity - len(self.running_processes) > 1:
""")]
DEMO = '''
p = psx.ProductionProcess(const(5.0, "m"), ID="P"); t = psx.TransportProcess(const(4.0, "t"), ID="T")
m = psx.ProductionResource([p], [5, 0], 4, ID="M")
v = psx.TransportResource([t], [0, 0], 2, ID="V")
ps = [psx.Product([p], t, ID=i) for i in ("a", "b")]
srcs = [psx.Source(i, psx.ScheduledTimeModel([1, 100], absolute=True, cyclic=False, ID="arr" + i.ID), [0, 0], ID="S" + i.ID) for i in ps]
s = psx.ProductionSystem([m, v], srcs, [psx.Sink(i, [9, 0], ID="K" + i.ID) for i in ps])
s.run(60)
df = s.runner.event_logger.get_data_as_dataframe(); d = df[(df["Resource"] == "V") & (df["State Type"] == "Transport") & (df["Activity"] == "start state")]
first = sorted(d["Time"])[:2]
check(len(first) == 2 and abs(first[0] - first[1]) < 1e-9, f"two transports asked for at the same time by a vehicle with two places started at {first}")
'''
