PROPERTY = "P07"
NEEDS = "a transport that is interrupted by a failure of the transport resource"
BREAKS = "The log entry for the resumption of an interrupted transport carries an expected end that lies too early."
EDITS = [("prodsys/simulation/state.py", '''                        self.env.now, self.env.now + self.done_in, StateTypeEnum.transport
''', '''                        self.env.now, self.start + self.done_in, StateTypeEnum.transport
''')]
DEMO = '''
p = psx.ProductionProcess(const(2, "tp"), ID="P")
t = psx.TransportProcess(const(9, "tt"), ID="T")
b = psx.BreakDownState(const(25, "f2"), const(15, "r2"), ID="B")
r = psx.ProductionResource([p], [5, 0], 1, ID="R")
tr = psx.TransportResource([t], [0, 0], 1, states=[b], ID="TR")
prod = psx.Product([p], t, ID="prod")
s = psx.ProductionSystem([r, tr], [psx.Source(prod, const(10, "a"), [0, 0], ID="src")], [psx.Sink(prod, [9, 0], ID="snk")])
s.run(200)
log = [e for e in s.runner.event_logger.event_data if e["Resource"] == "TR" and e["State"] == "T"]
n = 0
for a, b in zip(log, log[1:]):
    if a["Activity"] == "end interrupt":
        n += 1
        check(a["Expected End Time"] > a["Time"] and a["Expected End Time"] == b["Expected End Time"], str(a) + str(b))
check(n > 0, "the demonstration needs an interrupted transport")
'''
