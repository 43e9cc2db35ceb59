PROPERTY = "P05"
NEEDS = "a machine failure that interrupts running production work, with a repair that takes a while"
BREAKS = "The time worked is deducted only after the repair, so the repair time counts as worked time and interrupted work ends too early."
EDITS = [("prodsys/simulation/state.py", '''                        self.env.now, StateTypeEnum.production
                    )
                    self.update_done_in()
                    debug_logging(self, f"interrupted process that ends in {self.done_in}")
                    yield from self.wait_until_available()
''', '''                        self.env.now, StateTypeEnum.production
                    )
                    debug_logging(self, f"interrupted process that ends in {self.done_in}")
                    yield from self.wait_until_available()
                    self.update_done_in()
''')]
DEMO = '''
p = psx.ProductionProcess(const(20, "tp"), ID="P")
t = psx.TransportProcess(const(1, "tt"), ID="T")
b = psx.BreakDownState(const(25, "f"), const(6, "r"), ID="B")
r = psx.ProductionResource([p], [5, 0], 1, states=[b], ID="R")
tr = psx.TransportResource([t], [0, 0], 1, ID="TR")
prod = psx.Product([p], t, ID="prod")
s = psx.ProductionSystem([r, tr], [psx.Source(prod, const(10, "a"), [0, 0], ID="src")], [psx.Sink(prod, [9, 0], ID="snk")])
s.run(49)
df = s.runner.event_logger.get_data_as_dataframe()
x = df[(df["Resource"] == "R") & (df["State"] == "P")]
start = x[x["Activity"] == "start state"]["Time"].min()
end = x[x["Activity"] == "end state"]["Time"].min()
check(start < 25 and end == start + 26, f"work of 20 with 6 of repair lasted {end - start}\\n" + x.to_string())
'''
