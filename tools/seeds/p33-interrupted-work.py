PROPERTY = "P33"
NEEDS = "an observation while a breakdown interrupts the work of a machine"
BREAKS = "work that is interrupted by a breakdown is no longer among the observed running work"
EDITS = [("prodsys/simulation/observer.py", "        if production_state.process:\n", "        if production_state.process and not production_state.interrupted:\n")]
DEMO = '''
from prodsys import runner
from prodsys.simulation import observer
p = psx.ProductionProcess(const(8.0, "m"), ID="P"); t = psx.TransportProcess(const(0.1, "t"), ID="T")
b = psx.BreakDownState(const(5.0, "b"), const(3.0, "rep"), ID="B")
m = psx.ProductionResource([p], [5, 0], 1, states=[b], ID="M"); v = psx.TransportResource([t], [0, 0], 1, ID="V")
x = psx.Product([p], t, ID="x")
a = psx.ProductionSystem([m, v], [psx.Source(x, const(1.0, "arr"), [0, 0], ID="S")], [psx.Sink(x, [9, 0], ID="K")]).to_model()
r = runner.Runner(adapter=a); r.initialize_simulation()
res = [i for i in r.resource_factory.resources if i.data.ID == "M"][0]
o = observer.ResourceObserver(resource_factory=r.resource_factory, product_factory=r.product_factory, resource=res)
down = 0
for T in (2.5, 4.5, 5.5, 6.5, 7.5, 8.5, 9.5):
    r.env.run(T)
    got = o.observe_processes(); avail = o.observe_resource_available().available
    down += not avail
    check([g.product for g in got] == ["x_0"], f"at {T} the work on x_0 is in progress, observed: {got}")
check(down > 1, "no breakdown was observed")
'''
