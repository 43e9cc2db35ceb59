PROPERTY = "P14"
NEEDS = "a precedence graph in which a process has two predecessors that become possible at the same time"
BREAKS = "a process of a precedence graph is offered as soon as one of its predecessors is done instead of all of them"
EDITS = [("prodsys/simulation/proces_models.py", "all(n.marking for n in node.predecessors)", "any(n.marking for n in node.predecessors)")]
DEMO = '''
ps = {i: psx.ProductionProcess(const(1.0, "m" + i), ID="P" + i) for i in "ABC"}
t = psx.TransportProcess(const(0.3, "a"), ID="T")
rs = [psx.ProductionResource([ps[i]], [10 + 5 * k, 0], 1, ID="R" + i) for k, i in enumerate("ABC")]
v = psx.TransportResource([t], [0, 0], 1, ID="V")
a = psx.Product([ps["A"], ps["B"], ps["C"]], t, ID="a")
s = psx.ProductionSystem(rs + [v], [psx.Source(a, const(5, "arr"), [0, 0], ID="S")], [psx.Sink(a, [40, 0], ID="K")])
m = s.to_model()
m.product_data[0].processes = {"PA": ["PC"], "PB": ["PC"], "PC": []}
bad = 0; n = 0
for seed in range(4):
    m.seed = seed
    runner = prodsys.runner.Runner(adapter=m)
    runner.initialize_simulation()
    runner.run(120)
    df = runner.event_logger.get_data_as_dataframe()
    x = df[(df["State Type"] == "Production") & (df["Activity"] == "start state")]
    for prod, g in x.groupby("Product"):
        order = list(g["Resource"])
        n += 1
        if "RC" in order and order.index("RC") < 2: bad += 1
check(n > 5, "nothing was produced")
check(bad == 0, f"{bad} products were processed by RC before both predecessors were done")
'''
