PROPERTY = "P24"
NEEDS = "the dynamic WIP is requested before the mean WIP of the same simulation"
BREAKS = "listing the WIP over time relabels the product types in the table that the mean WIP is computed from"
EDITS = [("prodsys/util/post_processing.py", '''        df = self.df_WIP.copy()
        df["Product_type"] = "Total"
''', '''        df = self.df_WIP
        df["Product_type"] = "Total"
''')]
DEMO = '''
p = psx.ProductionProcess(const(3, "tm"), ID="P"); t = psx.TransportProcess(psx.DistanceTimeModel(speed=100, reaction_time=0.1, ID="dt"), ID="T")
r = psx.ProductionResource([p], [10, 0], 1, ID="R"); tr = psx.TransportResource([t], [0, 0], 1, ID="TR")
a = psx.Product([p], t, ID="A"); so = psx.Source(a, const(4, "at"), [0, 10], ID="S"); si = psx.Sink(a, [20, 0], ID="K")
from prodsys.util.runner import Runner
R = Runner(adapter=psx.ProductionSystem([r, tr], [so], [si]).to_model()); R.initialize_simulation(); R.run(100)
from prodsys.util.post_processing import PostProcessor
log = R.event_logger.get_data_as_dataframe()
q = PostProcessor(df_raw=log.copy())
types = sorted(map(str, q.df_WIP["Product_type"].dropna().unique()))
try: q.dynamic_WIP_KPIs
except KeyError: pass
check(sorted(map(str, q.df_WIP["Product_type"].dropna().unique())) == types, "the WIP table was relabelled by listing the dynamic WIP")
'''
