PROPERTY = "P25"
NEEDS = "a log with a warm-up phase that is to be cut off, and a request for the mean WIP"
BREAKS = "the rows of the warm-up phase are removed before the total WIP is added, so the total still contains them"
EDITS = [("prodsys/util/post_processing.py", '''        df = pd.concat([df, df_total_wip])

        if self.warm_up_cutoff:
            df = df.loc[df["Time"] >= self.warm_up_cutoff_time]
''', '''        if self.warm_up_cutoff:
            df = df.loc[df["Time"] >= self.warm_up_cutoff_time]
        df = pd.concat([df, df_total_wip])
''')]
DEMO = '''
p = psx.ProductionProcess(const(3, "tm"), ID="P"); t = psx.TransportProcess(psx.DistanceTimeModel(speed=100, reaction_time=0.1, ID="dt"), ID="T")
r = psx.ProductionResource([p], [10, 0], 1, ID="R"); tr = psx.TransportResource([t], [0, 0], 1, ID="TR")
a = psx.Product([p], t, ID="A"); so = psx.Source(a, const(2, "at"), [0, 10], ID="S"); si = psx.Sink(a, [20, 0], ID="K")
from prodsys.util.runner import Runner
from prodsys.util.post_processing import PostProcessor
R = Runner(adapter=psx.ProductionSystem([r, tr], [so], [si]).to_model()); R.initialize_simulation(); R.run(400)
log = R.event_logger.get_data_as_dataframe()
q = PostProcessor(df_raw=log.copy(), warm_up_cutoff=True, cut_off_method="static_ratio")
end = q.warm_up_cutoff_time
check(end > 0, "no warm-up phase")
w = q.df_WIP; want = w.loc[w["Time"] >= end]["WIP"].mean(); got = q.df_aggregated_WIP["Total"]
check(abs(got - want) < 1e-9, "mean total WIP %r, without the warm-up phase %r" % (got, want))
'''
