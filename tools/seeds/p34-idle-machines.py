PROPERTY = "P34"
NEEDS = "a resource that spends none of its time in a state the others spend time in"
BREAKS = "states of a resource without any time are left out of the machine state KPIs"
EDITS = [("prodsys/util/post_processing.py", '        df = self.df_aggregated_resource_states.copy()\n        KPIs = []\n', '        df = self.df_aggregated_resource_states.copy()\n        df = df.loc[df["percentage"] > 0]\n        KPIs = []\n')]
DEMO = '''
from prodsys.util.post_processing import PostProcessor
q = PostProcessor(df_raw=pd.DataFrame())
q.__dict__["df_aggregated_resource_states"] = pd.DataFrame({"Resource": ["A", "A", "A", "B", "B"], "Time_type": ["PR", "SB", "CR", "PR", "ST"], "time_increment": [10.0, 0.0, 0.0, 0.0, 10.0], "resource_time": [10.0] * 5, "percentage": [100.0, 0.0, 0.0, 0.0, 100.0]})
got = {(k.resource, k.name.value): k.value for k in q.machine_state_KPIS}
want = {("A", "productive_time"): 100.0, ("A", "standby_time"): 0.0, ("A", "charging_time"): 0.0, ("B", "productive_time"): 0.0, ("B", "setup_time"): 100.0}
check(got == want, f"machine states {got} instead of {want}")
'''
