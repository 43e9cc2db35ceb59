PROPERTY = "P20"
NEEDS = "a lognormal time model whose standard deviation is neither zero nor close to 1.31 times its mean; single durations look plausible"
BREAKS = "lognormal durations are drawn with the variance of the logarithm as its standard deviation: their spread is not the configured one"
EDITS = [("prodsys/util/statistical_functions.py", "sigma = np.sqrt(np.log(1 + (time_model_data.scale**2 / time_model_data.location**2)))", "sigma = np.log(1 + (time_model_data.scale**2 / time_model_data.location**2))")]
DEMO = '''
import numpy as np
from prodsys.models.time_model_data import FunctionTimeModelData
from prodsys.simulation.time_model import FunctionTimeModel
np.random.seed(1)
d = FunctionTimeModelData(ID="t", description="", distribution_function="lognormal", location=10.0, scale=2.0, batch_size=200000)
t = FunctionTimeModel(time_model_data=d)
v = [t.get_next_time() for _ in range(200000)]
check(abs(np.mean(v) - 10) < 0.1, f"mean {np.mean(v)}")
check(abs(np.std(v) - 2) < 0.1, f"standard deviation {np.std(v)} instead of 2")
'''
