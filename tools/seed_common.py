import sys, logging
import prodsys
import prodsys.express as psx
import pandas as pd
logging.disable(logging.CRITICAL)
try:
    prodsys.set_logging("CRITICAL")
except Exception:
    pass


def const(x, name):
    return psx.FunctionTimeModel("constant", x, 0, name)


def check(cond, msg):
    if not cond:
        print("FAIL:", msg)
        sys.exit(1)
