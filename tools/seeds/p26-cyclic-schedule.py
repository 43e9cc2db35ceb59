PROPERTY = "P26"
NEEDS = "a schedule that is declared as cyclic and a simulation that outlives it"
BREAKS = "the cyclic setting of a schedule no longer reaches the configuration, so a schedule that should repeat runs only once"
EDITS = [("prodsys/express/time_model.py", """            cyclic=self.cyclic,
""", "")]
DEMO = '''
tm = psx.ScheduledTimeModel([1.0, 2.0], absolute=False, cyclic=True, ID="once")
m = tm.to_model()
check(m.cyclic is True, "cyclic arrived as %s" % m.cyclic)
check(m.absolute is False, "absolute arrived as %s" % m.absolute)
'''
