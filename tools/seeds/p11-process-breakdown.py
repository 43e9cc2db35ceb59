PROPERTY = "P11"
NEEDS = "two configurations that differ only in the process a process breakdown state refers to, where both processes are used elsewhere too"
BREAKS = "the digest of a process breakdown state considers only a process that happens to share the time model, not the process that breaks down, so breakdowns of different processes have the same digest"
EDITS = [("prodsys/models/state_data.py", """            ("".join([base_class_hash, process_hash, repair_time_model_hash])).encode(
""", """            ("".join([base_class_hash, repair_time_model_hash])).encode(
""")]
DEMO = """
def system(which, prefix="", order=1):
    p = psx.ProductionProcess(const(1, prefix + "ta"), ID=prefix + "p"); q = psx.ProductionProcess(const(2, prefix + "tb"), ID=prefix + "q")
    t = psx.TransportProcess(const(1, prefix + "tt"), ID=prefix + "tp")
    b = psx.ProcessBreakdownState(const(50, prefix + "tbf"), const(7, prefix + "rep"), p if which == "p" else q, ID=prefix + "b")
    r = psx.ProductionResource([p, q][::order], [5, 0], 1, states=[b], ID=prefix + "m"); a = psx.TransportResource([t], [0, 0], 1, ID=prefix + "agv")
    prod = psx.Product([p, q], t, ID=prefix + "prod")
    s = psx.ProductionSystem([r, a][::order], [psx.Source(prod, const(5, prefix + "ia"), [1, 1], ID=prefix + "src")], [psx.Sink(prod, [2, 2], ID=prefix + "snk")])
    return s.to_model()
check(system("p").hash() == system("p").hash(), "the digest is a function of the configuration")
check(system("p").hash() == system("p", prefix="X").hash(), "identifiers do not enter the digest")
check(system("p").hash() == system("p", order=-1).hash(), "the order of elements does not enter the digest")
check(system("p").hash() != system("q").hash(), "a breakdown of another process changes the digest")
"""
