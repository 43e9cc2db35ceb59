"""python3 -m sa.run P02 [--tier quick|thorough]   -- decide one property (or ALL) for $SA_REPO (default /repo)"""
import argparse, importlib, os, sys


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("ids", nargs="+")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    sys.setrecursionlimit(20000)
    from . import report
    rc = 0
    ids = a.ids
    if ids == ["ALL"]:
        d = os.path.join(os.path.dirname(__file__), "checks")
        ids = sorted(f[:-3].upper() for f in os.listdir(d) if f.startswith("p") and f.endswith(".py"))
    for pid in ids:
        m = importlib.import_module(f"sa.checks.{pid.lower()}")
        rc = max(rc, report.run(pid, m.check, a.tier, getattr(m, "LEVEL", "other")))
    return rc


if __name__ == "__main__":
    sys.exit(main())
