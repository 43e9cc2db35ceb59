"""Builds seeded/<id> from tools/seeds/<id>.py (PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO) and confirms it:
the demo passes without and fails with the change, the stable tests pass with it; prints which checks catch it."""
import json, os, runpy, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRELUDE = open(os.path.join(HERE, "tools", "seed_common.py")).read()
def sh(cmd, cwd, env=None, t=900):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True, timeout=t)
    return p.returncode, p.stdout + p.stderr
def main(sid, tests=True):
    spec = runpy.run_path(os.path.join(HERE, "tools", "seeds", sid + ".py"))
    d = os.path.join(HERE, "seeded", sid); os.makedirs(d, exist_ok=True)
    w = f"/tmp/seed_{sid}"; shutil.rmtree(w, ignore_errors=True)
    sh(f"git worktree prune; git clone -q /repo {w}", "/")
    orig = {}
    for f, old, new in spec["EDITS"]:
        s = open(os.path.join(w, f)).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(os.path.join(w, f), "w").write(s.replace(old, new))
    _, diff = sh("git diff", w)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    for f, old, new in spec["EDITS"]:
        _, base = sh(f"git show 323af36:{f}", "/repo")
        import difflib
        rem = [l[2:] for l in difflib.ndiff(old.splitlines(), new.splitlines()) if l.startswith("- ") and l.strip("- ")]
        if rem and not any(l in base.splitlines() for l in rem): print("  WARNING: only lines of own fixes are changed:", rem[:2])
    open(os.path.join(d, "demo.py"), "w").write(PRELUDE + "\n" + spec["DEMO"].lstrip())
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nD=$(cd "$(dirname "$0")" && pwd)\nW=$(mktemp -d)\nR=$PWD\ncd "$W"\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$R" timeout 250 /opt/venv/bin/python "$D/demo.py"\nrc=$?\ncd /\nrm -rf "$W"\nexit $rc\n')
    json.dump({"property": spec["PROPERTY"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    a, oa = sh(f"bash {d}/demo.sh", "/repo"); b, ob = sh(f"bash {d}/demo.sh", w)
    if a: print("  clean demo output:", oa[-1500:])
    print("  patched demo:", ob.strip().splitlines()[-3:] )
    if tests:
        t, ot = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider -rf tests 2>&1 | grep -E '^FAILED|passed|failed'", w)
        stable = {x.split("::")[0].split(".")[-1] + "::" + x.split("::")[1] for x in json.load(open("/opt/vp/BASELINE.json"))["stable"]}
        bad = [l for l in ot.splitlines() if l.startswith("FAILED") and any(l.split()[1].split("/")[-1].replace(".py", "") == s for s in stable)]
        print("  stable tests failing:", bad, ot.strip().splitlines()[-1:])
    ck = spec["PROPERTY"]
    c, oc = sh(f"python3 -m sa.run {ck if '-a' not in sys.argv else 'ALL'}", HERE, {"SA_REPO": w, "SA_EVIDENCE": f"/tmp/seed_ev"})
    viol = [l for l in oc.splitlines() if "VIOLATION" in l or "violat" in l.lower()][:4]
    print(sid, ck, "demo clean", a, "patched", b, "check exit", c)
    for v in viol: print("   ", v[:260])
    shutil.rmtree(w, ignore_errors=True)
for s in [x for x in sys.argv[1:] if not x.startswith("-")]: main(s, "-n" not in sys.argv)
