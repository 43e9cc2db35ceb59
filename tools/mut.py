"""Two-sided test of the checkers on scratch copies: tools/mutants/Pxx.py lists BUGS (must be reported) and SAME
(behaviour-preserving edits, must stay quiet) as (name, file, [(old, new), ...]).   usage: tools/mut.py P02 [P03 ...] [-k substr]"""
import importlib.util, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MUT_REPO", "/repo")


def one(pid, kind, m, verbose):
    name, file, subs = m[0], m[1], m[2]
    d = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
    try:
        for x in ("prodsys", "app", "prodsys_api"):
            if os.path.isdir(f"{REPO}/{x}"):
                shutil.copytree(f"{REPO}/{x}", f"{d}/{x}", ignore=shutil.ignore_patterns("__pycache__", "*.html", "*.png"))
        edits = [(file, a, b) for a, b in subs] if isinstance(subs, list) else [(file, subs, m[3])]
        for f, a, b in edits:
            if isinstance(a, tuple): f, a = a
            f, _, scope = f.partition("::")
            p = f"{d}/{f}"; src = open(p, encoding="utf-8").read()
            lo, hi = 0, len(src)
            for i, part in enumerate(scope.split(".") if scope else []):
                mm = re.compile(r"^( *)(?:class|def|async def) %s\b" % re.escape(part), re.M).search(src, lo, hi)
                if not mm: return (pid, kind, name, "NOT-APPLICABLE", f"no scope {scope}")
                lo = mm.start()
                e = re.compile(r"^ {0,%d}(?:class |def |async def |@|[A-Za-z])" % len(mm.group(1)), re.M).search(src, mm.end(), hi)
                if e: hi = e.start()
            s = src[lo:hi]
            star = a.startswith('*') and a not in s
            if star: a = a[1:]
            if s.count(a) < 1: return (pid, kind, name, "NOT-APPLICABLE", f"pattern occurs {s.count(a)} times: {a[:60]!r}")
            if s.count(a) > 1 and not (star or name.startswith("*") or scope): return (pid, kind, name, "NOT-APPLICABLE", f"pattern occurs {s.count(a)} times: {a[:60]!r}")
            s = s.replace(a, b) if star or name.startswith("*") else s.replace(a, b, 1)
            s = src[:lo] + s + src[hi:]
            open(p, "w", encoding="utf-8").write(s)
            try: compile(s, p, "exec")
            except SyntaxError as e: return (pid, kind, name, "SYNTAX", str(e))
        env = dict(os.environ, SA_REPO=d, SA_EVIDENCE=d + "/ev", VERIF_SEED="1")
        r = subprocess.run([sys.executable, "-m", "sa.run", os.environ.get("MUT_AS", pid)], cwd=HERE, env=env, capture_output=True, text=True)
        out = r.stdout + r.stderr
        first = next((l for l in out.splitlines() if "] " in l and not l.startswith("KNOWN") and ": [" in l), out.strip().splitlines()[-1] if out.strip() else "")
        want = 1 if kind == "bug" else 0
        st = "ok" if r.returncode == want else ("MISSED" if kind == "bug" and r.returncode == 0 else "FALSE-ALARM" if kind == "same" and r.returncode == 1 else f"ERROR rc={r.returncode}")
        return (pid, kind, name, st, (out if verbose and st != "ok" else first)[:3000])
    finally: shutil.rmtree(d, ignore_errors=True)


def main():
    args = sys.argv[1:]; k = None; v = "-v" in args
    args = [a for a in args if a != "-v"]
    if "-k" in args: i = args.index("-k"); k = args[i + 1]; del args[i:i + 2]
    ids = args or sorted(f[:-3] for f in os.listdir(f"{HERE}/tools/mutants") if f.startswith("P") and f.endswith(".py"))
    jobs = []
    for pid in ids:
        sp = importlib.util.spec_from_file_location(pid, f"{HERE}/tools/mutants/{pid}.py"); mod = importlib.util.module_from_spec(sp); sp.loader.exec_module(mod)
        for m in mod.BUGS: jobs.append((pid, "bug", m))
        for m in getattr(mod, "SAME", []): jobs.append((pid, "same", m))
    if k: jobs = [j for j in jobs if k in j[2][0]]
    bad = 0
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(lambda j: one(*j, v), jobs):
            bad += r[3] != "ok"
            print(f"{r[0]} {r[1]:4} {r[3]:12} {r[2]}  | {r[4]}")
    print(f"{len(jobs)} edits, {bad} unexpected")
    return 1 if bad else 0


sys.exit(main())
