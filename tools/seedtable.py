"""Rewrites the table of planted bugs in DESIGN.md from tools/seeds/*.py."""
import pathlib, re, runpy
here = pathlib.Path(__file__).resolve().parent
rows = ["| id | property | what it breaks |", "|---|---|---|"]
for f in sorted((here / "seeds").glob("*.py")):
    if not (here.parent / "seeded" / f.stem).is_dir():
        continue
    d = runpy.run_path(str(f))
    rows.append(f"| {f.stem} | {d['PROPERTY']} | {' '.join(d['BREAKS'].split())} |")
p = here.parent / "DESIGN.md"
t = p.read_text()
t = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda m: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", t, flags=re.S)
p.write_text(t)
