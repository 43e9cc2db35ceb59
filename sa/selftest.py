"""setup: sanity of the engine (parses the repository, answers queries on a small known program)."""
import os, sys, tempfile, textwrap

FIX = '''
class Box:
    def __init__(self):
        self.n = 0
    def inc(self, k):
        if k > 0:
            self.n += 1
        return self.n
    def loop(self, items):
        out = []
        for i in items:
            if i.ok:
                out.append(i.value)
        return out
    def gen(self):
        try:
            yield self.wait()
        except ValueError:
            self.n = 0
        self.done()
    def wait(self): pass
    def done(self): pass
'''


def main():
    from .index import Project
    from .flow import Graph
    from .lib import attr_deltas, event_counts, returns
    with tempfile.TemporaryDirectory() as d:
        os.makedirs(d + "/prodsys"); open(d + "/prodsys/__init__.py", "w").close()
        open(d + "/prodsys/fix.py", "w").write(textwrap.dedent(FIX))
        p = Project(d)
        g = Graph(p, p.func("prodsys.fix.Box.inc"))
        assert attr_deltas(g, "n")[g.exit.id] == frozenset([0, 1])
        st = g.stores("n")[0]
        assert g.guard_set(st) == {"(0 < k)"}, g.guard_set(st)
        g = Graph(p, p.func("prodsys.fix.Box.loop"))
        assert "elem(items).value" in g.r(returns(g)[0].value, returns(g)[0]), g.r(returns(g)[0].value, returns(g)[0])
        g = Graph(p, p.func("prodsys.fix.Box.gen"), stop=("wait", "done"))
        done = g.calls("done")
        assert event_counts(g, lambda n: n in done)[g.exit.id] == frozenset([1])
        assert any(n.kind == "handler" for n in g.nodes)
    p = Project()
    nf = sum(1 for _ in p.all_funcs("")); assert nf > 500, nf
    print(f"engine ok, {nf} functions indexed")
    return 0


if __name__ == "__main__": sys.exit(main())
