"""C16: rendering returns the engine's full output or raises, whatever happens to the child process"""
from .common import pick_abort
from ..iofault import SimOS, render
from ..kernel import Injected, Sched, SimKeyboardInterrupt, SimMemoryError

RULE = ("One run = 2 to 8 renderings (raw, svg, html, notebook display) of texts and graphs by sequential or "
        "concurrent simulated callers; the layout engine is a simulated child process with bounded pipes that may "
        "fail to start, exit with an error, be killed, die before reading, print garbage, flood its outputs, or have "
        "its caller interrupted while it runs; every outcome is compared with what that child was told to do.")
REAL = ["run_graphviz", "dot_to_svg", "dotstr_to_html", "graph_to_html", "ipynb_display_graph", "html", "to_dot",
        "DirectedGraph", "UndirectedGraph", "Automaton"]
STUB = ["the layout engine (simulated child process and pipes)", "IPython.display"]
RUNS = {"quick": 40000, "thorough": 600000}
TEXTS = ["digraph G {0->1;}", "graph G {\n  0 -- 1;\n}", "", "digraph G {0 [label=\"\u03b5 \u2192 \u00e9\"];}", "digraph {\r\n0;\r1}",
         "not a graph \x00\x07", "digraph G { " + "0 -> 1; " * 9000 + "}", "\ufeffdigraph G {}"]
FORMATS = ["svg", "svg", "png", "dot", "pdf", "plain", "json"]
ENGINES = [None, "dot", "neato", "fdp", "circo"]


class Case:
    """One rendering call: how to make it and what it must do"""

    def __init__(self, c, os_, task=None):
        lib = c.lib
        self.c, self.os, self.task = c, os_, task
        self.what = c.pick(["run_graphviz", "run_graphviz", "dot_to_svg", "dotstr_to_html", "graph_to_html", "ipynb"])
        gz = lib.graphviz
        self.engine = c.pick(ENGINES)
        self.format = c.pick(FORMATS) if self.what == "run_graphviz" else "svg"
        if self.what == "dot_to_svg" and c.flag(0.2):
            self.format = c.pick(["dot", "plain", "json"])
        self.text = c.pick(TEXTS)
        self.plan = os_.plan_process(c.flag(0.55), task)
        self.shown = None
        kw = {}
        if self.what in ("graph_to_html", "ipynb"):
            g = c.pick([lib.graph.DirectedGraph, lib.graph.UndirectedGraph])(c.choose(5))
            n = g.num_vertices()
            for _ in range(c.choose(6)):
                if n:
                    g.add_edge(c.choose(n), c.choose(n))
            if c.flag(0.5):
                kw["dpv"] = {"label": lib.property_map.make_func_property_map(lambda u: f"\u03b5{u}")}
            if c.flag(0.3):
                kw["extra_style"] = "splines=true"
            self.text = g.to_dot(**kw)
        elif c.flag(0.03):
            self.text = "digraph {\udc80}"
        t, e, f = self.text, self.engine, self.format
        pos = c.flag(0.3)
        if self.what == "run_graphviz":
            self.fn = (lambda: gz.run_graphviz(t, e, f)) if pos else (lambda: gz.run_graphviz(t, engine=e, format=f))
            if not pos and e is None and f == "svg":
                self.fn = lambda: gz.run_graphviz(t)
        elif self.what == "dot_to_svg":
            self.fn = (lambda: gz.dot_to_svg(t, e, f)) if pos else (lambda: gz.dot_to_svg(t, engine=e, format=f))
            if f == "svg" and c.flag(0.5):
                self.fn = (lambda: gz.dot_to_svg(t, e)) if pos else (lambda: gz.dot_to_svg(t, engine=e))
        elif self.what == "dotstr_to_html":
            self.fn = lambda: gz.dotstr_to_html(t, e)
        elif self.what == "graph_to_html":
            self.fn = lambda: gz.graph_to_html(g, e, **kw)
        else:
            bg = c.pick([None, "white", "#ff0000"])
            self.engine = e or "dot"
            self.shown = ("<div style='background-color:%s'>" % bg, "</div>") if bg else ("", "")
            self.fn = lambda: lib.ipynb.ipynb_display_graph(g, background_color=bg, engine=self.engine, **kw)
        # as the child will see them
        self.want_engine = self.engine or "dot"
        try:
            self.data = self.text.encode("utf-8")
        except UnicodeEncodeError:
            self.data = None

    def expected(self):
        """None when the call must raise"""
        p = self.plan
        if self.data is None or p.spawn_error is not None or p.status != 0 or p.interrupt_was:
            return None
        out = render(self.data, self.format, self.want_engine, p.pad)
        if p.garble:
            out = out[: len(out) // 2] + b"\xff\xfe\xe9" + out[len(out) // 2:]
        if self.format != "svg" and self.what != "dot_to_svg":
            return out
        try:
            out = out.decode("utf-8")
        except UnicodeDecodeError:
            return None
        if self.what == "dot_to_svg" and self.format == "svg":
            return out[out.index("<svg"):]
        return out

    def run(self):
        c = self.c
        p = self.plan
        p.interrupt_was = p.interrupt is not None
        n_html = len(self.os.html)
        exc = None
        try:
            st, x = "ok", self.fn()
        except (SimKeyboardInterrupt, SimMemoryError) as e:
            st, x = "cut", e
        except Exception as e:
            if type(e).__name__ in ("Violation", "HarnessError"):
                raise
            st, x = "exc", e
        name = f"{self.what}(format={self.format}, engine={self.engine}), child: {p.kind or 'healthy'}"
        want = self.expected()
        calls = [k for k in self.os.calls if k["task"] == self.task and k.get("case") in (None, self)]
        calls = [k for k in calls if k.get("case") is None]
        for k in calls:
            k["case"] = self
        c.ev(self.what, self.format, self.engine, len(self.text), p.kind, st, type(x).__name__)
        if want is None:
            c.check(st != "ok", "unreported-failure", f"{name}: no error is raised, got {repr(x)[:80]}")
            if p.status != 0 and self.data is not None:
                c.check(not isinstance(x, (UnicodeError, AttributeError, TypeError, NameError)), "wrong-error",
                        f"{name}: the failure of the engine surfaced as {x!r}")
            if p.spawn_error is not None and self.data is not None:
                c.check(isinstance(x, (OSError, RuntimeError)), "wrong-error", f"{name}: surfaced as {x!r}")
        else:
            if st != "ok":
                c.check(False, "lost-output", f"{name}: raised {x!r} although the engine succeeded")
            if self.shown is None:
                c.check(type(x) is type(want) and x == want, "output",
                        f"{name}: got {repr(x)[:120]}, the engine printed {repr(want)[:120]}")
        if self.data is not None and (want is not None or calls):
            c.eq(len(calls), 1, "engine-runs", name)
            k = calls[0]
            if not p.dies_early and not p.interrupt_was:
                c.check(k["stdin"] == self.data, "input",
                        f"{name}: the engine was given {k['stdin'][:100]!r} instead of {self.data[:100]!r}")
            c.eq(k["format"], self.format, "format", name)
            c.eq(k["engine"], self.want_engine, "engine", name)
        if self.task is None:
            got = self.os.html[n_html:]
            exp = [self.shown[0] + want + self.shown[1]] if self.shown is not None and want is not None else []
            c.check(got == exp, "display", f"{name}: displayed {repr(got)[:150]} instead of {repr(exp)[:150]}")
            for ch in self.os.children:
                c.check(ch is None or ch.reaped, "leaked-process", f"{name}: the engine is left behind")


def renderings(c):
    os_ = SimOS(c)
    os_.install()
    for _ in range(c.int(2, 6)):
        op = c.weighted([(8, "one"), (3, "threads"), (2, "abort"), (1, "display-fails")])
        if op == "one":
            Case(c, os_).run()
        elif op == "threads":
            s = Sched(c, c.pick([4, 12, 40]), 60)
            cases = [Case(c, os_, i) for i in range(c.int(2, 3))]
            for x in cases:
                s.spawn(x.run)
            n_html = len(os_.html)
            for t in s.run():
                if t.exc is not None:
                    raise t.exc
            for k in os_.calls:
                k.setdefault("case", 1)
            exp = sorted(x.shown[0] + x.expected() + x.shown[1] for x in cases
                         if x.shown is not None and x.expected() is not None)
            c.check(sorted(os_.html[n_html:]) == exp, "display", "concurrent notebook displays")
            for ch in os_.children:
                c.check(ch is None or ch.reaped, "leaked-process", "after concurrent renderings")
            os_.task_plan.clear()
        elif op == "abort":
            x = Case(c, os_)
            exc = pick_abort(c)
            c.arm_abort(c.int(1, 60), exc)
            try:
                x.fn()
            except (SimKeyboardInterrupt, SimMemoryError):
                c.fault("abort-" + type(exc).__name__)
            except Exception as e:
                if type(e).__name__ in ("Violation", "HarnessError"):
                    raise
            c.disarm_abort()
            c.ev("abort", x.what)
            os_.plan.clear()
            os_.children.clear()
            for k in os_.calls:
                k.setdefault("case", 1)
        else:
            x = Case(c, os_)
            os_.display_fault = c.injected("display")
            x.plan.interrupt_was = x.plan.interrupt is not None
            try:
                st, r = "ok", x.fn()
            except BaseException as e:
                if type(e).__name__ in ("Violation", "HarnessError", "BudgetExceeded"):
                    raise
                st, r = "exc", e
            fired = os_.display_fault is None
            os_.display_fault = None
            c.ev("display-fails", x.what, fired, st)
            c.check(not fired or (st == "exc" and isinstance(r, Injected)), "display", f"a failing display surfaced as {r!r}")
            if x.shown is not None and x.expected() is not None:
                c.check(fired, "display", "the display was not called")
            for k in os_.calls:
                k.setdefault("case", 1)
        os_.plan.clear()


SCENARIOS = [(1, "renderings", renderings)]
