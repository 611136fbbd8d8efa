"""C17: exported files are complete or absent, whatever fails"""
import io

from .common import pick_abort
from ..iofault import SimOS, render
from ..kernel import Injected, Sched, SimKeyboardInterrupt, SimMemoryError

RULE = ("One run = 3 to 8 exports (rendered files, caller-supplied file objects, notebook displays) by sequential or "
        "concurrent simulated callers, over files that may already exist; the simulated layout engine fails in every "
        "way of C16 and the simulated disk refuses to open, runs out of space, tears or shortens writes, fails on "
        "write or on close; after every call the file is compared with the complete rendering or its old content.")
REAL = ["write_graphviz", "run_graphviz", "display_svg", "display_body", "html"]
STUB = ["the layout engine", "files opened for writing below the run's scratch directory", "IPython.display"]
RUNS = {"quick": 30000, "thorough": 500000}
TEXTS = ["digraph G {0->1;}", "graph G {0--1;}", "", "digraph G {0 [label=\"\u03b5\"];}", "not a graph"]
FORMATS = ["svg", "svg", "png", "dot", "pdf", "plain"]
NAMES = ["a.svg", "b.png", "\u03b5 c.out"]
OLD = [None, b"", b"old", "vieux \u00e9".encode() * 10, b"\x00\xff" * 40000]


def safe(fn):
    try:
        return "ok", fn()
    except (SimKeyboardInterrupt, SimMemoryError) as e:
        return "cut", e
    except Exception as e:
        if type(e).__name__ in ("Violation", "HarnessError"):
            raise
        return "exc", e


class FailingFile:
    """A caller's file object that fails at its k-th write"""

    def __init__(self, c, text, fail):
        self.c, self.f, self.left = c, io.StringIO() if text else io.BytesIO(), fail

    def write(self, s):
        if self.left == 0:
            self.c.fault("file-object-write")
            raise OSError(28, "No space left on device")
        if self.left is not None:
            self.left -= 1
        return self.f.write(s)

    def flush(self):
        self.f.flush()


class Export:
    def __init__(self, c, os_, name, task=None, faulty=True):
        self.c, self.os, self.name, self.task = c, os_, name, task
        self.kind = c.weighted([(8, "file"), (3, "object"), (3, "display_svg"), (2, "display_body")])
        self.text, self.engine, self.format = c.pick(TEXTS), c.pick([None, "dot", "neato"]), c.pick(FORMATS)
        self.plan = self.fs = None
        if self.kind in ("file", "object"):
            self.plan = os_.plan_process(faulty and c.flag(0.35), task)
        if faulty and self.kind != "object" and c.flag(0.45):
            self.fs = os_.plan_fs(task)
        self.body = c.pick(["<svg>x</svg>", "<svg>\u03b5 100% %s</svg>", "", "<svg>" + "y" * 20000 + "</svg>"])
        self.bg = c.pick([None, "white"])
        self.fail_at = c.pick([None, None, 0, 1]) if faulty else None
        self.fail_display = c.injected("display") if faulty and task is None and c.flag(0.1) else None
        self.pos = c.flag(0.3)

    def run(self):
        getattr(self, self.kind if self.kind in ("file", "object") else "display")()
        self.os.reset(self.task)

    def rendering(self):
        p = self.plan
        if p.spawn_error is not None or p.status != 0 or self.interrupted:
            return None
        out = render(self.text.encode("utf-8"), self.format, self.engine or "dot", p.pad)
        if p.garble:
            out = out[: len(out) // 2] + b"\xff\xfe\xe9" + out[len(out) // 2:]
            if self.format == "svg":
                return None
        return out

    def call(self, f):
        gz = self.c.lib.graphviz
        self.interrupted = self.plan.interrupt is not None
        if self.pos:
            return safe(lambda: gz.write_graphviz(self.text, f, self.engine, self.format))
        return safe(lambda: gz.write_graphviz(self.text, f, engine=self.engine, format=self.format))

    def file(self):
        c, o = self.c, self.os
        old = o.content(self.name)
        hit0 = o.disk_hits(self.task)
        st, x = self.call(o.path(self.name))
        hit = o.disk_hits(self.task) - hit0
        want = self.rendering()
        new = o.content(self.name)
        w = f"write_graphviz(format={self.format}), child: {self.plan.kind or 'healthy'}, disk: {self.fs and self.fs['kind']}"
        c.ev("file", self.format, self.plan.kind, self.fs and self.fs["kind"], st, x if st == "ok" else type(x).__name__)
        if want is None:
            c.check(st != "ok" or not x, "unreported-failure", f"{w}: reported {x!r} although the rendering failed")
            c.check(new == old, "clobbered", f"{w}: rendering failed but the file changed from {show(old)} to {show(new)}")
        elif st == "ok" and x:
            c.check(new == want, "incomplete", f"{w}: reported success but the file holds {show(new)}, not {show(want)}")
            c.check(hit == 0, "unreported-failure", f"{w}: a disk error was reported as a success")
        else:
            c.check(hit > 0, "lost-output", f"{w}: failed ({x!r}) on a healthy disk with a healthy engine")

    def object(self):
        c = self.c
        text = self.format == "svg"
        f = FailingFile(c, text, self.fail_at)
        st, x = self.call(f)
        want = self.rendering()
        got = f.f.getvalue()
        failed = f.left == 0 and st != "ok"
        w = f"write_graphviz(file object, format={self.format}), child: {self.plan.kind or 'healthy'}"
        c.ev("object", self.format, self.plan.kind, self.fail_at, st)
        if want is None:
            c.check(st != "ok" or not x, "unreported-failure", f"{w}: reported {x!r} although the rendering failed")
            c.check(not got, "clobbered", f"{w}: rendering failed but {show(got)} was written")
            return
        if text:
            want = want.decode("utf-8")
            full = got in (want, want + "\n")
        else:
            full = got == want
        if st == "ok" and x:
            c.check(full, "incomplete", f"{w}: reported success but the file holds {show(got)}")
        else:
            c.check(failed, "lost-output", f"{w}: failed ({x!r}) with a healthy file and a healthy engine")

    def display(self):
        c, o = self.c, self.os
        ip = c.lib.ipynb
        path = o.path(self.name)
        if self.kind == "display_svg":
            doc, want = self.body, [self.body, self.body + "\n"]
        else:
            doc = None
        seen = []

        def on_display(data):
            seen.append((data, o.content(self.name)))
        o.watch[self.task] = on_display
        hit0 = o.disk_hits(self.task)
        if self.fail_display:
            o.display_fault = self.fail_display
        fn = getattr(ip, self.kind)
        st, x = safe(lambda: fn(self.body, path, background_color=self.bg))
        hit = o.disk_hits(self.task) - hit0
        o.watch.pop(self.task, None)
        fired = self.fail_display is not None and o.display_fault is None
        o.display_fault = None
        now = o.content(self.name)
        w = f"{self.kind}, disk: {self.fs and self.fs['kind']}"
        c.ev(self.kind, self.fs and self.fs["kind"], bool(fired), st)

        def complete(data):
            if data is None:
                return False
            s = data.decode("utf-8")
            if doc is not None:
                return s in want
            return (f"<body>{self.body}</body>" in s and s.startswith("<html>") and s.rstrip("\n").endswith("</html>"))
        for data, at in seen:
            c.check(path not in data or complete(at), "premature", f"{w}: {show(data)} is displayed while the file holds {show(at)}")
        if st == "ok":
            c.check(complete(now), "incomplete", f"{w}: returned but the file holds {show(now)}")
            c.check(hit == 0, "unreported-failure", f"{w}: a disk error was reported as a success")
            c.check(not fired, "unreported-failure", f"{w}: a display error was reported as a success")
            c.check(any(path in d for d, _ in seen), "announce", f"{w}: the file is not announced")
            c.check(any(self.body in d for d, _ in seen), "announce", f"{w}: the content is not displayed")
        else:
            c.check(hit > 0 or fired, "lost-output", f"{w}: failed ({x!r}) on a healthy disk")


def show(x):
    return "no file" if x is None else f"{len(x)} bytes {x[:40]!r}..." if len(x) > 40 else repr(x)


class OS17(SimOS):
    def __init__(self, c):
        super().__init__(c)
        self.hits = {}
        self.watch = {}

    def on_display(self, data):
        super().on_display(data)
        f = self.watch.get(self.task())
        if f:
            f(data)

    def disk_hits(self, task):
        return self.hits.get(task, 0)

    def disk_fault(self, kind):
        super().disk_fault(kind)
        if kind != "short-write":
            self.hits[self.task()] = self.hits.get(self.task(), 0) + 1

    def reset(self, task):
        if task is None:
            self.plan.clear()
        self.task_plan.pop(task, None)
        self.fs_plans.pop(task, None)


def exports(c):
    o = OS17(c)
    o.install()
    for n in NAMES:
        old = c.pick(OLD)
        if old is not None:
            o.put(n, old)
        c.ev("old", n, None if old is None else len(old))
    for _ in range(c.int(3, 8)):
        op = c.weighted([(10, "one"), (3, "threads"), (2, "abort")])
        if op == "one":
            Export(c, o, c.pick(NAMES)).run()
        elif op == "threads":
            s = Sched(c, c.pick([4, 12, 40]), 60)
            for i, n in enumerate(c.sample(NAMES, c.int(2, 3))):
                s.spawn(Export(c, o, n, i).run)
            for t in s.run():
                if t.exc is not None:
                    raise t.exc
            c.ev("threads")
        else:
            x = Export(c, o, c.pick(NAMES), faulty=False)
            exc = pick_abort(c)
            c.arm_abort(c.int(1, 50), exc)
            path = o.path(x.name)
            if x.plan is not None:
                fn = lambda: c.lib.graphviz.write_graphviz(x.text, path, format=x.format)
            else:
                fn = lambda: c.lib.ipynb.display_svg(x.body, path)
            st, r = safe(fn)
            c.disarm_abort()
            c.ev("abort", x.kind, st)
            if st == "cut":
                c.fault("abort-" + type(exc).__name__)
            elif st == "exc":
                raise r
            elif x.plan is not None:
                want = render(x.text.encode(), x.format, "dot", x.plan.pad)
                c.check(o.content(x.name) == want, "incomplete", "write after earlier failures")
            o.reset(None)
            # the same export must now succeed
            x.plan = o.plan_process(False) if x.plan is not None else None
            x.run()


SCENARIOS = [(1, "exports", exports)]
