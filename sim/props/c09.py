"""C09: shortest paths are optimal and complete for every weighting, semiring, schedule and fault"""
from collections import defaultdict
from fractions import Fraction
from .common import hollow, multiset, pick_abort, sig
from .c08 import make_graph, snapshot
from ..kernel import Injected, Sched, SimKeyboardInterrupt, SimMemoryError, Violation

RULE = ("One run = one random weighted graph and 1 to 4 shortest-path computations on it (whole graph, one target, "
        "path and DAG extraction), with weights, distance laws and visitors that are caller callbacks; a computation "
        "may be aborted by a failing callback or an asynchronous abort and run again, or run concurrently with "
        "others; results are compared with a fixpoint reference, the visitor checks the examination order online.")
REAL = ["dijkstra_shortest_paths", "dijkstra_shortest_path", "make_shortest_path", "make_shortest_paths_dag",
        "Heap", "DirectedGraph", "UndirectedGraph", "IncidenceGraph", "Automaton"]
STUB = ["caller-supplied weights, distance laws and visitors (fault-injecting)"]
RUNS = {"quick": 24000, "thorough": 320000}
INF = 10 ** 9


def norm(s, kind):
    u, v, k = s
    return (min(u, v), max(u, v), k) if kind == "UndirectedGraph" else s


class Law:
    def __init__(self, name, better, plus, zero, infty, weights):
        self.name, self.better, self.plus = name, better, plus
        self.zero, self.infty, self.weights = zero, infty, weights


def laws():
    import sys
    F = Fraction
    return [
        Law("sum", lambda a, b: a < b, lambda a, b: a + b, 0, sys.maxsize, [0, 1, 1, 2, 3, 5, 10]),
        Law("float", lambda a, b: a < b, lambda a, b: a + b, 0.0, float("inf"), [0.0, 0.5, 0.25, 1.5, 3.0]),
        Law("reliability", lambda a, b: a > b, lambda a, b: a * b, F(1), F(0), [F(1), F(1, 2), F(1, 3), F(2, 3)]),
        Law("widest", lambda a, b: a > b, min, 10 ** 6, 0, [1, 2, 3, 4, 5, 50]),
        Law("minimax", lambda a, b: a < b, max, 0, sys.maxsize, [0, 1, 2, 3, 9]),
    ]


def reference(g, out, w, s, law):
    d = {u: law.infty for u in out}
    d[s] = law.zero
    for _ in range(len(out) + 1):
        for u in out:
            if d[u] == law.infty:
                continue
            for e in out[u]:
                if w(e) == law.infty:
                    continue
                x = law.plus(d[u], w(e))
                if law.better(x, d[e[1]]):
                    d[e[1]] = x
    preds = {u: set() for u in out}
    for u in out:
        if d[u] != law.infty:
            for e in out[u]:
                if w(e) != law.infty and law.plus(d[u], w(e)) == d[e[1]]:
                    preds[e[1]].add(e)
    return d, preds


class Watcher:
    def __init__(self, c, g, out, dist, law, vdist, what):
        self.c, self.g, self.out, self.d, self.law, self.vdist, self.what = c, g, out, dist, law, vdist, what
        self.cur, self.last = None, None
        self.seen, self.finished, self.init, self.found = set(), set(), set(), set()
        self.weight, self.good = None, None
        self.todo = {}
        self.phase = "idle"

    def need(self, cond, msg):
        if not cond:
            raise Violation("examination-order", f"{self.what}: {msg}")

    def initialize_vertex(self, u, g):
        self.need(g is self.g and u not in self.init and not self.seen, f"initialize_vertex({u})")
        self.init.add(u)
        self.c.cb("visitor")

    def examine_vertex(self, u, g):
        self.need(self.init == set(self.out), "a vertex is examined before all are initialized")
        self.need(self.cur is None and u not in self.seen, f"vertex {u} examined twice")
        self.need(self.d[u] != self.law.infty, f"unreachable vertex {u} examined")
        self.need(self.vdist[u] == self.d[u], f"vertex {u} examined at {self.vdist[u]}, its distance is {self.d[u]}")
        self.need(u in self.found or self.last is None, f"vertex {u} examined before it is discovered")
        self.need(self.last is None or not self.law.better(self.d[u], self.last),
                  f"vertex {u} at {self.d[u]} examined after a vertex at {self.last}")
        self.last = self.d[u]
        self.seen.add(u)
        self.cur, self.todo = u, multiset(self.out[u])
        self.c.cb("visitor")

    def examine_edge(self, e, g):
        s = sig(g, e)
        self.need(self.phase == "idle" and self.todo.get(s, 0) > 0, f"edge {s} examined during {self.cur}")
        self.todo[s] -= 1
        self.phase = s
        x, old = self.law.plus(self.d[self.cur], self.weight(s)), self.vdist[s[1]]
        self.good = self.weight(s) != self.law.infty and (self.law.better(x, old) or x == old)
        self.c.cb("visitor")

    def discover_vertex(self, u, g):
        self.need(self.phase != "idle" and self.phase[1] == u, f"vertex {u} discovered at the wrong time")
        self.need(u not in self.found, f"vertex {u} discovered twice")
        self.found.add(u)
        self.c.cb("visitor")

    def edge_relaxed(self, e, g):
        self.need(self.phase == sig(g, e), f"edge {sig(g, e)} relaxed at the wrong time")
        self.need(self.good, f"edge {sig(g, e)} relaxed although it lengthens the path")
        self.phase = "idle"
        self.c.cb("visitor")

    def edge_not_relaxed(self, e, g):
        s = sig(g, e)
        self.need(self.phase == s, f"edge {s} not relaxed at the wrong time")
        self.need(not self.good, f"edge {s} not relaxed although it is as good as the best known")
        self.phase = "idle"
        self.c.cb("visitor")

    def finish_vertex(self, u, g):
        self.need(u == self.cur and self.phase == "idle" and not any(self.todo.values()),
                  f"vertex {u} finished before all its edges were examined")
        self.cur = None
        self.finished.add(u)
        self.c.cb("visitor")


def closure(preds, t):
    """Every edge lying on a shortest walk to t"""
    kept, todo, done = set(), [t], {t}
    while todo:
        for e in preds[todo.pop()]:
            kept.add(e)
            if e[0] not in done:
                done.add(e[0])
                todo.append(e[0])
    return kept


def check_path(c, g, path, s, t, dist, w, law, what):
    cur, tot = s, law.zero
    for e in path:
        x = sig(g, e)
        c.check(x[0] == cur, "path", f"{what}: {[sig(g, e) for e in path]} is not a path from {s}")
        cur, tot = x[1], law.plus(tot, w(x))
    c.check(cur == t, "path", f"{what}: {[sig(g, e) for e in path]} does not end at {t}")
    c.check(tot == dist[t], "path", f"{what}: path of weight {tot}, the shortest has weight {dist[t]}")


def compute(c):
    lib = c.lib
    D, A, P = lib.dijkstra_shortest_paths, lib.algebra, lib.property_map
    g, kind, n = make_graph(c)
    law = c.pick(laws())
    weights = {}
    closed = c.flag(0.3)
    for e in g.edges():
        weights[norm(sig(g, e), kind)] = law.infty if closed and c.flag(0.25) else c.pick(law.weights)
    w = lambda s: weights[norm(s, kind)]
    c.ev("weights", law.name, sorted(weights.items()))
    out = {u: [sig(g, e) for e in g.out_edges(u)] for u in g.vertices()}
    before = snapshot(g)

    class Better(A.BinaryRelation):
        def __call__(self, x, y):
            c.cb("compare")
            return law.better(x, y)

    class Plus(A.BinaryOperator):
        def __call__(self, x, y):
            c.cb("combine")
            return law.plus(x, y)

    def ops():
        """Library laws or caller laws"""
        if law.name == "sum":
            k = c.pick([{}, {"compare": A.Less()}, {"compare": A.Less(), "combine": A.ClosedPlus()},
                        {"compare": hollow(c, Better()), "combine": hollow(c, Plus())}, {"infty": INF, "combine": A.ClosedPlus(INF)},
                        {"infty": float("inf"), "combine": hollow(c, Plus())}])
            return dict(k)
        if law.name == "float":
            return {"zero": 0.0, "infty": float("inf"), "combine": c.pick([A.ClosedPlus(float("inf")), Plus()]),
                    **c.pick([{}, {"compare": A.Less()}])}
        lib_ops = {"reliability": lambda: A.ClosedTime(law.infty), "widest": lambda: A.ClosedMin(0),
                   "minimax": lambda: A.ClosedMax()}[law.name]
        rel = A.Less() if law.name == "minimax" else A.GreaterThan()
        return {"zero": law.zero, "infty": law.infty, "combine": c.pick([lib_ops(), hollow(c, Plus())]),
                "compare": c.pick([rel, hollow(c, Better())])}

    def pm(d):
        return hollow(c, P.make_assoc_property_map(d))

    def weight_map(infty):
        """A closed edge weighs the infinite distance"""
        def scaled(e):
            x = w(sig(g, e))
            return infty if x == law.infty else x
        if c.flag(0.5):
            return pm(defaultdict(int, {e: scaled(e) for u in g.vertices() for e in g.out_edges(u)}))

        def f(e):
            c.cb("weight")
            return scaled(e)
        return hollow(c, P.make_func_property_map(f))

    def job():
        """One computation: (run, verify)"""
        s = c.choose(n)
        dist, preds = reference(g, out, w, s, law)
        vp, vd = defaultdict(set), defaultdict(int)
        k = ops()
        infty = k.get("infty", law.infty)
        d2 = {u: infty if x == law.infty else x for u, x in dist.items()}
        target = c.choose(n) if c.flag(0.4) else None
        what = f"{law.name} {kind} from {s}" + ("" if target is None else f" to {target}")
        vis = Watcher(c, g, out, dist, law, vd, what) if c.flag(0.7) else None
        if vis is not None:
            vis.weight = w
            hollow(c, vis)
        colors = None
        if c.flag(0.5):
            colors = defaultdict(int)
            k["pmap_vcolor"] = pm(colors)
        c.ev("job", s, target)
        em = weight_map(infty)

        def run():
            if target is None:
                return D.dijkstra_shortest_paths(g, s, em, pm(vp), pm(vd), vis=vis, **k)
            return D.dijkstra_shortest_path(g, s, target, em, pm(vp), pm(vd), vis=vis, **k)

        def verify(r):
            if target is not None:
                if dist[target] == law.infty:
                    c.eq(r, None, "target-path", what)
                else:
                    c.check(r is not None, "target-path", f"{what}: no path found, the distance is {dist[target]}")
                    check_path(c, g, r, s, target, dist, w, law, what)
                    c.eq(vd[target], d2[target], "distance", f"{what} vertex {target}")
                    if vis:
                        c.check(all(not law.better(dist[target], dist[u]) for u in vis.seen), "early-stop",
                                f"{what}: a vertex farther than the target was examined")
                return
            for u in out:
                c.eq(vd[u], d2[u], "distance", f"{what} vertex {u}")
                c.eq({sig(g, e) for e in vp[u]}, preds[u], "predecessors", f"{what} vertex {u}")
            if colors is not None:
                G = lib.graph_traversal
                c.eq({u: colors[u] for u in out}, {u: G.WHITE if dist[u] == law.infty else G.BLACK for u in out}, "color", what)
            if vis is not None:
                c.check(vis.finished == {u for u in out if dist[u] != law.infty}, "examination-order",
                        f"{what}: examined {vis.finished}")
            t = c.choose(n)
            m = pm(vp)
            if dist[t] != law.infty:
                with c.limit(3000 + 400 * n * n, "make_shortest_path"):
                    check_path(c, g, D.make_shortest_path(g, s, t, m), s, t, dist, w, law, what + f" extract {t}")
                    r1 = D.make_shortest_paths_dag(g, s, t, m, True)
                one = sorted(sig(g, e) for e in r1)
                c.check(len({x[0] for x in one}) == len(one), "path", f"{what}: single path {one} branches")
                cur, hops, tot = s, 0, law.zero
                nxt = {x[0]: x for x in one}
                while cur != t and cur in nxt and hops <= len(one):
                    tot = law.plus(tot, w(nxt[cur]))
                    cur, hops = nxt[cur][1], hops + 1
                c.check(cur == t and hops == len(one) and tot == dist[t], "path",
                        f"{what}: {one} is not a single shortest path to {t}")
            else:
                c.eq(D.make_shortest_paths_dag(g, s, t, m, True), set(), "path", what) if t != s else None
            with c.limit(3000 + 400 * n * n, "make_shortest_paths_dag"):
                r2 = D.make_shortest_paths_dag(g, s, t, m)
            c.eq({sig(g, e) for e in r2}, closure(preds, t), "shortest-dag", f"{what} to {t}")
        return run, verify
    budget = 30000 + 1500 * (n + 1) * (n + 2)
    for _ in range(c.int(1, 4)):
        mode = c.weighted([(5, "plain"), (4, "fail"), (3, "abort"), (4, "threads")])
        c.ev(mode)
        if mode == "threads":
            s = Sched(c, c.pick([10, 40, 150]), 120)
            vs = []
            for _ in range(c.int(2, 3)):
                run, verify = job()
                vs.append(verify)
                s.spawn(run)
            with c.limit(3 * budget, "concurrent computations"):
                tasks = s.run()
            for x, v in zip(tasks, vs):
                if x.exc is not None:
                    raise x.exc
                v(x.result)
        else:
            run, verify = job()
            if mode == "fail":
                c.arm_callback(c.choose(6 * n + 6))
            elif mode == "abort":
                exc = pick_abort(c)
                c.arm_abort(c.int(1, 150 * (n + 1)), exc)
            done = False
            try:
                with c.limit(budget, "dijkstra"):
                    r = run()
                done = True
            except (Injected, SimKeyboardInterrupt, SimMemoryError) as e:
                if mode == "abort":
                    c.check(e is exc, "error-propagation", repr(e))
                    c.fault("abort-" + type(e).__name__)
            c.disarm_callback()
            c.disarm_abort()
            c.ev("done" if done else "aborted")
            if done:
                verify(r)
        c.eq(snapshot(g), before, "graph-changed", mode)


def algebra(c):
    """Operators closed by an absorbing element, and relations, over random values"""
    A = c.lib.algebra
    inf = float("inf")
    table = [("ClosedPlus", lambda x, y: x + y, A.INFINITY), ("ClosedTime", lambda x, y: x * y, A.INFINITY),
             ("ClosedMax", max, A.INFINITY), ("ClosedMin", min, 0)]
    for _ in range(c.int(4, 12)):
        name, op, default = c.pick(table)
        given = c.flag(0.7)
        absorbing = c.pick([0, 1, -1, 7, inf, A.INFINITY, Fraction(1, 2)]) if given else default
        f = getattr(A, name)(absorbing) if given else getattr(A, name)()
        vals = [0, 1, 2, 3, 7, 10, Fraction(1, 2), Fraction(2, 3), -1, -5, absorbing]
        for _ in range(c.int(1, 8)):
            x, y = c.pick(vals), c.pick(vals)
            c.ev(name, str(absorbing), str(x), str(y))
            c.eq(f(x, y), absorbing if absorbing in (x, y) else op(x, y), "law", f"{name}({absorbing})({x}, {y})")
            c.eq((A.Less()(x, y), A.GreaterThan()(x, y)), (x < y, x > y), "law", f"relations on {x}, {y}")


SCENARIOS = [(30, "dijkstra", compute), (1, "algebra", algebra)]
