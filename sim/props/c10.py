"""C10: strong components, topological orders and vertex cuts are exact"""
from collections import defaultdict, deque
from .common import hollow, pick_abort, sig
from .c08 import make_graph, snapshot
from ..kernel import Injected, Sched, SimKeyboardInterrupt, SimMemoryError

RULE = ("One run = one random directed graph that clients mutate between 2 to 6 structural queries (strong "
        "components, topological sort, vertex cut), run alone, hit by failing callbacks or property maps, aborted at "
        "an arbitrary simulated instant and run again, or run as concurrent simulated threads; answers are compared "
        "with reachability-matrix references.")
REAL = ["strong_components", "topological_sort", "cut", "depth_first_search_graph", "DirectedGraph",
        "IncidenceGraph", "Automaton", "GraphView"]
STUB = ["caller-supplied property maps and cut predicates (fault-injecting)"]
RUNS = {"quick": 26000, "thorough": 340000}
KINDS = ("DirectedGraph", "IncidenceGraph", "Automaton")


def reach(vs, es):
    r = {u: {u} for u in vs}
    succ = {u: set() for u in vs}
    for u, v, _ in es:
        succ[u].add(v)
    for u in vs:
        todo = [u]
        while todo:
            for v in succ[todo.pop()]:
                if v not in r[u]:
                    r[u].add(v)
                    todo.append(v)
    return r, succ


def query(c, g, what):
    """(run, verify) of one query"""
    lib = c.lib
    P = lib.property_map
    vs, es = snapshot(g)
    r, succ = reach(vs, es)
    if what == "scc":
        comp = defaultdict(int)

        class Map(P.ReadWritePropertyMap):
            def __init__(self):
                pass

            def __getitem__(self, u):
                c.cb("property-map")
                return comp[u]

            def __setitem__(self, u, x):
                c.cb("property-map")
                comp[u] = x
        pm = hollow(c, Map() if c.flag(0.6) else P.make_assoc_property_map(comp))

        def run():
            return lib.strong_components.strong_components(g, pm)

        def verify(n):
            c.eq(set(comp), set(vs), "scc-domain", "vertices given a component")
            for u in vs:
                for v in vs:
                    c.check((comp[u] == comp[v]) == (v in r[u] and u in r[v]), "scc",
                            f"{u} and {v} got components {comp[u]} and {comp[v]}, edges {es}")
            c.eq(sorted(set(comp.values())), list(range(n)), "scc-count", f"edges {es}")
        return run, verify
    if what == "topo":
        cyclic = any(u in r[v] for u, v, _ in es)
        pre = [1000 + i for i in range(c.choose(3))] if c.flag(0.3) else None
        stack = None if pre is None else deque(pre)

        def run():
            try:
                f = lib.topological_sort.topological_sort
                return f(g) if stack is None else f(g, stack)
            except RuntimeError as e:
                if isinstance(e, RecursionError):
                    raise
                return "cyclic"

        def verify(res):
            c.eq(res == "cyclic", cyclic, "topological-cycle", f"edges {es}")
            if cyclic:
                return
            if stack is not None:
                c.check(res is stack, "topological-order", "another stack is returned")
            order = list(res)
            if pre is not None:
                c.eq(order[len(order) - len(pre):], pre, "topological-order", "elements already in the stack")
                order = order[:len(order) - len(pre)]
            c.eq(sorted(order), vs, "topological-order", "vertices")
            pos = {u: i for i, u in enumerate(order)}
            for u, v, _ in es:
                c.check(pos[u] < pos[v], "topological-order", f"edge {(u, v)} goes backward in {order}")
        return run, verify
    s = c.pick(vs)
    cutting = {e for e in es if c.flag(0.3)}

    def in_cut(e, g2):
        c.cb("predicate")
        c.check(g2 is g, "cut", "the predicate got another graph")
        return sig(g, e) in cutting
    region, todo = {s}, [s]
    while todo:
        u = todo.pop()
        for e in es:
            if e[0] == u and e not in cutting and e[1] not in region:
                region.add(e[1])
                todo.append(e[1])
    want = {e[1] for e in cutting if e[0] in region} | {u for u in region if not succ[u]}

    def run():
        return lib.cut.cut(s, g, in_cut)

    def verify(res):
        c.eq(res, want, "cut", f"from {s}, edges {es}, cut edges {sorted(cutting)}")
        # separation: without the cut vertices, no sink is reachable from s
        if s not in res:
            seen, todo = {s}, [s]
            while todo:
                u = todo.pop()
                c.check(succ[u], "cut-separation", f"sink {u} is reachable from {s} around {res}")
                for v in succ[u] - res - seen:
                    seen.add(v)
                    todo.append(v)
    return run, verify


def mutate(c, g, kind, k):
    vs = sorted(g.vertices())
    op = c.pick(["edge", "vertex", "rm_edge", "rm_vertex"])
    if op == "edge":
        u, v = c.pick(vs), c.pick(vs)
        if c.flag(0.5):
            u, v = min(u, v), max(u, v)
        g.add_edge(u, v, 100 + k) if kind == "Automaton" else g.add_edge(u, v)
        c.ev("add_edge", u, v)
    elif op == "vertex":
        c.ev("add_vertex", g.add_vertex())
    elif op == "rm_edge":
        es = sorted(g.edges(), key=lambda e: repr(sig(g, e)))
        if es:
            e = c.pick(es)
            c.ev("remove_edge", sig(g, e))
            g.remove_edge(e)
    elif len(vs) > 1:
        u = c.pick(vs[1:] if kind == "Automaton" else vs)
        c.ev("remove_vertex", u)
        g.remove_vertex(u)


def history(c):
    dag = c.flag(0.4)
    if dag:
        lib = c.lib
        kind = c.pick(list(KINDS))
        G = {"IncidenceGraph": lambda: lib.incidence_graph.IncidenceGraph,
             "Automaton": lambda: lib.automaton.Automaton}.get(kind, lambda: lib.graph.DirectedGraph)()
        n = c.pick([1, 2, 4, 7, 10, 16])
        g = G(n)
        order = c.shuffle(range(n))
        for i in range(c.choose(3 * n)):
            x, y = c.choose(n), c.choose(n)
            if x != y:
                u, v = order[min(x, y)], order[max(x, y)]
                g.add_edge(u, v, i) if kind == "Automaton" else g.add_edge(u, v)
        c.ev("dag", kind, snapshot(g))
    else:
        g, kind, n = make_graph(c, kinds=KINDS)
        if c.flag(0.3):
            # a long walk with chords: nested and deep components
            n = c.pick([7, 10, 14])
            order = [g.add_vertex() for _ in range(n)]
            order = c.shuffle(order)
            walk = list(zip(order, order[1:]))
            for _ in range(c.choose(n)):
                i, j = c.choose(n), c.choose(n)
                walk.append((order[max(i, j)], order[min(i, j)]) if c.flag(0.6) else (order[min(i, j)], order[max(i, j)]))
            for i, (u, v) in enumerate(c.shuffle(walk)):
                g.add_edge(u, v, 50 + i) if kind == "Automaton" else g.add_edge(u, v)
            n = g.num_vertices()
            c.ev("walk", snapshot(g))
    whole = g
    hidden_v, hidden_e = set(), set()
    P = c.lib.property_map.make_func_property_map
    view = c.lib.graph_view.GraphView(g, P(lambda u: u not in hidden_v), P(lambda e: sig(whole, e) not in hidden_e))
    for k in range(c.int(2, 6)):
        if k and c.flag(0.5):
            for j in range(c.int(1, 3)):
                mutate(c, whole, kind, 10 * k + j)
        g = whole
        if c.flag(0.25):
            g = view
            hidden_v.clear()
            hidden_e.clear()
            hidden_v |= {u for u in c.shuffle(whole.vertices())[1:] if c.flag(0.25)}
            hidden_e |= {e for e in sorted(map(lambda e: sig(whole, e), whole.edges())) if c.flag(0.15)}
            c.ev("view", sorted(hidden_v), sorted(hidden_e))
        before = snapshot(g)
        mode = c.weighted([(5, "plain"), (3, "fail"), (3, "abort"), (3, "threads")])
        what = c.pick(["scc", "topo", "cut"])
        n = len(before[0])
        budget = 40000 + 1600 * (n + 1) * (n + 2)
        c.ev(mode, what)
        if mode == "threads":
            s = Sched(c, c.pick([8, 30, 120]), 120)
            vs = []
            for _ in range(c.int(2, 3)):
                run, verify = query(c, g, c.pick(["scc", "topo", "cut"]))
                vs.append(verify)
                s.spawn(run)
            with c.limit(3 * budget, "concurrent queries"):
                tasks = s.run()
            for x, v in zip(tasks, vs):
                if x.exc is not None:
                    raise x.exc
                v(x.result)
        else:
            for attempt in range(2):
                run, verify = query(c, g, what)
                exc = None
                if attempt == 0 and mode == "fail":
                    c.arm_callback(c.choose(3 * n + 2))
                elif attempt == 0 and mode == "abort":
                    exc = pick_abort(c)
                    c.arm_abort(c.int(1, 60 * (n + 1)), exc)
                done = False
                try:
                    with c.limit(budget, what):
                        res = run()
                    done = True
                except (Injected, SimKeyboardInterrupt, SimMemoryError) as e:
                    if exc is not None:
                        c.check(e is exc, "error-propagation", repr(e))
                        c.fault("abort-" + type(e).__name__)
                c.disarm_callback()
                c.disarm_abort()
                c.ev("done" if done else "aborted", repr(res)[:60] if done else "")
                if done:
                    verify(res)
                    break
        c.eq(snapshot(g), before, "graph-changed", f"{what} {mode}")


def deep(c):
    """Long chains and cycles: answers must not depend on the interpreter's stack depth"""
    lib = c.lib
    n = c.pick([1100, 1400])
    cyc = c.flag(0.5)
    g = lib.graph.DirectedGraph(n)
    for i in range(n - 1):
        g.add_edge(i, i + 1)
    if cyc:
        g.add_edge(n - 1, 0)
    comp = defaultdict(int)
    c.ev("deep", n, cyc)
    k = lib.strong_components.strong_components(g, lib.property_map.make_assoc_property_map(comp))
    c.eq(k, 1 if cyc else n, "scc-count", "long chain")
    if not cyc:
        c.eq(list(lib.topological_sort.topological_sort(g)), list(range(n)), "topological-order", "long chain")
        c.eq(lib.cut.cut(0, g, lambda e, g: False), {n - 1}, "cut", "long chain")


MAX_STEPS = 10000000
SCENARIOS = [(150, "structure", history), (1, "deep", deep)]
