"""C08: traversals follow their event protocol, whatever the interleaving, filter or abort"""
from collections import defaultdict
from .common import hollow, multiset, pick_abort, sig
from ..kernel import Injected, Sched, SimKeyboardInterrupt, SimMemoryError, Violation

RULE = ("One run = one random graph and 2 to 5 traversals on it; each traversal is watched online by a protocol "
        "automaton (every prefix of the event sequence is checked), is possibly aborted by a failing visitor, a "
        "failing filter or an asynchronous abort at an arbitrary simulated instant and run again, or runs "
        "concurrently with others as simulated threads preempted inside callbacks.")
REAL = ["breadth_first_search", "breadth_first_search_graph", "depth_first_search", "depth_first_search_graph",
        "bfs_tree", "dfs_tree", "DirectedGraph", "UndirectedGraph", "IncidenceGraph", "Automaton", "GraphView"]
STUB = ["caller-supplied visitors, edge filters and color maps (fault-injecting)"]
RUNS = {"quick": 26000, "thorough": 320000}
WHITE, GRAY, BLACK = 0, 1, 2


def make_graph(c, tree=False, kinds=("DirectedGraph", "UndirectedGraph", "IncidenceGraph", "Automaton")):
    lib = c.lib
    kind = c.pick(list(kinds))
    G = {"IncidenceGraph": lambda: lib.incidence_graph.IncidenceGraph,
         "Automaton": lambda: lib.automaton.Automaton}.get(kind, lambda: getattr(lib.graph, kind))()
    n = c.pick([1, 2, 3, 4, 6, 9])
    g = G(n)
    if tree:
        order = c.shuffle(range(n))
        pairs = [(order[c.choose(i)], order[i]) for i in range(1, n)]
    else:
        pairs = []
        for _ in range(c.choose(2 * n + 2)):
            pairs.append((c.choose(n), c.choose(n)))
    for i, (u, v) in enumerate(pairs):
        if kind == "Automaton":
            g.add_edge(u, v, i)
        else:
            g.add_edge(u, v)
    c.ev("graph", kind, n, pairs)
    return g, kind, n


def snapshot(g):
    return (sorted(g.vertices()), sorted(sig(g, e) for e in g.edges()))


class Watch:
    """Common part of the online protocol checkers"""

    def __init__(self, c, g, keep, what):
        self.c, self.g, self.what = c, g, what
        self.out = {u: [sig(g, e) for e in g.out_edges(u) if keep(sig(g, e))] for u in g.vertices()}
        self.color = {u: WHITE for u in g.vertices()}
        self.real = None          # the caller's color storage, compared with the model at every event
        self.todo = {}
        self.n = 0

    def bad(self, msg):
        raise Violation("protocol", f"{self.what}: {msg}")

    def need(self, cond, msg):
        if not cond:
            self.bad(msg)

    def tick(self, name, g):
        self.n += 1
        self.need(g is self.g, f"{name}: the visitor got another graph")
        if self.real is not None and name != "initialize_vertex":
            got = {u: self.real.get(u, WHITE) for u in self.color}
            self.need(got == self.color, f"{name}: the colors are {got} instead of {self.color}")
        self.c.cb("visitor")

    def preset(self, colors):
        self.color.update(colors)

    def reach(self, sources):
        todo = [s for s in dict.fromkeys(sources) if self.color[s] == WHITE]
        seen = set(todo)
        while todo:
            for s in self.out[todo.pop()]:
                if s[1] not in seen and self.color[s[1]] == WHITE:
                    seen.add(s[1])
                    todo.append(s[1])
        return seen


class BfsWatch(Watch):
    def begin(self, sources, init):
        self.dist = {}
        level = [s for s in dict.fromkeys(sources) if self.color[s] == WHITE]
        self.sources = set(level)
        d = 0
        while level:
            nxt = []
            for u in level:
                self.dist.setdefault(u, d)
            for u in level:
                for s in self.out[u]:
                    if s[1] not in self.dist and s[1] not in nxt and self.color[s[1]] == WHITE:
                        nxt.append(s[1])
            level, d = nxt, d + 1
        self.init_left = set(self.out) if init else set()
        self.cur = self.pending = None
        self.last = 0
        self.phase = "idle"       # idle | edge (examine_edge seen) | tree | nontree

    # --- events
    def initialize_vertex(self, u, g):
        self.need(u in self.init_left, f"initialize_vertex({u}) unexpected")
        self.init_left.discard(u)
        self.tick("initialize_vertex", g)

    def discover_vertex(self, u, g):
        self.need(not self.init_left, "discover before every vertex was initialized")
        self.need(u in self.dist, f"unreachable vertex {u} discovered")
        self.need(self.color[u] == WHITE, f"vertex {u} discovered twice")
        if self.cur is None:
            self.need(u in self.sources, f"vertex {u} discovered out of any examination")
        else:
            self.need(self.phase == "tree" and self.pending[1] == u, f"vertex {u} discovered without a tree edge")
            self.phase = "idle"
        self.color[u] = GRAY
        self.tick("discover_vertex", g)

    def examine_vertex(self, u, g):
        self.need(self.cur is None, f"vertex {u} examined during the examination of {self.cur}")
        self.need(self.color.get(u) == GRAY, f"vertex {u} examined while not gray")
        self.need(all(self.color[s] != WHITE for s in self.sources), "examination before every source is discovered")
        self.need(self.dist[u] >= self.last, f"vertex {u} at distance {self.dist[u]} examined after distance {self.last}")
        self.last = self.dist[u]
        self.cur = u
        self.todo = multiset(self.out[u])
        self.tick("examine_vertex", g)

    def examine_edge(self, e, g):
        s = sig(g, e)
        self.need(self.cur is not None and self.phase == "idle", f"edge {s} examined at the wrong time")
        self.need(self.todo.get(s, 0) > 0, f"edge {s} examined twice, or not an edge of {self.cur}")
        self.todo[s] -= 1
        self.pending, self.phase = s, "edge"
        self.tick("examine_edge", g)

    def tree_edge(self, e, g):
        s = sig(g, e)
        self.need(self.phase == "edge" and s == self.pending, f"tree_edge {s} without examine_edge")
        self.need(self.color[s[1]] == WHITE, f"tree_edge {s} to a vertex already discovered")
        self.need(self.dist[s[1]] == self.dist[s[0]] + 1, f"tree_edge {s} is not on a shortest path")
        self.phase = "tree"
        self.tick("tree_edge", g)

    def non_tree_edge(self, e, g):
        s = sig(g, e)
        self.need(self.phase == "edge" and s == self.pending, f"non_tree_edge {s} without examine_edge")
        self.need(self.color[s[1]] != WHITE, f"non_tree_edge {s} to an undiscovered vertex")
        self.phase = "nontree"
        self.tick("non_tree_edge", g)

    def gray_target(self, e, g):
        s = sig(g, e)
        self.need(self.phase == "nontree" and s == self.pending, f"gray_target {s} without non_tree_edge")
        self.need(self.color[s[1]] == GRAY, f"gray_target {s}, the target is black")
        self.phase = "idle"
        self.tick("gray_target", g)

    def black_target(self, e, g):
        s = sig(g, e)
        self.need(self.phase == "nontree" and s == self.pending, f"black_target {s} without non_tree_edge")
        self.need(self.color[s[1]] == BLACK, f"black_target {s}, the target is gray")
        self.phase = "idle"
        self.tick("black_target", g)

    def finish_vertex(self, u, g):
        self.need(u == self.cur and self.phase == "idle", f"vertex {u} finished at the wrong time")
        self.need(not any(self.todo.values()), f"vertex {u} finished before its edges {self.todo} were examined")
        self.color[u] = BLACK
        self.cur = None
        self.tick("finish_vertex", g)

    def end(self):
        self.need(self.cur is None and not self.init_left, "the traversal stopped half-way")
        for u in self.dist:
            self.need(self.color[u] == BLACK, f"reachable vertex {u} not finished")


class DfsWatch(Watch):
    def begin(self, sources, init):
        self.reachable = self.reach(sources)
        self.sources = set(sources)
        self.stack = []           # [u, remaining edges]
        self.phase = "idle"       # idle | start | edge | tree
        self.pending = None
        self.started = set()

    def initialize_vertex(self, u, g):
        self.tick("initialize_vertex", g)

    def start_vertex(self, u, g):
        self.need(not self.stack and self.phase == "idle", f"start_vertex({u}) during a traversal")
        self.need(u in self.sources and self.color[u] == WHITE, f"start_vertex({u}) unexpected")
        self.phase, self.pending = "start", u
        self.tick("start_vertex", g)

    def discover_vertex(self, u, g):
        self.need(u in self.reachable, f"unreachable vertex {u} discovered")
        self.need(self.color[u] == WHITE, f"vertex {u} discovered twice")
        if self.phase == "start":
            self.need(u == self.pending, f"vertex {u} discovered instead of the source")
        else:
            self.need(self.phase == "tree" and self.pending[1] == u, f"vertex {u} discovered without a tree edge")
        self.phase = "idle"
        self.color[u] = GRAY
        self.stack.append([u, multiset(self.out[u])])
        self.tick("discover_vertex", g)

    def examine_edge(self, e, g):
        s = sig(g, e)
        self.need(self.stack and self.phase == "idle", f"edge {s} examined at the wrong time")
        u, todo = self.stack[-1]
        self.need(s[0] == u, f"edge {s} examined while the deepest unfinished vertex is {u}")
        self.need(todo.get(s, 0) > 0, f"edge {s} examined twice, or not an edge of {u}")
        todo[s] -= 1
        self.pending, self.phase = s, "edge"
        self.tick("examine_edge", g)

    def _classify(self, e, g, name, color, nxt):
        s = sig(g, e)
        self.need(self.phase == "edge" and s == self.pending, f"{name} {s} without examine_edge")
        self.need(self.color[s[1]] == color, f"{name} {s}: the target has color {self.color[s[1]]}")
        self.phase = nxt
        self.tick(name, g)

    def tree_edge(self, e, g):
        self._classify(e, g, "tree_edge", WHITE, "tree")

    def back_edge(self, e, g):
        self._classify(e, g, "back_edge", GRAY, "idle")

    def forward_or_cross_edge(self, e, g):
        self._classify(e, g, "forward_or_cross_edge", BLACK, "idle")

    def finish_vertex(self, u, g):
        self.need(self.stack and self.stack[-1][0] == u and self.phase == "idle", f"vertex {u} finished at the wrong time")
        todo = self.stack.pop()[1]
        self.need(not any(todo.values()), f"vertex {u} finished before its edges were examined")
        self.color[u] = BLACK
        self.tick("finish_vertex", g)

    def end(self):
        self.need(not self.stack and self.phase == "idle", "the traversal stopped half-way")
        for u in self.reachable:
            self.need(self.color[u] == BLACK, f"reachable vertex {u} not finished")


class ColorMap:
    """A caller's own color map, whose storage may fail"""

    def __init__(self, c, store):
        self.c, self.store = c, store

    def __getitem__(self, u):
        self.c.cb("color-map")
        return self.store[u]

    def __setitem__(self, u, color):
        self.c.cb("color-map")
        self.store[u] = color


def plan(c, g, n, kind, algo):
    """One traversal: returns (callable, watcher, color map)"""
    lib = c.lib
    bfs = lib.breadth_first_search
    dfs = lib.depth_first_search
    hidden = {sig(g, e) for e in sorted(g.edges(), key=lambda e: sig(g, e)) if c.flag(0.25)} if c.flag(0.4) else set()
    if kind == "UndirectedGraph":
        hidden |= {(v, u, k) for u, v, k in hidden}

    def keep(s):
        return s not in hidden

    def if_push(e, g2):
        c.cb("filter")
        if g2 is not g:
            raise Violation("protocol", f"{algo}: the filter got another graph")
        return keep(sig(g, e))
    w = (BfsWatch if algo.startswith("bfs") else DfsWatch)(c, g, keep, f"{algo} {kind}")
    colors = None
    if c.flag(0.7):
        w.real = defaultdict(int)
        if c.flag(0.4):
            for u in range(n):
                if c.flag(0.3):
                    w.real[u] = c.pick([GRAY, BLACK])
            c.ev("preset", sorted(w.real.items()))
        if c.flag(0.5):
            colors = hollow(c, lib.property_map.make_assoc_property_map(w.real))
        else:
            colors = hollow(c, ColorMap(c, w.real))
    kw = {"vis": hollow(c, w)}
    if hidden or c.flag(0.3):
        kw["if_push"] = hollow(c, if_push)
    if colors is not None:
        kw["pmap_vcolor"] = colors
    if algo == "bfs":
        s = c.choose(n)
        w.begin([s], True)
        fn = lambda: bfs.breadth_first_search(s, g, **kw)
        src = [s]
    elif algo == "dfs":
        white = [u for u in range(n) if not w.real or not w.real[u]]
        if not white:
            w.real[0] = WHITE
            white = [0]
        s = c.pick(white)
        w.preset(w.real or {})
        w.begin([s], False)
        fn = lambda: dfs.depth_first_search(s, g, **kw)
        src = [s]
    else:
        src = None if c.flag(0.4) else [c.choose(n) for _ in range(c.choose(4))]
        w.preset(w.real or {})
        w.begin(list(range(n)) if src is None else src, False)
        f = bfs.breadth_first_search_graph if algo == "bfs_graph" else dfs.depth_first_search_graph
        if src is not None:
            kw["sources"] = list(src)
        fn = lambda: f(g, **kw)
    return fn, w, colors, src


def colors_ok(c, w, colors, what):
    if colors is None:
        return
    for u in w.color:
        c.eq(w.real.get(u, WHITE), w.color[u], "colors", f"{what} vertex {u}")


def traversals(c):
    g, kind, n = make_graph(c)
    before = snapshot(g)
    budget = 8000 + 1600 * (n + 1) * (n + 2)
    for _ in range(c.int(2, 5)):
        mode = c.weighted([(5, "plain"), (4, "fail"), (3, "abort"), (4, "threads"), (1, "default")])
        algo = c.pick(["bfs", "bfs_graph", "dfs", "dfs_graph"])
        c.ev(mode, algo)
        if mode == "default":
            # default visitor, default colors, default sources
            lib = c.lib
            with c.limit(budget, algo):
                if algo == "bfs":
                    lib.breadth_first_search.breadth_first_search(c.choose(n), g)
                elif algo == "dfs":
                    lib.depth_first_search.depth_first_search(c.choose(n), g)
                elif algo == "bfs_graph":
                    lib.breadth_first_search.breadth_first_search_graph(g)
                else:
                    lib.depth_first_search.depth_first_search_graph(g)
        elif mode == "threads":
            s = Sched(c, c.pick([6, 25, 100]), 120)
            ws = []
            for _ in range(c.int(2, 3)):
                a = c.pick(["bfs", "bfs_graph", "dfs", "dfs_graph"])
                fn, w, colors, src = plan(c, g, n, kind, a)
                ws.append((w, colors, a))
                s.spawn(fn)
            with c.limit(3 * budget, "concurrent traversals"):
                tasks = s.run()
            for x in tasks:
                if x.exc is not None:
                    raise x.exc
            for w, colors, a in ws:
                w.end()
                colors_ok(c, w, colors, a)
        else:
            fn, w, colors, src = plan(c, g, n, kind, algo)
            if mode == "fail":
                c.arm_callback(c.choose(3 * n + 6))
            elif mode == "abort":
                exc = pick_abort(c)
                c.arm_abort(c.int(1, 60 * (n + 1)), exc)
            try:
                with c.limit(budget, algo):
                    fn()
                done = True
            except (Injected, SimKeyboardInterrupt, SimMemoryError) as e:
                done = False
                if mode == "abort":
                    c.check(e is exc, "error-propagation", repr(e))
                    c.fault("abort-" + type(e).__name__)
            c.disarm_callback()
            c.disarm_abort()
            c.ev("done" if done else "aborted", w.n)
            if done:
                w.end()
                colors_ok(c, w, colors, algo)
        c.eq(snapshot(g), before, "graph-changed", f"{algo} {mode}")


def trees(c):
    g, kind, n = make_graph(c, tree=True, kinds=("DirectedGraph", "IncidenceGraph", "Automaton"))
    lib = c.lib.graph_traversal
    out = {u: [sig(g, e) for e in g.out_edges(u)] for u in g.vertices()}
    root = c.choose(n)
    algo = c.pick(["bfs_tree", "dfs_tree"])
    depth, anc = {root: 0}, {root: {root}}
    todo = [root]
    while todo:
        u = todo.pop()
        for s in out[u]:
            depth[s[1]] = depth[u] + 1
            anc[s[1]] = anc[u] | {s[1]}
            todo.append(s[1])
    ev = []

    class Vis(lib.DefaultTreeTraversalVisitor):
        def start_vertex(self, s, g2):
            ev.append(("start", s))
            c.cb("visitor")

        def discover_vertex(self, u, g2):
            ev.append(("discover", u))
            c.cb("visitor")

        def examine_edge(self, e, g2):
            ev.append(("edge", sig(g, e)))
            c.cb("visitor")

        def finish_vertex(self, u, g2):
            ev.append(("finish", u))
            c.cb("visitor")
    for attempt in range(2):
        ev.clear()
        fail = attempt == 0 and c.flag(0.5)
        if fail:
            c.arm_callback(c.choose(3 * n + 3))
        ok = True
        try:
            with c.limit(6000 + 600 * n, algo):
                getattr(lib, algo)(root, g, hollow(c, Vis()))
        except Injected:
            ok = False
        c.disarm_callback()
        c.ev(algo, root, ok, len(ev))
        c.eq(ev[0], ("start", root), "tree-protocol", algo)
        seen, cur, left, last = [], None, {}, 0
        for k, x in ev[1:]:
            if k == "discover":
                c.check(cur is None and x in depth and x not in seen, "tree-protocol", f"{algo}: discover {x}")
                if algo == "bfs_tree":
                    c.check(depth[x] >= last, "tree-order", f"{algo}: {x} at depth {depth[x]} after depth {last}")
                    last = depth[x]
                else:
                    # preorder: an unfinished subtree is completed before leaving it
                    if seen:
                        p = seen[-1]
                        for a in anc[p] - anc[x]:
                            sub = {v for v in depth if a in anc[v]}
                            c.check(sub <= set(seen), "tree-order", f"{algo}: left the subtree of {a} before its end")
                seen.append(x)
                cur, left = x, multiset(out[x])
            elif k == "edge":
                c.check(cur is not None and left.get(x, 0) > 0, "tree-protocol", f"{algo}: edge {x}")
                left[x] -= 1
            elif k == "finish":
                c.check(x == cur and not any(left.values()), "tree-protocol", f"{algo}: finish {x}")
                cur = None
            else:
                c.check(False, "tree-protocol", f"{algo}: {k} {x}")
        if ok:
            c.eq(set(seen), set(depth), "tree-protocol", f"{algo}: visited vertices")
            c.eq(cur, None, "tree-protocol", f"{algo}: last vertex not finished")
    getattr(lib, algo)(root, g)


def deep(c):
    """Long chains: a traversal must not depend on the interpreter's stack depth"""
    lib = c.lib
    n = c.pick([1100, 1500])
    kind = c.pick(["DirectedGraph", "UndirectedGraph", "IncidenceGraph"])
    G = lib.incidence_graph.IncidenceGraph if kind == "IncidenceGraph" else getattr(lib.graph, kind)
    g = G(n)
    for i in range(n - 1):
        g.add_edge(i, i + 1)
    algo = c.pick(["bfs", "dfs"])
    w = (BfsWatch if algo == "bfs" else DfsWatch)(c, g, lambda s: True, f"{algo} {kind} chain")
    w.begin([0], algo == "bfs")
    c.ev("deep", kind, n, algo)
    with c.limit(3000 * n, algo):
        if algo == "bfs":
            lib.breadth_first_search.breadth_first_search(0, g, vis=w)
        else:
            lib.depth_first_search.depth_first_search(0, g, vis=w)
    w.end()


MAX_STEPS = 10000000
SCENARIOS = [(120, "traversals", traversals), (30, "trees", trees), (1, "deep", deep)]
