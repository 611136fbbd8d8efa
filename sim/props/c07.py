"""C07: graph views are live pointwise filters"""
from .common import Listings, hollow, multiset, sig
from ..kernel import Injected, Sched

RULE = ("One run = one seeded history of 8 to 40 operations in which clients mutate the underlying graph, flip live "
        "vertex and edge predicates, combine views with |, & and -, read the views (also from simulated threads, "
        "also with predicates that fail) and run traversals on them; every read is compared with a pointwise model.")
REAL = ["GraphView", "DirectedGraph", "UndirectedGraph", "IncidenceGraph", "Automaton",
        "breadth_first_search", "to_dot"]
STUB = ["caller-supplied vertex and edge predicates (fault-injecting)"]
RUNS = {"quick": 24000, "thorough": 320000}


class Leaf:
    def __init__(self, vhide, ehide):
        self.vhide, self.ehide = vhide, ehide      # live sets, None = no predicate

    def v(self, u):
        return self.vhide is None or u not in self.vhide

    def e(self, s):
        return self.ehide is None or s not in self.ehide
    has_sub = False


class Comb:
    def __init__(self, op, a, b):
        self.op, self.a, self.b = op, a, b
        self.has_sub = op == "-" or a.has_sub or b.has_sub

    def v(self, u):
        x, y = self.a.v(u), self.b.v(u)
        return x or y if self.op == "|" else x and y if self.op == "&" else x and not y

    def e(self, s):
        if self.op == "|":
            return self.a.e(s) or self.b.e(s)
        if self.op == "&":
            return self.a.e(s) and self.b.e(s)
        return self.a.e(s)


def history(c):
    lib = c.lib
    kind = c.pick(["DirectedGraph", "UndirectedGraph", "IncidenceGraph", "Automaton"])
    G = {"IncidenceGraph": lambda: lib.incidence_graph.IncidenceGraph,
         "Automaton": lambda: lib.automaton.Automaton}.get(kind, lambda: getattr(lib.graph, kind))()
    directed = kind != "UndirectedGraph"
    aut = kind == "Automaton"
    n = c.int(1, 6)
    g = G(n)
    vs, es = set(range(n)), set()

    def norm(s):
        u, v, k = s
        return s if directed or u <= v else (v, u, k)

    def add_edge():
        if not vs:
            return
        u, v = c.pick(sorted(vs)), c.pick(sorted(vs))
        e, ok = g.add_edge(u, v, c.pick("abc")) if aut else g.add_edge(u, v)
        if ok:
            es.add(norm(sig(g, e)))
    for _ in range(c.choose(10)):
        add_edge()
    c.ev("graph", kind, n, sorted(es))
    GV = lib.graph_view.GraphView

    def mk(f):
        return hollow(c, lib.property_map.make_func_property_map(f))

    def cbv(hide):
        def f(u):
            c.cb("vertex-predicate")
            return u not in hide
        return mk(f)

    def cbe(hide):
        def f(e):
            c.cb("edge-predicate")
            return norm(sig(g, e)) not in hide
        return mk(f)
    leaves, views = [], []

    def new_leaf():
        vh = None if c.flag(0.2) else {u for u in sorted(vs) if c.flag(0.35)}
        eh = None if c.flag(0.2) else {s for s in sorted(es) if c.flag(0.35)}
        args = [cbv(vh) if vh is not None else None, cbe(eh) if eh is not None else None]
        r = c.choose(3)
        gv = GV(g, *args) if r else GV(g, pmap_erelevant=args[1], pmap_vrelevant=args[0])
        m = Leaf(vh, eh)
        leaves.append(m)
        views.append((gv, m))
    for _ in range(c.int(1, 3)):
        new_leaf()

    def visible(m):
        v = {u for u in vs if m.v(u)}
        return v, {s for s in es if s[0] in v and s[1] in v and m.e(s)}

    def out(m, u):
        v, e = visible(m)
        r = [s for s in e if s[0] == u]
        if not directed:
            r += [(b, a, k) for a, b, k in e if b == u and a != u]
        return r

    def read(gv, m, what):
        v, e = visible(m)
        k = c.choose(7)
        if k == 0:
            c.eq(multiset(gv.vertices()), multiset(v), "vertices", what)
            c.eq(gv.num_vertices(), len(v), "num_vertices", what)
        elif k == 1:
            c.eq(multiset(norm(sig(g, x)) for x in gv.edges()), multiset(e), "edges", what)
            c.eq(gv.num_edges(), len(e), "num_edges", what)
        elif k == 2:
            c.eq((bool(gv.has_vertex()), bool(gv.has_edge())), (bool(v), bool(e)), "has", what)
        elif k == 3 and vs:
            for u in sorted(vs):
                o = out(m, u) if u in v else []
                c.eq(multiset(sig(g, x) for x in gv.out_edges(u)), multiset(o), "out_edges", f"{what} {u}")
                c.eq(gv.out_degree(u), len(o), "out_degree", f"{what} {u}")
        elif k == 4 and kind in ("IncidenceGraph", "UndirectedGraph"):
            for u in sorted(vs):
                i = [s for s in e if s[1] == u] if directed else [norm(s) for s in out(m, u)]
                c.eq(multiset(norm(sig(g, x)) for x in gv.in_edges(u)), multiset(i), "in_edges", f"{what} {u}")
                c.eq(gv.in_degree(u), len(i), "in_degree", f"{what} {u}")
        elif k == 5 and v:
            s = c.pick(sorted(v))
            reach, todo = {s}, [s]
            while todo:
                u = todo.pop()
                for x in out(m, u):
                    if x[1] not in reach:
                        reach.add(x[1])
                        todo.append(x[1])
            bfs = lib.breadth_first_search

            class Vis(bfs.DefaultBreadthFirstSearchVisitor):
                def __init__(self):
                    self.seen = []

                def discover_vertex(self, u, g):
                    self.seen.append(u)
            vis = hollow(c, Vis())
            bfs.breadth_first_search(s, gv, vis=vis)
            c.eq(multiset(vis.seen), multiset(reach), "traversal", f"{what} from {s}")
        elif k == 6 and v:
            kw = {}
            if c.flag(0.4):
                v = [u for u in v if c.flag(0.6)]
                kw["vs"] = c.pick([list, iter, set, tuple])(v)
            if c.flag(0.4):
                e = [d for d in c.shuffle(gv.edges()) if c.flag(0.6)]
                kw["es"] = c.pick([list, iter, set, tuple])(e)
                e = [(g.source(d), g.target(d)) for d in e]
            dot = gv.to_dot(graphviz_style="", **kw)
            head = "digraph" if directed else "graph"
            c.check(dot.startswith(head + " G {"), "to_dot", f"{what}: {dot!r}")
            lines = [x.strip() for x in dot.split("\n")[1:-1]]
            vl = multiset(int(x.split()[0].rstrip(";")) for x in lines if "->" not in x and "--" not in x)
            el = multiset(tuple(int(y) for y in (lambda p: (p[0], p[2].rstrip(";")))(x.split()))
                          for x in lines if "->" in x or "--" in x)
            c.eq(vl, multiset(v), "to_dot", f"{what} vertices")
            c.eq(el, multiset(s[:2] for s in e), "to_dot", f"{what} edges")

    lst = Listings(c)
    for step in range(c.pick([8, 16, 40])):
        op = c.weighted([(14, "read"), (5, "combine"), (3, "leaf"), (5, "flip_v"), (5, "flip_e"), (2, "replace"), (4, "add_edge"),
                         (2, "add_vertex"), (2, "remove_edge"), (2, "remove_vertex"), (3, "fault"), (2, "threads"),
                         (3, "open"), (6, "step")])
        if op == "read":
            gv, m = c.pick(views)
            c.ev(op, views.index((gv, m)))
            read(gv, m, f"{kind} view")
        elif op == "leaf":
            new_leaf()
            c.ev(op)
        elif op == "combine":
            (g1, m1), (g2, m2) = c.pick(views), c.pick(views)
            o = c.pick("|&-")
            if o == "|" and (m1.has_sub or m2.has_sub):
                continue
            gv = g1 | g2 if o == "|" else g1 & g2 if o == "&" else g1 - g2
            views.append((gv, Comb(o, m1, m2)))
            if len(views) > 7:
                views.pop(0)
            c.ev(op, o)
            read(*views[-1], f"{kind} combined view")
        elif op == "flip_v":
            m = c.pick(leaves)
            if m.vhide is None or not vs:
                continue
            m.vhide ^= {c.pick(sorted(vs))}
            lst.mutated()
            c.ev(op)
        elif op == "flip_e":
            m = c.pick(leaves)
            if m.ehide is None or not es:
                continue
            m.ehide ^= {c.pick(sorted(es))}
            lst.mutated()
            c.ev(op)
        elif op == "replace":
            # the caller gives one of its views a new predicate
            gv, m = c.pick(views)
            if m not in leaves:
                continue
            if c.flag(0.5):
                m.vhide = {u for u in sorted(vs) if c.flag(0.35)}
                gv.pmap_vrelevant = cbv(m.vhide)
            else:
                m.ehide = {s for s in sorted(es) if c.flag(0.35)}
                gv.pmap_erelevant = cbe(m.ehide)
            lst.mutated()
            c.ev(op, views.index((gv, m)))
        elif op == "add_edge":
            add_edge()
            lst.mutated()
            c.ev(op, sorted(es))
        elif op == "add_vertex":
            gv = c.pick(views)[0]
            vs.add(gv.add_vertex() if c.flag(0.3) else g.add_vertex())
            lst.mutated()
            c.ev(op, len(vs))
        elif op == "remove_edge":
            l = sorted(g.edges(), key=lambda e: sig(g, e))
            if l:
                e = c.pick(l)
                es.discard(norm(sig(g, e)))
                g.remove_edge(e)
                lst.mutated()
                c.ev(op)
        elif op == "remove_vertex":
            if len(vs) < 2:
                continue
            u = c.pick(sorted(vs))
            g.remove_vertex(u)
            vs.discard(u)
            es -= {s for s in es if u in s[:2]}
            lst.mutated()
            c.ev(op, u)
        elif op == "fault":
            gv, m = c.pick(views)
            c.arm_callback(c.choose(6))
            r, x = c.call(c.pick([lambda: list(gv.vertices()), lambda: list(gv.edges()), gv.num_edges,
                                  lambda: [list(gv.out_edges(u)) for u in sorted(vs)]]))
            c.disarm_callback()
            c.ev(op, r)
            c.check(r == "ok" or isinstance(x, Injected), "error-propagation", f"{kind} view: {x!r}")
        elif op == "threads":
            s = Sched(c, c.pick([10, 40]), 40)
            for _ in range(2):
                gv, m = c.pick(views)
                s.spawn(lambda gv=gv, m=m: [read(gv, m, f"{kind} view read by threads") for _ in range(2)])
            c.ev(op)
            for x in s.run():
                if x.exc is not None:
                    raise x.exc
        elif op == "open":
            gv, m = c.pick(views)
            v, e = visible(m)
            if c.flag(0.5):
                lst.add(0, "view vertices", gv.vertices(), lambda x: x, v)
            else:
                lst.add(0, "view edges", gv.edges(), lambda x: norm(sig(g, x)), e)
            c.ev(op)
        elif op == "step":
            lst.step()
    lst.finish()
    for gv, m in views:
        v, e = visible(m)
        c.eq(multiset(gv.vertices()), multiset(v), "vertices", f"{kind} view")
        c.eq(multiset(norm(sig(g, x)) for x in gv.edges()), multiset(e), "edges", f"{kind} view")


SCENARIOS = [(1, "views", history)]
