"""C18: graph descriptions are read back exactly, line by line"""
from .common import hollow, pick_abort
from ..kernel import Injected, Sched, SimKeyboardInterrupt, SimMemoryError

RULE = ("One run = 1 to 4 graph descriptions, generated line by line or exported by the library from a random graph "
        "with attributes, read into graphs of every kind from strings, lists and line streams; the stream stalls "
        "(other readers run), fails at any line, or a visitor, property map or abort cuts the reader; before every "
        "line the target graph is compared with what the lines handed out so far describe.")
REAL = ["read_graphviz", "read_graphviz_dp", "ReadGraphvizVisitor", "ReadGraphvizDpVisitor", "GraphvizOptsParser",
        "to_dot", "GraphDp", "DirectedGraph", "UndirectedGraph", "IncidenceGraph"]
STUB = ["line streams, visitors and property maps of the caller (fault-injecting)"]
RUNS = {"quick": 24000, "thorough": 400000}
ASSUMPTIONS = ["attributes are written key=\"value\" and a value without ampersand, line break or final backslash, its double "
               "quotes being escaped; labels, which the library exports as HTML, are not read back"]
KEYS = ["color", "shape", "width", "k_1", "xlabel", "URL", "K", "k", "_background"]
VALUES = ["red", "", "a b", "x;y", "1.5", "#ff0000", "a=b", "[z]", "<i>", "0 -> 1", "it's", "\u03b5\u2192", "];", "0;", "/", "a/b", "->", "a\\nb", "\\N", " x  y ", "\u00dcn", "\u0130K=", "URL", "a\"b", "\"", "\"; K=\"x"]
ELSE = ["digraph G {", "graph G {", "}", "", "// comment", "graph [rankdir=\"LR\"]; node [shape=\"box\"]; edge [color=\"red\"];",
        "rankdir=LR;", "node [color=\"0\"];", "{", "x1 -> x2;", "subgraph cluster_0 {"]


def quoted(v):
    return v.replace('"', '\\"')


def attrs(c):
    return {k: c.pick(VALUES) for k in c.sample(KEYS, c.pick([0, 0, 1, 2, 3]))}


class Desc:
    """Lines and, for each, the item it describes: None, ('v', alias, attrs) or ('e', a, b, attrs)"""

    def __init__(self, c, directed):
        self.lines, self.items = [], []
        aliases = []
        arc = "->" if directed else "--"
        ids = c.sample(list(range(12)) + [100, 4000], 9)
        for _ in range(c.int(1, 14)):
            k = c.weighted([(4, "v"), (5, "e"), (2, "else")])
            sp = lambda: c.pick(["", " ", "  ", "\t"])
            if k == "v" and ids:
                a = ids.pop()
                aliases.append(a)
                d = attrs(c)
                self.add(f"{sp()}{a}{sp()}{self.opts(c, d)}{sp()};", ("v", a, d))
            elif k == "e" and aliases:
                a, b = c.pick(aliases), c.pick(aliases)
                d = attrs(c)
                self.add(f"{sp()}{a}{sp()}{arc}{sp()}{b}{sp()}{self.opts(c, d)}{sp()};", ("e", a, b, d))
            else:
                self.add(sp() + c.pick(ELSE), None)

    def add(self, line, item):
        self.lines.append(line)
        self.items.append(item)

    @staticmethod
    def opts(c, d):
        if not d:
            return c.pick(["", "", "[]"])
        sep = c.pick(["; ", ";", " ", ", "])
        return "[" + sep.join(f'{k}="{quoted(v)}"' for k, v in d.items()) + "]"


def graph_kind(c):
    lib = c.lib
    k = c.pick(["DirectedGraph", "UndirectedGraph", "IncidenceGraph"])
    return k, (lib.incidence_graph.IncidenceGraph if k == "IncidenceGraph" else getattr(lib.graph, k))


class Reader:
    """One reading of a description into a graph"""

    def __init__(self, c, desc, G, directed, keys=None):
        self.c, self.desc, self.G, self.directed = c, desc, G, directed
        self.g = G(0)
        # what was there before
        n = c.pick([0, 0, 1, 3])
        for _ in range(n):
            self.g.add_vertex()
        self.base_e = 0
        if n and c.flag(0.5):
            self.g.add_edge(0, n - 1)
            self.base_e = 1
        self.n = n
        self.keys = KEYS if keys is None else keys
        self.given = 0
        self.mode = c.weighted([(5, "dp"), (3, "visitor"), (2, "plain")])
        self.src = c.weighted([(3, "stream"), (2, "list"), (2, "text")])
        self.log = []

    def state(self):
        g = self.g
        return (list(g.vertices()), [(g.source(e), g.target(e)) for e in g.edges()])

    def expected(self, upto):
        vs, es, al = list(range(self.n)), [], {}
        va, ea = {}, []
        for it in self.desc.items[:upto]:
            if it is None:
                continue
            if it[0] == "v":
                al[it[1]] = len(vs)
                va[len(vs)] = it[2]
                vs.append(len(vs))
            else:
                es.append((al[it[1]], al[it[2]]))
                ea.append(it[3])
        return vs, es, va, ea

    def norm(self, u, v):
        return (u, v) if self.directed or u <= v else (v, u)

    def verify(self, upto, where, partial=False):
        """The graph holds exactly the first items (partial: possibly also a part of the next one)"""
        c = self.c
        vs, es = self.state()
        es = sorted(self.norm(*e) for e in es)
        ok = []
        for k in ([upto, upto + 1] if partial else [upto]):
            wv, we, va, ea = self.expected(k)
            we = sorted([self.norm(*e) for e in we] + [self.norm(0, self.n - 1)] * self.base_e)
            ok.append((wv, we))
        c.check((vs, es) in ok, "graph", f"{where}, after {upto} lines: vertices {vs} edges {es}, expected {ok[0][0]} {ok[0][1]}")
        if self.mode == "dp" and not partial:
            wv, we, va, ea = self.expected(upto)
            for k in self.keys:
                got = {u: x for u, x in self.vmaps[k].items()}
                c.eq(got, {u: d[k] for u, d in va.items() if k in d}, "attributes", f"{where}: vertex attribute {k}")
                got = sorted((self.norm(self.g.source(e), self.g.target(e)), x) for e, x in self.emaps[k].items())
                want = sorted((self.norm(*e), d[k]) for e, d in zip(self.expected(upto)[1], ea) if k in d)
                c.eq(got, want, "attributes", f"{where}: edge attribute {k}")
        if self.mode == "visitor" and not partial:
            al = {}
            want = []
            for line, it in zip(self.desc.lines[:upto], self.desc.items):
                if it is None:
                    want.append(("else", line.strip()))
                elif it[0] == "v":
                    want.append(("v", str(it[1]), it[2]))
                else:
                    want.append(("e", str(it[1]), str(it[2]), it[3]))
            c.eq(self.log, want, "visitor", where)

    def lines(self, fail=None):
        """The stream: every request for a line is an observation point"""
        c = self.c
        for i, x in enumerate(self.desc.lines):
            self.verify(i, "line stream")
            c.cb("line")
            if i == fail:
                c.fault("line-stream")
                raise c.injected("line stream")
            self.given = i + 1
            yield x + c.pick(["", "\n"])
        self.verify(len(self.desc.lines), "line stream")

    def run(self, fail=None, faulty_maps=False):
        c, lib = self.c, self.c.lib
        gz = lib.graphviz
        me = self
        if fail is not None:
            self.src = "stream"
        if self.src == "stream":
            src = self.lines(fail)
        elif self.src == "list":
            src = list(self.desc.lines)
        else:
            src = "\n".join(self.desc.lines) + (c.pick(["", "\n"]) if self.desc.lines[-1] else "\n")
        if self.mode == "plain":
            r = gz.read_graphviz(src, self.g)
        elif self.mode == "dp":
            from collections import defaultdict
            pm = lib.property_map
            self.vmaps = {k: defaultdict(str) for k in self.keys}
            self.emaps = {k: defaultdict(str) for k in self.keys}

            class PMap(pm.ReadWritePropertyMap):
                def __init__(self, d):
                    self.d = d

                def __getitem__(self, k):
                    return self.d[k]

                def __setitem__(self, k, v):
                    c.cb("pmap")
                    self.d[k] = v
            mk = PMap if faulty_maps or c.flag(0.3) else pm.make_assoc_property_map
            dpv, dpe = {k: hollow(c, mk(d)) for k, d in self.vmaps.items()}, {k: hollow(c, mk(d)) for k, d in self.emaps.items()}
            keys = (list(dpv), list(dpe))
            r = gz.read_graphviz_dp(src, self.g, dpv, dpe)
            c.eq((list(dpv), list(dpe)), keys, "input", "property map dictionaries")
        else:
            class Vis(gz.ReadGraphvizVisitor):
                def on_vertex(self, line, alias, g, opts):
                    c.cb("on_vertex")
                    c.check(g is me.g, "visitor", "graph")
                    me.log.append(("v", alias, {}))
                    return super().on_vertex(line, alias, g, opts)

                def on_edge(self, line, a, b, g, opts):
                    c.cb("on_edge")
                    me.log.append(("e", a, b, {}))
                    return super().on_edge(line, a, b, g, opts)

                def on_else(self, line):
                    c.cb("on_else")
                    me.log.append(("else", line.strip()))

                def on_install_vertex_property(self, u, g, key, value):
                    self.install(u == g.num_vertices() - 1, key, value)

                def on_install_edge_property(self, e, g, key, value):
                    self.install(e in list(g.edges()), key, value)

                def install(self, ok, key, value):
                    c.cb("on_install")
                    c.check(ok, "visitor", f"attribute {key} installed on another item")
                    me.log[-1][-1][key] = value
            r = gz.read_graphviz(src, self.g, hollow(c, Vis()))
        self.given = len(self.desc.lines)
        self.verify(self.given, f"{self.mode} from {self.src}")
        return r


def read(c):
    jobs = []
    for _ in range(c.int(1, 4)):
        k, G = graph_kind(c)
        directed = k != "UndirectedGraph"
        # either connector is read, whatever the graph
        d = Desc(c, directed if c.flag(0.8) else not directed)
        c.ev("description", k, d.lines)
        jobs.append((d, G, directed))
    for _ in range(c.int(2, 5)):
        d, G, directed = c.pick(jobs)
        r = Reader(c, d, G, directed)
        op = c.weighted([(6, "run"), (3, "stream-fails"), (3, "callback-fails"), (2, "threads"), (2, "abort"), (1, "unknown")])
        c.ev(op, r.mode, r.src)
        if op == "run":
            r.run()
        elif op == "stream-fails":
            st, x = c.call(lambda: r.run(fail=c.choose(len(d.lines))))
            c.check(st == "exc" and isinstance(x, Injected), "error-propagation", f"failing stream: {st} {x!r}")
            r.verify(r.given, "after the stream failed")
        elif op == "callback-fails":
            c.arm_callback(c.choose(12))
            st, x = c.call(lambda: r.run(faulty_maps=True))
            c.disarm_callback()
            if st == "exc":
                if not isinstance(x, Injected):
                    raise x
                if r.src == "stream":
                    r.verify(max(r.given - 1, 0), "after a callback failed", partial=True)
        elif op == "threads":
            s = Sched(c, c.pick([8, 30, 100]), 80)
            for _ in range(c.int(2, 3)):
                d2, G2, dir2 = c.pick(jobs)
                s.spawn(Reader(c, d2, G2, dir2).run)
            for t in s.run():
                if t.exc is not None:
                    raise t.exc
        elif op == "abort":
            exc = pick_abort(c)
            c.arm_abort(c.int(1, 300), exc)
            try:
                r.run()
            except (SimKeyboardInterrupt, SimMemoryError) as e:
                c.fault("abort-" + type(e).__name__)
                c.disarm_abort()
                # an abort may fall inside the insertion of one item
                vs, es = r.state()
                c.check(vs[:r.n] == list(range(r.n)), "graph", "earlier vertices are lost")
            c.disarm_abort()
            r = Reader(c, d, G, directed)
            r.run()
        else:
            # an edge between vertices that were not described is an error and adds nothing
            bad = Desc.__new__(Desc)
            k = c.choose(len(d.lines) + 1)
            bad.lines = d.lines[:k] + ["4001 -> 0;"] + d.lines[k:]
            bad.items = d.items[:k] + [None] + d.items[k:]
            r.desc, r.src = bad, "stream"
            st, x = c.call(r.run)
            c.check(st == "exc" and isinstance(x, Exception), "unknown-vertex", "an edge between unknown vertices is accepted")
            c.eq(r.given, k + 1, "unknown-vertex", "lines read")
            r.verify(k, "after a failure", partial=False) if r.mode != "visitor" else None


def round_trip(c):
    """Written by the library and read back"""
    lib = c.lib
    from collections import defaultdict
    k, G = graph_kind(c)
    directed = k != "UndirectedGraph"
    g = G(c.int(1, 6))
    for _ in range(c.choose(9)):
        vs = list(g.vertices())
        if vs:
            g.add_edge(c.pick(vs), c.pick(vs))
    for _ in range(c.choose(3)):
        vs = list(g.vertices())
        if len(vs) > 1 and c.flag(0.5):
            g.remove_vertex(c.pick(vs))
        else:
            es = list(g.edges())
            if es:
                g.remove_edge(c.pick(es))
    pm = lib.property_map
    vkeys, ekeys = c.sample(KEYS, c.choose(4)), c.sample(KEYS, c.choose(4))
    vals = VALUES + [None]
    va = {x: {u: c.pick(vals) for u in g.vertices()} for x in vkeys}
    ea = {x: {e: c.pick(vals) for e in g.edges()} for x in ekeys}
    dpv = {x: pm.make_func_property_map(lambda u, x=x: va[x][u]) for x in vkeys}
    dpe = {x: pm.make_func_property_map(lambda e, x=x: ea[x][e]) for x in ekeys}
    vs, es = list(g.vertices()), list(g.edges())
    how = c.choose(4)
    if how == 0:
        dot = g.to_dot(dpv=dpv, dpe=dpe)
    elif how == 1:
        dot = lib.graph_dp.GraphDp(g, dpv, dpe).to_dot()
    elif how == 2:
        dot = lib.graphviz.to_dot(g, dpv=dpv, dpe=dpe, dg={"rankdir": "LR"}, dv={"shape": "box"}, extra_style="splines=true")
    else:
        vs = [u for u in vs if c.flag(0.7)]
        es = [e for e in es if g.source(e) in vs and g.target(e) in vs and c.flag(0.8)]
        es = c.shuffle(es)
        dot = lib.graphviz.to_dot(g, vs=iter(vs), es=iter(es), dpv=dpv, dpe=dpe)
    c.ev("written", k, how, dot[:300])
    c.check(dot.startswith(("digraph" if directed else "graph") + " "), "graph", "type of the exported graph")
    alias = {u: i for i, u in enumerate(vs)}

    def check(h, vm, em):
        c.eq(list(h.vertices()), list(range(len(vs))), "round-trip", "vertices of " + dot)
        nrm = lambda e: e if directed else tuple(sorted(e))
        want = sorted(nrm((alias[g.source(e)], alias[g.target(e)])) for e in es)
        c.eq(sorted(nrm((h.source(e), h.target(e))) for e in h.edges()), want, "round-trip", "edges of " + dot)
        for x in vkeys:
            c.eq(dict(vm[x]), {alias[u]: va[x][u] for u in vs if va[x][u] is not None}, "round-trip", f"vertex attribute {x} of {dot}")
        for x in ekeys:
            c.eq(sorted((nrm((h.source(e), h.target(e))), y) for e, y in em[x].items()),
                 sorted((nrm((alias[g.source(e)], alias[g.target(e)])), ea[x][e]) for e in es if ea[x][e] is not None),
                 "round-trip", f"edge attribute {x} of {dot}")

    def one(stream):
        h = G(0)
        vm = {x: defaultdict(str) for x in vkeys}
        em = {x: defaultdict(str) for x in ekeys}

        def feed():
            for x in dot.splitlines():
                c.cb("line")
                yield x
        lib.graphviz.read_graphviz_dp(
            feed() if stream else dot, h,
            {x: pm.make_assoc_property_map(d) for x, d in vm.items()} or None,
            {x: pm.make_assoc_property_map(d) for x, d in em.items()} or None)
        check(h, vm, em)
    c.ev("graph", vs, [(g.source(e), g.target(e)) for e in es], sorted(va.items()), sorted(ekeys))
    one(c.flag(0.5))
    c.ev("read back")
    if c.flag(0.3):
        s = Sched(c, c.pick([10, 40]), 60)
        for _ in range(2):
            s.spawn(lambda: one(True))
        for t in s.run():
            if t.exc is not None:
                raise t.exc


SCENARIOS = [(3, "read", read), (2, "round-trip", round_trip)]
