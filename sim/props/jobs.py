"""A catalogue of library computations, each with an oracle that does not involve the library.

A World holds structures that several callers share and only read; make(c, w) draws one
computation: Job.run() may be called any number of times, by any thread, and Job.verify(x)
judges one result.  World.check() fails if a shared structure is not what it was."""
import json
from collections import defaultdict, deque
from fractions import Fraction

from .c04 import full_language, prefixes
from .c05 import lev
from .c09 import check_path, closure, laws, norm, reference
from .c10 import reach
from .c12 import Dfa, make_dfa, product, same_language, verdict
from .c13 import classes, deterministic, reachable, useful
from .c14 import PRINTABLE, Exact, size, tree, wide_leaf
from .c15 import AlgTable, One, parse as parse_expr, rpn, show, stream, tree_of
from .c19 import LABELS, html_label, parse as parse_dot
from .common import multiset, sig, words_upto
from ..kernel import Injected


class Job:
    def __init__(self, name, run, verify, shared=True):
        self.name, self.run, self.verify, self.shared = name, run, verify, shared


def edges_of(kind, g):
    return {u: [sig(g, e) for e in g.out_edges(u)] for u in g.vertices()}


class World:
    def __init__(self, c):
        self.c = c
        self.graphs, self.dfas, self.nfas, self.tries, self.trees = [], [], [], [], []
        for _ in range(c.int(1, 2)):
            self.graphs.append(self.graph())
        for _ in range(c.int(1, 2)):
            self.dfas.append(make_dfa(c, faulty=False, size=(1, 2, 3, 4)))
        self.nfas.append(self.nfa())
        for _ in range(2):
            self.tries.append(self.trie())
        self.trees.append(self.bk())
        self.before = self.snapshot()

    # ---- shared structures, each with its model
    def graph(self):
        c, lib = self.c, self.c.lib
        kind = c.pick(["DirectedGraph", "UndirectedGraph", "IncidenceGraph", "Automaton"])
        G = {"IncidenceGraph": lambda: lib.incidence_graph.IncidenceGraph,
             "Automaton": lambda: lib.automaton.Automaton}.get(kind, lambda: getattr(lib.graph, kind))()
        n = c.pick([1, 2, 4, 6])
        g, pairs = G(n), []
        for i in range(c.choose(2 * n + 2)):
            u, v = c.choose(n), c.choose(n)
            pairs.append((u, v))
            g.add_edge(u, v, i) if kind == "Automaton" else g.add_edge(u, v)
        c.ev("graph", kind, n, pairs)
        count = defaultdict(int)
        es = []
        for i, (u, v) in enumerate(pairs):
            if kind == "Automaton":
                es.append((u, v, i))
                continue
            a, b = (min(u, v), max(u, v)) if kind == "UndirectedGraph" else (u, v)
            es.append((a, b, count[a, b]))
            count[a, b] += 1
        succ = {u: set() for u in range(n)}
        for u, v in pairs:
            succ[u].add(v)
            if kind == "UndirectedGraph":
                succ[v].add(u)
        return {"g": g, "kind": kind, "n": n, "pairs": pairs, "edges": es, "succ": succ,
                "directed": kind != "UndirectedGraph"}

    def nfa(self):
        c, lib = self.c, self.c.lib
        M = lib.nfa
        n = c.pick([1, 2, 3])
        alpha = "ab"
        g, t = M.Nfa(n), set()
        for _ in range(c.choose(3 * n + 2)):
            x = (c.choose(n), c.choose(n), c.pick(list(alpha) * 2 + [M.EPSILON]))
            t.add(x)
            g.add_edge(*x)
        fin = {q for q in range(n) if c.flag(0.4)}
        for q in sorted(fin):
            g.set_final(q)
        ini = {c.choose(n)}
        g.set_initials(set(ini))
        c.ev("nfa", sorted(t), sorted(ini), sorted(fin))
        return {"g": g, "n": n, "t": t, "fin": fin, "ini": ini, "eps": M.EPSILON}

    def trie(self):
        c = self.c
        ws = {"".join(c.pick("ab") for _ in range(c.choose(4))) for _ in range(c.choose(5))}
        t = c.lib.trie.Trie()
        for w in sorted(ws):
            t.insert(w)
        c.ev("trie", sorted(ws))
        return t, ws

    def bk(self):
        c = self.c
        ws = ["".join(c.pick("abc") for _ in range(c.choose(4))) for _ in range(c.choose(6))]

        def metric(x, y):
            c.cb("metric")
            return lev(x, y)
        t = c.lib.bk_tree.make_bk_tree(ws, metric)
        c.ev("bk", ws)
        return t, ws

    def snapshot(self):
        c, out = self.c, []
        for x in self.graphs:
            g = x["g"]
            out.append((sorted(g.vertices()), sorted(sig(g, e) for e in g.edges()), g.num_vertices(), g.num_edges(),
                        sorted((u, sig(g, e)) for u in g.vertices() for e in g.out_edges(u))))
        for g, m, kind in self.dfas:
            out.append((sorted(g.vertices()), sorted((g.source(e), g.target(e), g.label(e)) for e in g.edges()),
                        g.initial(), sorted(g.finals())))
        for x in self.nfas:
            g = x["g"]
            out.append((sorted(g.vertices()), sorted((g.source(e), g.target(e), g.label(e)) for e in g.edges()),
                        sorted(c.lib.nfa.initials(g)), sorted(g.finals())))
        for g, ws in self.tries:
            out.append((sorted(g.vertices()), sorted((g.source(e), g.target(e), g.label(e)) for e in g.edges()),
                        g.initial(), sorted(g.finals())))
        for g, ws in self.trees:
            out.append((sorted(g.vertices()), sorted((g.source(e), g.target(e), g.label(e)) for e in g.edges()),
                        [g.element(u) for u in sorted(g.vertices())]))
        return out

    def check(self, where):
        self.c.eq(self.snapshot(), self.before, "input-changed", where)


# --------------------------------------------------------------------------- the catalogue

def own(c, w, pool, make):
    """A structure shared with the other callers, or one of its own kind made for this caller"""
    return c.pick(pool) if c.flag(0.6) else make()


def j_bfs(c, w):
    lib, x = c.lib, own(c, w, w.graphs, w.graph)
    g, s = x["g"], c.choose(x["n"])
    want, todo = {s: 0}, deque([s])
    while todo:
        u = todo.popleft()
        for v in x["succ"][u]:
            if v not in want:
                want[v] = want[u] + 1
                todo.append(v)
    B = lib.breadth_first_search

    class Vis(B.DefaultBreadthFirstSearchVisitor):
        def __init__(self):
            self.d = {s: 0}

        def tree_edge(self, e, g2):
            c.cb("visitor")
            u, v = g2.source(e), g2.target(e)
            self.d[v] = self.d[u] + 1

    def run():
        v = Vis()
        B.breadth_first_search(s, g, vis=v)
        return v.d
    return Job("bfs", run, lambda d: c.eq(d, want, "bfs", f"distances from {s} in {x['kind']} {x['pairs']}"))


def j_dfs(c, w):
    lib, x = c.lib, own(c, w, w.graphs, w.graph)
    g = x["g"]
    sources = None if c.flag(0.5) else {c.choose(x["n"]) for _ in range(c.int(1, 2))}
    vs = list(range(x["n"]))
    es = [(u, v, 0) for u in vs for v in x["succ"][u]]
    r, _ = reach(vs, es)
    region = set().union(*(r[s] for s in (vs if sources is None else sources)))
    D = lib.depth_first_search

    class Vis(D.DefaultDepthFirstSearchVisitor):
        def __init__(self):
            self.found, self.finished, self.edges = [], [], []

        def discover_vertex(self, u, g2):
            c.cb("visitor")
            self.found.append(u)

        def finish_vertex(self, u, g2):
            c.cb("visitor")
            self.finished.append(u)

        def examine_edge(self, e, g2):
            self.edges.append(sig(g2, e))
    want_e = multiset(s for u in region for s in edges_of(None, g)[u])

    def run():
        v = Vis()
        D.depth_first_search_graph(g, sources if sources is None else set(sources), vis=v)
        return v

    def verify(v):
        c.eq((sorted(v.found), sorted(v.finished)), (sorted(region), sorted(region)), "dfs", f"from {sources}")
        c.eq(multiset(v.edges), want_e, "dfs", f"edges examined from {sources}")
    return Job("dfs", run, verify)


def directed(c, w):
    pool = [x for x in w.graphs if x["directed"]]
    while True:
        x = c.pick(pool) if pool and c.flag(0.6) else w.graph()
        if x["directed"]:
            return x


def j_scc(c, w):
    lib, x = c.lib, directed(c, w)
    g, vs = x["g"], list(range(x["n"]))
    r, _ = reach(vs, x["edges"])
    want = {frozenset(v for v in vs if v in r[u] and u in r[v]) for u in vs}

    def run():
        comp = defaultdict(int)
        n = lib.strong_components.strong_components(g, lib.property_map.make_assoc_property_map(comp))
        return n, comp

    def verify(res):
        n, comp = res
        got = defaultdict(set)
        for u in vs:
            got[comp[u]].add(u)
        c.eq((n, {frozenset(s) for s in got.values()}), (len(want), want), "scc", str(x["pairs"]))
    return Job("scc", run, verify)


def j_topo(c, w):
    lib, x = c.lib, directed(c, w)
    g, vs = x["g"], list(range(x["n"]))
    r, _ = reach(vs, x["edges"])
    cyclic = any(u in r[v] for u, v in x["pairs"])

    def run():
        try:
            return list(lib.topological_sort.topological_sort(g))
        except RuntimeError as e:
            if isinstance(e, RecursionError):
                raise
            return "cyclic"

    def verify(o):
        c.eq(o == "cyclic", cyclic, "topo", str(x["pairs"]))
        if not cyclic:
            c.check(sorted(o) == vs and all(o.index(u) < o.index(v) for u, v in x["pairs"]), "topo", f"{o} for {x['pairs']}")
    return Job("topo", run, verify)


def weighted(c, w):
    x = own(c, w, w.graphs, w.graph)
    g, kind = x["g"], x["kind"]
    law = c.pick(laws())
    table = {norm(sig(g, e), kind): c.pick(law.weights) for e in sorted(g.edges(), key=lambda e: sig(g, e))}
    wt = lambda s: table[norm(s, kind)]
    out = edges_of(kind, g)
    lib = c.lib
    A = lib.algebra

    class Better(A.BinaryRelation):
        def __call__(self, a, b):
            c.cb("compare")
            return law.better(a, b)

    class Plus(A.BinaryOperator):
        def __call__(self, a, b):
            c.cb("combine")
            return law.plus(a, b)
    kw = {} if law.name in ("sum", "float") and c.flag(0.5) else \
        {"compare": Better(), "combine": Plus(), "zero": law.zero, "infty": law.infty}
    pm = lib.property_map.make_func_property_map(lambda e: wt(sig(g, e)))
    c.ev("weights", law.name, sorted(table.items()))
    return x, law, wt, out, kw, pm


def j_dijkstra(c, w):
    x, law, wt, out, kw, pm = weighted(c, w)
    lib, g, s = c.lib, x["g"], c.choose(x["n"])
    d, preds = reference(g, out, wt, s, law)
    infty = kw.get("infty", __import__("sys").maxsize)

    def run():
        vp, vd = defaultdict(set), defaultdict(lambda: infty)
        P = lib.property_map.make_assoc_property_map
        lib.dijkstra_shortest_paths.dijkstra_shortest_paths(g, s, pm, P(vp), P(vd), **kw)
        return vp, vd

    def verify(res):
        vp, vd = res
        for u in out:
            c.check(vd[u] == d[u] or (d[u] == law.infty and vd[u] == infty), "dijkstra",
                    f"{law.name}: distance of {u} from {s} is {vd[u]}, expected {d[u]}")
            if u != s and d[u] != law.infty:
                c.eq({sig(g, e) for e in vp[u]}, preds[u], "dijkstra", f"{law.name}: predecessors of {u} from {s}")
    return Job("dijkstra", run, verify)


def j_path(c, w):
    x, law, wt, out, kw, pm = weighted(c, w)
    lib, g = c.lib, x["g"]
    s, t = c.choose(x["n"]), c.choose(x["n"])
    d, preds = reference(g, out, wt, s, law)
    infty = kw.get("infty", __import__("sys").maxsize)

    def run():
        vp, vd = defaultdict(set), defaultdict(lambda: infty)
        P = lib.property_map.make_assoc_property_map
        return lib.dijkstra_shortest_paths.dijkstra_shortest_path(g, s, t, pm, P(vp), P(vd), **kw)

    def verify(path):
        if d[t] == law.infty:
            c.check(not path, "path", f"path {path} to unreachable {t}")
        else:
            check_path(c, g, path or [], s, t, d, wt, law, f"{law.name} from {s} to {t}")
    return Job("path", run, verify)


def j_cut(c, w):
    lib, x = c.lib, directed(c, w)
    g, s = x["g"], c.choose(x["n"])
    cutting = {e for e in x["edges"] if c.flag(0.3)}
    region, todo = {s}, [s]
    while todo:
        u = todo.pop()
        for e in x["edges"]:
            if e[0] == u and e not in cutting and e[1] not in region:
                region.add(e[1])
                todo.append(e[1])
    want = {e[1] for e in cutting if e[0] in region} | {u for u in region if not x["succ"][u]}

    def in_cut(e, g2):
        c.cb("predicate")
        return sig(g2, e) in cutting
    return Job("cut", lambda: lib.cut.cut(s, g, in_cut), lambda r: c.eq(set(r), want, "cut", f"from {s} {x['pairs']}"))


def j_copy(c, w):
    lib, x = c.lib, own(c, w, w.graphs, w.graph)
    g, s = x["g"], c.choose(x["n"])
    vs = list(range(x["n"]))
    r, _ = reach(vs, [(u, v, 0) for u in vs for v in x["succ"][u]])
    region = r[s]
    out = edges_of(None, g)
    G = type(g)
    auto = x["kind"] == "Automaton"
    extract = c.flag(0.4)
    want_e = multiset({norm(e, x["kind"]) for u in region for e in out[u]})

    def run():
        if extract:
            gv, ge = [], []

            def cv(u, g2):
                c.cb("callback")
                gv.append(u)

            def ce(e, g2):
                ge.append(sig(g2, e))
            lib.graph_extract.graph_extract(s, g, callback_vertex_extract=cv, callback_edge_extract=ce)
            return gv, ge
        dup, mp = G(0), {}

        def cd(u, g2, v, d2):
            c.cb("callback")
            mp[u] = v
        f = lib.automaton_copy.automaton_copy if auto else lib.graph_copy.graph_copy
        f(s, g, dup, callback_dup_vertex=cd)
        return dup, mp

    def verify(res):
        if extract:
            c.eq((sorted(res[0]), multiset(norm(e, x["kind"]) for e in res[1])), (sorted(region), want_e), "extract",
                 f"from {s} {x['pairs']}")
            return
        dup, mp = res
        c.eq(sorted(mp), sorted(region), "copy", f"vertices copied from {s} {x['pairs']}")
        c.eq(sorted(dup.vertices()), sorted(mp.values()), "copy", "vertices of the copy")
        lab = (lambda e: dup.label(e)) if auto else (lambda e: None)
        c.eq(multiset(norm((dup.source(e), dup.target(e), lab(e)), x["kind"]) for e in dup.edges()),
             multiset(norm((mp[e[0]], mp[e[1]], e[2] if auto else None), x["kind"]) for e in want_e), "copy", f"edges copied from {s} {x['pairs']}")
    return Job("extract" if extract else "copy", run, verify)


def j_view(c, w):
    lib, x = c.lib, own(c, w, w.graphs, w.graph)
    g = x["g"]
    vis = {u: not c.flag(0.3) for u in range(x["n"])}
    hid = {e for e in x["edges"] if c.flag(0.2)}
    P = lib.property_map.make_func_property_map
    key = lambda e: norm(sig(g, e), x["kind"])

    def pv(u):
        c.cb("predicate")
        return vis[u]

    def run():
        v = lib.graph_view.GraphView(g, P(pv), P(lambda e: key(e) not in hid))
        return sorted(v.vertices()), sorted(key(e) for e in v.edges()), \
            {u: sorted(key(e) for e in v.out_edges(u)) for u in range(x["n"]) if vis[u]}
    ok = lambda e: vis[e[0]] and vis[e[1]] and e not in hid
    want = (sorted(u for u in vis if vis[u]), sorted(e for e in x["edges"] if ok(e)),
            {u: sorted(e for e in x["edges"] if ok(e) and (e[0] == u or (not x["directed"] and e[1] == u)))
             for u in vis if vis[u]})
    return Job("view", run, lambda r: c.eq(r, want, "view", str(x["pairs"])))


def j_history(c, w):
    """A container of one's own, built by a fixed history"""
    lib = c.lib
    kind = c.pick(["DirectedGraph", "UndirectedGraph", "IncidenceGraph"])
    G = lib.incidence_graph.IncidenceGraph if kind == "IncidenceGraph" else getattr(lib.graph, kind)
    n = c.int(1, 4)
    ops, vs, es, nxt = [], list(range(n)), [], n
    for _ in range(c.int(2, 8)):
        op = c.weighted([(5, "edge"), (2, "vertex"), (2, "rmv"), (2, "rme")])
        if op == "edge" and vs:
            u, v = c.pick(vs), c.pick(vs)
            ops.append(("edge", u, v))
            es.append((u, v))
        elif op == "vertex":
            ops.append(("vertex",))
            vs.append(nxt)
            nxt += 1
        elif op == "rmv" and vs:
            u = c.pick(vs)
            ops.append(("rmv", u))
            vs.remove(u)
            es = [e for e in es if u not in e]
        elif op == "rme" and es:
            i = c.choose(len(es))
            ops.append(("rme", es.pop(i)))
    nrm = (lambda u, v: (min(u, v), max(u, v))) if kind == "UndirectedGraph" else (lambda u, v: (u, v))
    want = (sorted(vs), sorted(nrm(*e) for e in es), len(vs), len(es))

    def run():
        g, live = G(n), defaultdict(list)
        for o in ops:
            if o[0] == "edge":
                e, ok = g.add_edge(o[1], o[2])
                live[nrm(o[1], o[2])].append(e)
            elif o[0] == "vertex":
                g.add_vertex()
            elif o[0] == "rmv":
                g.remove_vertex(o[1])
                for k in list(live):
                    if o[1] in k:
                        del live[k]
            else:
                g.remove_edge(live[nrm(*o[1])].pop())
        return sorted(g.vertices()), sorted(nrm(g.source(e), g.target(e)) for e in g.edges()), \
            g.num_vertices(), g.num_edges()
    return Job("history", run, lambda r: c.eq(r, want, "history", f"{kind}({n}) {ops}"), False)


def step(x, qs, a):
    qs, todo = set(qs), list(qs)
    t, eps = x["t"], x["eps"]
    while todo:
        q = todo.pop()
        for p, r, b in t:
            if p == q and b == eps and r not in qs:
                qs.add(r)
                todo.append(r)
    if a is None:
        return qs
    return {r for p, r, b in t if p in qs and b == a}


def nfa_accepts(x, word):
    qs = x["ini"]
    for a in word:
        qs = step(x, qs, a)
    return bool(step(x, qs, None) & x["fin"])


PROBES = words_upto("ab", 4)


def j_nfa(c, w):
    x = own(c, w, w.nfas, w.nfa)
    ws = c.sample(PROBES, 4)
    return Job("nfa", lambda: {v: bool(x["g"].accepts(v)) for v in ws},
               lambda r: c.eq(r, {v: nfa_accepts(x, v) for v in ws}, "nfa", "accepted words"))


def j_moore(c, w):
    lib, x = c.lib, own(c, w, w.nfas, w.nfa)
    comp = c.flag(0.5)
    inc = c.flag(0.5)

    def run():
        kw = {"dfa": lib.incidence_automaton.IncidenceAutomaton(0)} if inc else {}
        return lib.moore_determination.moore_determination(x["g"], complete=comp, **kw)

    def verify(d):
        deterministic(c, d, "moore", "result")
        for v in PROBES:
            c.check(bool(d.accepts(v)) == nfa_accepts(x, v), "moore", f"{v!r} {sorted(x['t'])}")
    return Job("moore", run, verify)


def model_dfa(c, kind, acyclic):
    m = Dfa()
    n = c.pick([1, 2, 3, 5])
    alpha = "ab"
    for q in range(n):
        for a in alpha:
            if acyclic:
                if q + 1 < n and c.flag(0.7):
                    m.t[q, a] = c.int(q + 1, n - 1)
            else:
                m.t[q, a] = c.choose(n)
    m.fin = {q for q in range(n) if c.flag(0.4)}
    if acyclic and not useful(m):
        m.fin.add(0)
    keep = sorted(useful(m) if acyclic else reachable(m))
    to = {q: i for i, q in enumerate(keep)}
    d = Dfa()
    d.n, d.q0 = len(keep), to[0]
    d.t = {(to[q], a): to[r] for (q, a), r in m.t.items() if q in to and r in to}
    d.fin = {to[q] for q in m.fin if q in to}
    return d


def build(c, d):
    g = c.lib.incidence_automaton.IncidenceAutomaton(d.n)
    for (q, a), r in sorted(d.t.items()):
        g.add_edge(q, r, a)
    g.set_initial(d.q0)
    for q in sorted(d.fin):
        g.set_final(q)
    return g


def j_hopcroft(c, w):
    d = model_dfa(c, "inc", False)
    g = build(c, d)
    want = classes(d, range(d.n))
    before = (sorted(g.vertices()), sorted((g.source(e), g.target(e), g.label(e)) for e in g.edges()), sorted(g.finals()), g.initial())

    def verify(h):
        deterministic(c, h, "hopcroft", str(d))
        same_language(c, h, d, d, lambda a, b: a, "hopcroft", str(d))
        c.eq(h.num_vertices(), want, "hopcroft", f"states of the minimal automaton of {d}")
        c.eq((sorted(g.vertices()), sorted((g.source(e), g.target(e), g.label(e)) for e in g.edges()), sorted(g.finals()),
              g.initial()), before, "input-changed", "hopcroft")
    return Job("hopcroft", lambda: c.lib.hopcroft_minimize.hopcroft_minimize(g), verify)


def j_revuz(c, w):
    d = model_dfa(c, "inc", True)
    want = classes(d, range(d.n))

    def run():
        g = build(c, d)
        c.lib.revuz_minimize.revuz_minimize(g)
        return g

    def verify(h):
        same_language(c, h, d, d, lambda a, b: a, "revuz", str(d))
        c.eq(h.num_vertices(), want, "revuz", f"states of the minimal automaton of {d}")
    return Job("revuz", run, verify, False)


def j_prune(c, w):
    m = Dfa()
    m.n = n = c.pick([1, 2, 3, 5])
    for q in range(n):
        for a in "ab":
            if c.flag(0.5):
                m.t[q, a] = c.choose(n)
    m.fin = {q for q in range(n) if c.flag(0.4)}
    want = sorted(useful(m))

    def run():
        g = build(c, m)
        c.lib.prune_incidence_automaton.prune_incidence_automaton(g)
        return g

    def verify(g):
        c.eq(sorted(g.vertices()), want, "prune", str(m))
        c.eq(sorted((g.source(e), g.label(e), g.target(e)) for e in g.edges()),
             sorted((q, a, r) for (q, a), r in m.t.items() if q in want and r in want), "prune", str(m))
    return Job("prune", run, verify, False)


def two(c, w):
    pool = w.dfas
    mk = lambda: make_dfa(c, faulty=False, size=(1, 2, 3))
    return own(c, w, pool, mk), own(c, w, pool, mk)


def j_inclusion(c, w):
    (g1, m1, k1), (g2, m2, k2) = two(c, w)
    return Job("inclusion", lambda: c.lib.deterministic_inclusion.deterministic_inclusion(g1, g2),
               lambda r: c.eq(r, verdict(m1, m2), "inclusion", f"{m1} / {m2}"))


def j_product(c, w):
    (g1, m1, k1), (g2, m2, k2) = two(c, w)
    lib = c.lib
    inter = c.flag(0.5)

    def run():
        d = lib.automaton.Automaton()
        if inter:
            lib.deterministic_intersection.deterministic_intersection(g1, g2, d)
        else:
            lib.deterministic_union.deterministic_union(g1, g2, d)
        return d
    op = (lambda a, b: a and b) if inter else (lambda a, b: a or b)
    return Job("intersection" if inter else "union", run,
               lambda d: same_language(c, d, m1, m2, op, "product", f"{m1} / {m2}"))


def j_accepts(c, w):
    g, m, k = own(c, w, w.dfas, lambda: make_dfa(c, faulty=False, size=(1, 2, 3)))
    ws = ["".join(c.pick("abc") for _ in range(c.choose(6))) for _ in range(4)]

    def acc(v):
        q = m.q0
        for a in v:
            q = m.d(q, a)
            if q is None:
                return False
        return q in m.fin
    return Job("accepts", lambda: [(bool(g.accepts(v)), sorted(g.alphabet()), sorted(g.finals())) for v in ws],
               lambda r: c.eq(r, [(acc(v), sorted({a for _, a in m.t}) if not ("Node" in k) else r[0][1], sorted(m.fin)) for v in ws],
                              "accepts", f"{ws} {m}"))


def j_trie(c, w):
    lib = c.lib
    ws = ["".join(c.pick("ab") for _ in range(c.choose(5))) for _ in range(c.choose(6))]
    other = c.pick(w.tries) if c.flag(0.5) else None
    suf = "".join(c.pick("ab") for _ in range(c.choose(4))) if c.flag(0.3) else None

    def run():
        t = lib.trie.Trie()
        if suf is not None:
            t.insert(lib.suffix_trie.make_suffix_trie(suf))
        for v in ws:
            t.insert(v)
        if other:
            t.insert(other[0])
        return t
    words = set(ws) | (other[1] if other else set())
    if suf is not None:
        words |= {""} | {suf[i:j] for i in range(len(suf)) for j in range(i, len(suf) + 1)}
    return Job("trie", run, lambda t: (
        c.eq(full_language(t, "ab", 6), words, "trie", f"{ws} {suf} {other and other[1]}"),
        c.eq(t.num_vertices(), len(prefixes(words) | {""}), "trie", "states")), False)


def j_matching(c, w):
    lib = c.lib
    (t1, w1), (t2, w2) = w.tries if c.flag(0.6) else (w.trie(), w.trie())
    want = [len(prefixes(w1 | w2) | {""}) - len(w1 | w2), len(w1 - w2), len(w2 - w1), len(w1 & w2)]
    return Job("matching", lambda: list(lib.trie_matching.trie_matching(t1, t2)),
               lambda r: c.eq(r, want, "matching", f"{sorted(w1)} {sorted(w2)}"))


def j_bk(c, w):
    lib = c.lib
    words = lambda: ["".join(c.pick("abc") for _ in range(c.choose(4))) for _ in range(c.choose(6))]
    shared = c.flag(0.5)
    t0, ws = c.pick(w.trees) if shared else (None, words())
    q = "".join(c.pick("abc") for _ in range(c.choose(5)))
    dmax = c.pick([None, 0, 1, 2])

    def metric(x, y):
        c.cb("metric")
        return lev(x, y)

    def run():
        t = t0 or lib.bk_tree.make_bk_tree(ws, metric)
        return t.search(q) if dmax is None else t.search(q, dmax)

    def verify(r):
        best = min((lev(q, x) for x in ws), default=None)
        if best is None or (dmax is not None and best > dmax):
            c.eq(r, None, "bk", f"{q} in {ws} within {dmax}")
        else:
            c.check(r is not None and r[1] == best and r[0] in ws and lev(q, r[0]) == best, "bk", f"{q} in {ws} within {dmax}: {r}")
    return Job("bk", run, verify, shared)


def j_heap(c, w):
    lib = c.lib
    xs = [c.choose(9) for _ in range(c.choose(7))]
    more = [c.choose(9) for _ in range(c.choose(4))]
    rev = c.flag(0.5)

    def ge(a, b):
        c.cb("preorder")
        return a >= b

    def run():
        h = lib.heap.Heap(xs, lib.heap.compare_to_key(ge)) if rev else lib.heap.Heap(xs)
        for x in more:
            h.push(x)
        out = []
        while h:
            out.append(h.pop())
        return out
    want = sorted(xs + more, reverse=rev)
    return Job("heap", run, lambda r: c.eq([x[-1] if isinstance(x, tuple) else x for x in r], want, "heap", f"{xs} {more}"), False)


def j_regexp(c, w):
    lib = c.lib
    sigma = "ab"
    while True:
        t, n, *_ = tree(c, sigma, c.int(1, 3))
        if size(n) <= 6 and not wide_leaf(n):
            break
    form = c.pick(["nfa", "dfa", "minimal"])
    x = Exact(n, set(sigma if form == "minimal" else PRINTABLE))
    want = {v for v in PROBES if x.accepts(v)}
    c.ev("regexp", t, form)

    def run():
        if form == "nfa":
            g = lib.regexp.compile_nfa(t)
            return {v for v in PROBES if g.accepts(v)}
        if form == "dfa":
            g = lib.regexp.compile_dfa(t)
        else:
            T = lib.thompson_compile_nfa.thompson_compile_nfa(t, sigma)[0]
            g = lib.moore_determination.moore_determination(T, dfa=lib.incidence_automaton.IncidenceAutomaton(0), complete=True)
            g = lib.hopcroft_minimize.hopcroft_minimize(g)
        return {v for v in PROBES if g.accepts(v)}
    return Job("regexp", run, lambda r: c.eq(set(r), want, "regexp", f"{t!r} as {form}"), False)


def j_expression(c, w):
    x = One(c, c.flag(0.6))
    if len(x.toks) > 60:
        x = One(c, True)
    sy = x.sy
    what = c.pick(["postfix", "ast"] + (["compute"] if x.alg else []))
    want = x.rpn if what == "postfix" else x.tree
    if what == "compute":
        from .c15 import value
        try:
            v = value(x.tree)
        except (ZeroDivisionError, OverflowError, ValueError, TypeError):
            what, want = "postfix", x.rpn
        else:
            want = v
            if isinstance(v, complex) or abs(v) > 1e200:
                what, want = "postfix", x.rpn
    c.ev("expression", what, show(x.toks)[:200])

    def toks():
        for a in x.toks:
            c.cb("token")
            yield a

    def run():
        if what == "postfix":
            return list(sy.shunting_yard_postfix(toks(), x.t.ops))
        if what == "compute":
            return sy.shunting_yard_compute(toks(), map_operators=x.t.ops, tokenize=False)
        ast, root = sy.shunting_yard_ast(toks(), x.t.ops)
        return tree_of(ast, root)
    return Job("expression", run, lambda r: c.check(r == want or repr(r) == repr(want), "expression",
                                                    f"{what} of {show(x.toks)}: got {r!r}, expected {want!r}"), False)


def j_dot(c, w):
    lib, x = c.lib, own(c, w, w.graphs, w.graph)
    if x["kind"] == "Automaton":
        x = {**w.graph()} if not any(y["kind"] != "Automaton" for y in w.graphs) else \
            [y for y in w.graphs if y["kind"] != "Automaton"][0]
    if x["kind"] == "Automaton":
        return j_bfs(c, w)
    g = x["g"]
    color = {u: c.pick(["red", "blue", "a b"]) for u in range(x["n"])}
    label = {u: c.pick(LABELS) for u in range(x["n"])} if c.flag(0.5) else None
    style = c.flag(0.5)
    P = lib.property_map.make_func_property_map

    def fv(u):
        c.cb("property-map")
        return color[u]

    def run():
        kw = {"dg": {"rankdir": "TB"}, "dv": {"shape": "box"}, "de": {"style": "dotted"}} if style else {}
        return g.to_dot(dpv={"color": P(fv), "label": P(label.__getitem__)} if label else {"color": P(fv)}, **kw)

    def verify(dot):
        t, st, vs, es, _ = parse_dot(dot)
        c.eq(t, "digraph" if x["directed"] else "graph", "dot", "type")
        c.eq([(u, a.get("color")) for u, a in vs], [(str(u), color[u]) for u in range(x["n"])], "dot", "vertices")
        if label:
            c.eq([a.get("label") for u, a in vs], [html_label(str(label[u])) for u in range(x["n"])], "dot", "labels")
        nrm = (lambda u, v: (u, v)) if x["directed"] else (lambda u, v: (min(u, v), max(u, v)))
        c.eq(sorted(nrm(int(a), int(b)) for a, b, _ in es), sorted(nrm(*p) for p in x["pairs"]), "dot", "edges")
        c.eq((st["graph"].get("rankdir"), st["node"].get("shape"), st["edge"].get("style")),
             ("TB", "box", "dotted") if style else ("LR", "circle", None), "dot", "style")
    return Job("dot", run, verify)


def j_escape(c, w):
    s = "".join(c.pick(["a", "b", "<", ">", "&", "[", "{", "\u03b5", "xy"]) for _ in range(c.int(1, 8)))
    f = c.lib.graphviz_impl.graphviz_escape_html
    want = "".join({"&": "&#38;", "<": "&#60;", ">": "&#62;", "[": "&#91;", "{": "&#123;"}.get(a, a) for a in s)
    # nothing drawn above spells a supported tag but <b>
    want = want.replace("&#60;b&#62;", "<b>")
    return Job("escape", lambda: f(s), lambda r: c.eq(r, want, "escape", repr(s)), False)


def j_read(c, w):
    lib = c.lib
    n = c.int(1, 5)
    dirg = c.flag(0.6)
    color = [c.pick(["red", "x y", ""]) for _ in range(n)]
    pairs = [(c.choose(n), c.choose(n)) for _ in range(c.choose(6))]
    arc = "->" if dirg else "--"
    lines = ["%s G {" % ("digraph" if dirg else "graph")] + [f'{u} [color="{color[u]}"];' for u in range(n)] + \
        [f'{u} {arc} {v} [width="{i}"];' for i, (u, v) in enumerate(pairs)] + ["}"]

    def feed():
        for a in lines:
            c.cb("line")
            yield a

    def run():
        g = (lib.graph.DirectedGraph if dirg else lib.graph.UndirectedGraph)(0)
        vm, em = defaultdict(str), defaultdict(str)
        P = lib.property_map.make_assoc_property_map
        lib.graphviz.read_graphviz_dp(feed(), g, {"color": P(vm)}, {"width": P(em)})
        nrm = (lambda u, v: (u, v)) if dirg else (lambda u, v: (min(u, v), max(u, v)))
        return [(u, vm[u]) for u in g.vertices()], sorted((nrm(g.source(e), g.target(e)), em[e]) for e in g.edges())
    nrm = (lambda u, v: (u, v)) if dirg else (lambda u, v: (min(u, v), max(u, v)))
    want = (list(enumerate(color)), sorted((nrm(u, v), str(i)) for i, (u, v) in enumerate(pairs)))
    return Job("read", run, lambda r: c.eq(r, want, "read", "\n".join(lines)), False)


def j_json(c, w):
    lib, x = c.lib, own(c, w, w.graphs, w.graph)
    if x["kind"] == "Automaton":
        return j_dfs(c, w)
    g = x["g"]
    size_ = {u: c.choose(9) for u in range(x["n"])}

    def fv(u):
        c.cb("property-map")
        return size_[u]

    def run():
        dp = lib.graph_dp.GraphDp(g, dpv={"size": lib.property_map.make_func_property_map(fv)})
        return json.loads(dp.to_json())

    def verify(j):
        c.eq([(v["id"], v["size"]) for v in j["vertices"]], [(u, str(size_[u])) for u in range(x["n"])], "json", "vertices")
        nrm = (lambda u, v: (u, v)) if x["directed"] else (lambda u, v: (min(u, v), max(u, v)))
        c.eq(sorted(nrm(e["source"], e["target"]) for e in j["edges"]), sorted(nrm(*p) for p in x["pairs"]), "json", "edges")
    return Job("json", run, verify)


def osa(a, b, swap=True, sub=True):
    d = [[0] * (len(b) + 1) for _ in range(len(a) + 1)]
    for i in range(len(a) + 1):
        for j in range(len(b) + 1):
            if not i or not j:
                d[i][j] = i + j
                continue
            x = min(d[i - 1][j], d[i][j - 1]) + 1
            if a[i - 1] == b[j - 1]:
                x = min(x, d[i - 1][j - 1])
            elif sub:
                x = min(x, d[i - 1][j - 1] + 1)
            if swap and i > 1 and j > 1 and a[i - 1] == b[j - 2] and a[i - 2] == b[j - 1]:
                x = min(x, d[i - 2][j - 2] + 1)
            d[i][j] = x
    return d[-1][-1]


DISTANCES = {
    "levenshtein": ("levenshtein_distance", "LevenshteinDistance", "levenshtein_distance", "levenshtein_distance_naive",
                    lambda a, b: osa(a, b, swap=False)),
    "damerau": ("damerau_levenshtein_distance", "DamerauLevenshteinDistance", "damerau_levenshtein_distance",
                "damerau_levenshtein_distance_naive", osa),
    "lcs": ("lcs_distance", "LcsDistance", "lcs_distance", "lcs_distance_naive", lambda a, b: osa(a, b, swap=False, sub=False)),
}


def j_distance(c, w):
    mod, cls, fn, naive, ref = DISTANCES[c.pick(sorted(DISTANCES))]
    a, b = ("".join(c.pick("abc") for _ in range(c.choose(6))) for _ in range(2))
    f = getattr(getattr(c.lib, mod), fn)
    return Job("distance", lambda: f(a, b), lambda r: c.eq(r, ref(a, b), "distance", f"{fn}({a!r}, {b!r})"), False)


def j_reverse(c, w):
    lib = c.lib
    n = c.int(1, 4)
    pairs = [(c.choose(n), c.choose(n)) for _ in range(c.choose(7))]
    twice = c.flag(0.5)

    def run():
        g = lib.incidence_graph.IncidenceGraph(n)
        for p in pairs:
            g.add_edge(*p)
        lib.reverse.reverse_graph(g)
        if twice:
            lib.reverse.reverse_graph(g)
        return {u: (g.out_degree(u), g.in_degree(u)) for u in range(n)}
    o = {u: sum(a == u for a, _ in pairs) for u in range(n)}
    i = {u: sum(b == u for _, b in pairs) for u in range(n)}
    want = {u: (o[u], i[u]) if twice else (i[u], o[u]) for u in range(n)}
    return Job("reverse", run, lambda r: c.eq(r, want, "reverse", str(pairs)), False)


CATALOGUE = [j_bfs, j_dfs, j_scc, j_topo, j_dijkstra, j_path, j_cut, j_copy, j_view, j_history, j_nfa, j_moore, j_hopcroft,
             j_revuz, j_prune, j_inclusion, j_product, j_accepts, j_trie, j_matching, j_bk, j_heap, j_regexp, j_expression,
             j_dot, j_escape, j_read, j_json, j_distance, j_reverse]


def make(c, w, kinds=CATALOGUE):
    j = c.pick(kinds)(c, w)
    c.probe("job-" + j.name)
    return j
