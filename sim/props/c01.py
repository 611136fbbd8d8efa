"""C01: graph containers refine a labelled multigraph"""
from .common import Either, Listings, aborted_read, descriptors, multiset, sig

RULE = ("One run = one seeded history of 20 to 90 operations issued by 3 interleaved clients on one container "
        "(mutations, refused mutations, stale descriptors, aborted reads, listings consumed step by step), checked "
        "after every step against an executable multigraph model.")
REAL = ["DirectedGraph", "UndirectedGraph", "IncidenceGraph", "free functions of pybgl.graph"]
STUB = ["none (set iteration order and abort instants are simulator-controlled)"]
RUNS = {"quick": 24000, "thorough": 320000}


class Model:
    def __init__(self, n, directed):
        self.directed = directed
        self.vs = set(range(n))
        self.next = n
        self.es = set()     # (u, v, key)

    def norm(self, s):
        u, v, k = s
        return (u, v, k) if self.directed or u <= v else (v, u, k)

    def out(self, u):
        r = [(a, b, k) for a, b, k in self.es if a == u]
        if not self.directed:
            r += [(u, a, k) for a, b, k in self.es if b == u and a != u]
        return r

    def inc(self, u):
        if not self.directed:
            return self.out(u)
        return [(a, b, k) for a, b, k in self.es if b == u]

    def between(self, u, v):
        return [s for s in self.out(u) if s[1] == v]


def observe(c, g, m, kind, deep):
    g.toss()
    c.eq(set(g.vertices()), m.vs, "vertices", kind)
    c.eq(len(list(g.vertices())), len(m.vs), "vertices", kind + " duplicates")
    c.eq(g.num_vertices(), len(m.vs), "num_vertices", kind)
    c.eq(multiset(m.norm(sig(g, e)) for e in g.edges()), multiset(m.es), "edges", kind)
    c.eq(g.num_edges(), len(m.es), "num_edges", kind)
    c.eq(bool(g.has_vertex()), bool(m.vs), "has_vertex", kind)
    c.eq(bool(g.has_edge()), bool(m.es), "has_edge", kind)
    if deep:
        es = list(g.edges())
        es = c.sample(es, min(8, len(es)))
        c.eq(sorted(map(lambda e: sig(g, e), sorted(es))), sorted(sig(g, e) for e in es), "descriptor", kind + " sorted edges")
        descriptors(c, es + list(g.edges())[:8], lambda e: m.norm(sig(g, e)), kind)
    vs = sorted(m.vs)
    if not deep and len(vs) > 3:
        vs = c.sample(vs, 3)
    for u in vs:
        c.eq(multiset(sig(g, e) for e in g.out_edges(u)), multiset(m.out(u)), "out_edges", f"{kind} {u}")
        c.eq(g.out_degree(u), len(m.out(u)), "out_degree", f"{kind} {u}")
        if kind != "DirectedGraph":
            c.eq(multiset(m.norm(sig(g, e)) for e in g.in_edges(u)), multiset(m.norm(s) for s in m.inc(u)),
                 "in_edges", f"{kind} {u}")
            c.eq(g.in_degree(u), len(m.inc(u)), "in_degree", f"{kind} {u}")
        for v in vs:
            b = m.between(u, v)
            e, found = g.edge(u, v)
            c.eq(bool(found), len(b) == 1, "edge-found", f"{kind} edge({u}, {v}) with {len(b)} parallel edges")
            if found:
                c.eq(m.norm(sig(g, e)), m.norm(b[0]), "edge", f"{kind} edge({u}, {v})")
            else:
                c.eq(e, None, "edge", f"{kind} edge({u}, {v}) not found")


def history(c, kind):
    lib = c.lib
    mod = lib.graph
    n = c.pick([0, 1, 2, 3, 5, 8])
    G = lib.incidence_graph.IncidenceGraph if kind == "IncidenceGraph" else getattr(mod, kind)
    g = Either(c, G(n), "graph")
    m = Model(n, kind != "UndirectedGraph")
    strict = kind != "DirectedGraph"
    c.ev("new", kind, n)
    c.eq(bool(mod.is_directed(g)), m.directed, "directed", kind)
    held = [[], [], []]      # descriptors held by each client, possibly stale
    lst = Listings(c)
    nops = c.pick([20, 40, 90])
    for step in range(nops):
        who = c.choose(3)
        op = c.weighted([(22, "add_edge"), (9, "add_vertex"), (9, "remove_edge"), (5, "remove_listed"),
                         (4, "remove_vertex"), (1, "clear"), (4, "bad_add_edge"), (2, "bad_remove_vertex"),
                         (3, "stale"), (8, "open"), (14, "step"), (4, "aborted")])
        fun = c.flag(0.4)
        if op == "add_vertex":
            u = mod.add_vertex(g) if fun else g.add_vertex()
            c.check(u not in m.vs and u == m.next, "vertex-id", f"{kind}: add_vertex returned {u}, expected {m.next}")
            m.vs.add(u)
            m.next = u + 1
            lst.mutated()
            c.ev(who, op, u)
        elif op == "add_edge":
            if not m.vs:
                continue
            u, v = c.pick(sorted(m.vs)), c.pick(sorted(m.vs))
            if c.flag(0.15):
                v = u
            e, added = mod.add_edge(u, v, g) if fun else g.add_edge(u, v)
            c.ev(who, op, u, v)
            c.check(added is True, "add_edge", f"{kind}: add_edge({u}, {v}) returned {added!r}")
            s = m.norm(sig(g, e))
            c.eq(s[:2], m.norm((u, v, 0))[:2], "add_edge", f"{kind} add_edge({u}, {v}) descriptor")
            c.eq((mod.source(e, g), mod.target(e, g)), (g.source(e), g.target(e)), "descriptor", kind)
            c.check(s not in m.es, "add_edge", f"{kind}: add_edge returned the descriptor of an existing edge {s}")
            m.es.add(s)
            c.check(e in set(g.edges()), "descriptor", f"{kind}: {sig(g, e)}, just added, is not listed as such")
            held[who].append(e)
            lst.mutated()
        elif op in ("remove_edge", "stale"):
            if not held[who]:
                continue
            i = c.choose(len(held[who]))
            e = held[who][i]
            s = m.norm(sig(g, e))
            if s in m.es:
                if op == "stale":
                    continue
                (mod.remove_edge(e, g) if fun else g.remove_edge(e))
                m.es.discard(s)
                lst.mutated()
                c.ev(who, op, s)
            else:
                r, x = c.call(g.remove_edge, e)      # may be refused, must change nothing
                c.fault("stale-descriptor")
                c.ev(who, "stale", s, r)
                lst.mutated()
        elif op == "remove_listed":
            # remove through a descriptor obtained from a listing
            u = c.pick(sorted(m.vs)) if m.vs else None
            es = list(g.edges()) if u is None or c.flag(0.5) else list(g.out_edges(u))
            if kind == "IncidenceGraph" and u is not None and c.flag(0.4):
                es = list(g.in_edges(u))
            if not es:
                continue
            es.sort(key=lambda e: sig(g, e))
            e = c.pick(es)
            s = m.norm(sig(g, e))
            c.check(s in m.es, "listing", f"{kind}: listed edge {s} does not exist")
            if c.flag(0.3):
                held[who].append(e)      # keep it: may become stale
            g.remove_edge(e)
            m.es.discard(s)
            lst.mutated()
            c.ev(who, op, s)
        elif op == "remove_vertex":
            if not m.vs:
                continue
            u = c.pick(sorted(m.vs))
            (mod.remove_vertex(u, g) if fun else g.remove_vertex(u))
            m.vs.discard(u)
            m.es = {s for s in m.es if u not in s[:2]}
            lst.mutated()
            c.ev(who, op, u)
        elif op == "clear":
            g.clear()
            m.vs, m.es, m.next = set(), set(), 0
            lst.mutated()
            c.ev(who, op)
            u = g.add_vertex()
            c.check(u not in m.vs, "vertex-id", f"{kind}: id {u} used twice")
            m.vs.add(u)
            m.next = u + 1
            held = [[], [], []]
        elif op == "bad_add_edge":
            bad = m.next + c.choose(3)
            gone = sorted(set(range(m.next)) - m.vs)
            if gone and c.flag(0.6):
                bad = c.pick(gone)
            ok = c.pick(sorted(m.vs)) if m.vs else bad
            pair = (bad, ok)
            if strict and c.flag(0.6):
                pair = (ok, bad)
            r, x = c.call(g.add_edge, *pair)
            c.fault("unknown-vertex")
            c.ev(who, op, pair, r)
            c.check(r == "exc", "refusal", f"{kind}: add_edge{pair} accepted although a vertex does not exist")
            lst.mutated()
        elif op == "bad_remove_vertex":
            bad = m.next + c.choose(2)
            gone = sorted(set(range(m.next)) - m.vs)
            if gone and c.flag(0.6):
                bad = c.pick(gone)
            r, x = c.call(g.remove_vertex, bad)
            c.fault("unknown-vertex")
            c.ev(who, op, bad, r)
            lst.mutated()
        elif op == "open":
            k = c.choose(4)
            if k == 0:
                lst.add(who, kind + ".vertices", mod.vertices(g) if fun else g.vertices(), lambda x: x, m.vs)
            elif k == 1:
                lst.add(who, kind + ".edges", mod.edges(g) if fun else g.edges(),
                        lambda e: m.norm(sig(g, e)), m.es)
            elif m.vs:
                u = c.pick(sorted(m.vs))
                if k == 2 or kind == "DirectedGraph":
                    lst.add(who, f"{kind}.out_edges({u})", mod.out_edges(u, g) if fun else g.out_edges(u),
                            lambda e: sig(g, e), m.out(u))
                else:
                    lst.add(who, f"{kind}.in_edges({u})", mod.in_edges(u, g) if fun else g.in_edges(u),
                            lambda e: m.norm(sig(g, e)), [m.norm(s) for s in m.inc(u)])
            c.ev(who, op, k)
            continue
        elif op == "step":
            lst.step()
            continue
        elif op == "aborted":
            u = c.pick(sorted(m.vs)) if m.vs else 0
            fn = c.pick([lambda: list(g.edges()), lambda: list(g.out_edges(u)), g.num_edges,
                         g.num_vertices, lambda: g.edge(u, u), lambda: g.out_degree(u)])
            r, _ = aborted_read(c, fn, 40)
            c.ev(who, op, r)
        observe(c, g, m, kind, False)
    lst.finish()
    observe(c, g, m, kind, True)


SCENARIOS = [(3, "undirected", lambda c: history(c, "UndirectedGraph")),
             (3, "incidence", lambda c: history(c, "IncidenceGraph")),
             (2, "directed", lambda c: history(c, "DirectedGraph"))]
