"""C11: copies, extractions, reversals and prunings are exactly the sub-structure asked for"""
from collections import defaultdict
from .common import hollow, multiset, pick_abort, sig, words_upto
from .c02 import FaultyMap
from .c08 import make_graph, snapshot
from ..kernel import Injected, Sched, SimKeyboardInterrupt, SimMemoryError

RULE = ("One run = one random graph or automaton and a seeded history of copies, extractions, reversals and prunings "
        "with caller-supplied relevance maps and callbacks that may fail at any call; computations are aborted and "
        "run again or run as concurrent simulated threads; results are compared with a reachability model through "
        "the vertex and edge maps they return.")
REAL = ["graph_copy", "automaton_copy", "graph_extract", "reverse_graph", "find_reachable_vertices",
        "prune_incidence_automaton", "depth_first_search", "DirectedGraph", "UndirectedGraph", "IncidenceGraph",
        "Automaton", "IncidenceAutomaton", "NodeAutomaton", "GraphView"]
STUB = ["caller-supplied relevance and final maps, callbacks (fault-injecting)"]
RUNS = {"quick": 24000, "thorough": 320000}


def build(c):
    lib = c.lib
    kind = c.pick(["DirectedGraph", "IncidenceGraph", "UndirectedGraph", "Automaton", "IncidenceAutomaton", "NodeAutomaton"])
    n = c.pick([1, 2, 3, 5, 8])
    trans = []
    if "Graph" in kind:
        g = (lib.incidence_graph.IncidenceGraph if kind == "IncidenceGraph" else getattr(lib.graph, kind))(n)
        for _ in range(c.choose(2 * n + 3)):
            u, v = c.choose(n), c.choose(n)
            g.add_edge(u, v)
            trans.append((u, v))
    elif kind == "NodeAutomaton":
        g = lib.node_automaton.NodeAutomaton(0)
        for _ in range(n):
            g.add_vertex(c.pick("abc"))
        for _ in range(c.choose(2 * n + 3)):
            u, v = c.choose(n), c.choose(n)
            if g.add_edge(u, v)[1]:
                trans.append((u, v, g.symbol(v)))
    else:
        g = (lib.automaton.Automaton if kind == "Automaton" else lib.incidence_automaton.IncidenceAutomaton)(n)
        for _ in range(c.choose(2 * n + 3)):
            u, v, a = c.choose(n), c.choose(n), c.pick("abc")
            g.add_edge(u, v, a)
            trans.append((u, v, a))
    c.ev("graph", kind, n, trans)
    if c.flag(0.2):
        # nothing is hidden: a view is as good as the graph itself
        c.ev("view")
        g = lib.graph_view.GraphView(g)
    return g, kind, n


def job(c, g, kind, n):
    lib = c.lib
    P = lib.property_map
    auto = "Automaton" in kind
    s = c.choose(n)
    vrel = {u: not c.flag(0.2) for u in range(n)}
    norm = (lambda x: (min(x[:2]), max(x[:2]), x[2])) if kind == "UndirectedGraph" else (lambda x: x)
    es = sorted(sig(g, e) for u in range(n) for e in g.out_edges(u))       # undirected edges from both ends
    erel = {e: not c.flag(0.2) for e in sorted(set(map(norm, es)))}
    use_v, use_e = c.flag(0.6), c.flag(0.6)
    ok = lambda e: (not use_e or erel[norm(e)]) and (not use_v or vrel[e[1]])
    region, todo = {s}, [s]
    while todo:
        u = todo.pop()
        for e in es:
            if e[0] == u and ok(e) and e[1] not in region:
                region.add(e[1])
                todo.append(e[1])
    want_e = {norm(e) for e in es if e[0] in region and ok(e)}

    def fv(u):
        c.cb("relevance")
        return vrel[u]

    def fe(e):
        c.cb("relevance")
        return erel[norm(sig(g, e))]
    kw = {}
    if use_v:
        kw["pmap_vrelevant"] = hollow(c, P.make_func_property_map(fv))
    if use_e:
        kw["pmap_erelevant"] = hollow(c, P.make_func_property_map(fe))
    got_v, got_e = [], []
    what = f"{kind} from {s}"
    op = c.pick(["copy", "extract", "reach"])
    c.ev(op, s, sorted(region), sorted(want_e))
    if op == "reach":
        src = {s} | {c.choose(n) for _ in range(c.choose(3))}
        r, todo = set(src), list(src)
        while todo:
            u = todo.pop()
            for e in es:
                if e[0] == u and e[1] not in r:
                    r.add(e[1])
                    todo.append(e[1])
        return (lambda: lib.prune_incidence_automaton.find_reachable_vertices(g, src),
                lambda x: c.eq(x, r, "reachable", f"{kind} from {src}"))
    if op == "extract":
        def cv(u, g2):
            c.cb("callback")
            got_v.append(u)

        def ce(e, g2):
            c.cb("callback")
            got_e.append(norm(sig(g, e)))

        def run():
            lib.graph_extract.graph_extract(s, g, callback_vertex_extract=hollow(c, cv), callback_edge_extract=hollow(c, ce), **kw)

        def verify(_):
            c.eq(multiset(got_v), multiset(region), "extract-vertices", what)
            c.eq(multiset(got_e), multiset(want_e), "extract-edges", what)
        return run, verify
    # copy
    same = {"DirectedGraph": lambda: lib.graph.DirectedGraph,
            "IncidenceGraph": lambda: lib.incidence_graph.IncidenceGraph,
            "UndirectedGraph": lambda: lib.graph.UndirectedGraph,
            "Automaton": lambda: lib.automaton.Automaton,
            "IncidenceAutomaton": lambda: lib.incidence_automaton.IncidenceAutomaton}
    peers = ["Automaton", "IncidenceAutomaton"] if auto else [kind] if kind == "UndirectedGraph" else \
        ["DirectedGraph", "IncidenceGraph"]
    dup = same[c.pick(peers)]()(0)
    extra = c.choose(3)
    for _ in range(extra):
        dup.add_vertex()
    mv, me = defaultdict(int), defaultdict(int)
    give_maps, give_emap = c.flag(0.7), c.flag(0.7)
    if give_maps:
        kw["pmap_vertices"] = hollow(c, P.make_assoc_property_map(mv))
    if give_emap:
        kw["pmap_edges"] = hollow(c, P.make_assoc_property_map(me))
    give_cb = c.flag(0.7)

    def cv(u, g2, ud, gd):
        c.cb("callback")
        c.check(g2 is g and gd is dup, "copy-callback", "the callback got another graph")
        got_v.append((u, ud))

    def ce(e, g2, ed, gd):
        c.cb("callback")
        c.check(g2 is g and gd is dup, "copy-callback", "the callback got another graph")
        got_e.append((norm(sig(g, e)), norm(sig(dup, ed))))
    if give_cb:
        kw["callback_dup_vertex"], kw["callback_dup_edge"] = hollow(c, cv), hollow(c, ce)
    f = lib.automaton_copy.automaton_copy if auto else lib.graph_copy.graph_copy

    def run():
        f(s, g, dup, **kw)

    def verify(_):
        new = set(dup.vertices()) - set(range(extra))
        c.eq(len(new), len(region), "copy-vertices", what)
        c.eq(dup.num_edges(), len(want_e), "copy-edges", what)
        vmap = dict(mv) if give_maps else None
        if give_cb:
            c.eq(len(got_v), len(set(u for u, _ in got_v)), "copy-callback", f"{what}: vertex copied twice")
            if vmap is None:
                vmap = dict(got_v)
            c.eq(dict(got_v), vmap, "copy-callback", f"{what}: vertex map")
            c.eq(sorted(e for e, _ in got_e), sorted(want_e), "copy-callback", f"{what}: edges copied")
        if vmap is None:
            return
        c.eq(set(vmap), region, "copy-vertices", f"{what}: vertices copied")
        c.eq(set(vmap.values()), new, "copy-vertices", f"{what}: image of the vertex map")
        if auto:
            want = multiset((vmap[u], vmap[v], a) for u, v, a in want_e)
        else:
            want = multiset(norm((vmap[u], vmap[v], 0))[:2] for u, v, _ in want_e)
        got = [norm(sig(dup, e)) for e in dup.edges()]
        c.eq(multiset(got if auto else [x[:2] for x in got]), want, "copy-edges", what)
        if give_emap:
            # whichever end it is listed from, an edge of the copied part has its copy
            for u in region:
                for e in g.out_edges(u):
                    if norm(sig(g, e)) in want_e:
                        c.check(e in me and norm(sig(dup, me[e]))[:2] == norm((vmap[u], vmap[g.target(e)], 0))[:2],
                                "copy-edge-map", f"{what}: {sig(g, e)} listed from {u} was copied as {me.get(e)}")
        for pairs in ([{(norm(sig(g, e)), norm(sig(dup, x))) for e, x in me.items()}] if give_emap else []) + \
                ([got_e] if give_cb else []):
            c.eq(sorted(e for e, _ in pairs), sorted(want_e), "copy-edge-map", what)
            c.eq(len({x for _, x in pairs}), len(pairs), "copy-edge-map", f"{what}: two edges have the same copy")
            for e, x in pairs:
                c.check(x[:2] == norm((vmap[e[0]], vmap[e[1]], 0))[:2] and (not auto or x[2] == e[2]), "copy-edge-map",
                        f"{what}: {e} was copied as {x}")
    return run, verify


def copies(c):
    g, kind, n = build(c)
    before = snapshot(g)
    budget = 40000 + 2800 * (n + 1) * (n + 2)
    for _ in range(c.int(1, 4)):
        mode = c.weighted([(5, "plain"), (4, "fail"), (3, "abort"), (4, "threads")])
        if mode == "threads":
            s = Sched(c, c.pick([8, 30, 120]), 100)
            vs = []
            for _ in range(c.int(2, 3)):
                run, verify = job(c, g, kind, n)
                vs.append(verify)
                s.spawn(run)
            with c.limit(3 * budget, "concurrent copies"):
                tasks = s.run()
            for x, v in zip(tasks, vs):
                if x.exc is not None:
                    raise x.exc
                v(x.result)
        else:
            for attempt in range(2):
                run, verify = job(c, g, kind, n)
                exc = None
                if attempt == 0 and mode == "fail":
                    c.arm_callback(c.choose(4 * n + 3))
                elif attempt == 0 and mode == "abort":
                    exc = pick_abort(c)
                    c.arm_abort(c.int(1, 80 * (n + 1)), exc)
                done = False
                try:
                    with c.limit(budget, "copy"):
                        res = run()
                    done = True
                except (Injected, SimKeyboardInterrupt, SimMemoryError) as e:
                    if exc is not None:
                        c.check(e is exc, "error-propagation", repr(e))
                        c.fault("abort-" + type(e).__name__)
                c.disarm_callback()
                c.disarm_abort()
                c.ev(mode, "done" if done else "aborted")
                if done:
                    verify(res)
                    break
        c.eq(snapshot(g), before, "graph-changed", mode)


def reversal(c):
    lib = c.lib
    kind = c.pick(["IncidenceGraph", "IncidenceAutomaton"])
    n = c.pick([1, 2, 4, 7])
    if kind == "IncidenceGraph":
        g = lib.incidence_graph.IncidenceGraph(n)
        for _ in range(c.choose(2 * n + 3)):
            g.add_edge(c.choose(n), c.choose(n))
    else:
        g = lib.incidence_automaton.IncidenceAutomaton(n)
        for _ in range(c.choose(2 * n + 3)):
            g.add_edge(c.choose(n), c.choose(n), c.pick("abc"))
    base = sorted(((g.source(e), g.target(e), e.distinguisher) for e in g.edges()), key=repr)
    c.ev("reverse", kind, n, base)
    flips = 0
    for _ in range(c.int(2, 8)):
        op = c.pick(["reverse", "read", "search", "abort"])
        c.ev(op)
        es = [(v, u, k) for u, v, k in base] if flips % 2 else list(base)
        if op == "reverse":
            lib.reverse.reverse_graph(g)
            flips += 1
        elif op == "read":
            for u in range(n):
                out = list(g.out_edges(u))
                c.check(all(g.source(e) == u for e in out), "reverse", f"{kind}: out edge of {u} from elsewhere")
                c.eq(multiset((g.source(e), g.target(e), e.distinguisher) for e in out),
                     multiset(e for e in es if e[0] == u), "reverse", f"{kind} flipped {flips} times, out edges of {u}")
                c.eq(multiset((g.source(e), g.target(e), e.distinguisher) for e in g.in_edges(u)),
                     multiset(e for e in es if e[1] == u), "reverse", f"{kind} flipped {flips} times, in edges of {u}")
        else:
            s = c.choose(n)
            r, todo = {s}, [s]
            while todo:
                u = todo.pop()
                for e in es:
                    if e[0] == u and e[1] not in r:
                        r.add(e[1])
                        todo.append(e[1])
            exc = None
            if op == "abort":
                exc = pick_abort(c)
                c.arm_abort(c.int(1, 60 * n), exc)
            try:
                x = lib.prune_incidence_automaton.find_reachable_vertices(g, {s})
                c.disarm_abort()
                c.eq(x, r, "reverse", f"{kind} flipped {flips} times, reachable from {s}")
            except (SimKeyboardInterrupt, SimMemoryError) as e:
                c.disarm_abort()
                c.check(e is exc, "error-propagation", repr(e))
                c.fault("abort-" + type(e).__name__)


def pruning(c):
    lib = c.lib
    n = c.pick([1, 2, 3, 5, 8])
    G = lib.incidence_automaton
    given = FaultyMap(c, False) if c.flag(0.4) else None
    g = G.IncidenceAutomaton(n) if given is None else G.IncidenceAutomaton(n, pmap_vfinal=given)
    t = {}
    for _ in range(c.choose(2 * n + 3)):
        u, v, a = c.choose(n), c.choose(n), c.pick("ab")
        if (u, a) not in t:
            t[u, a] = v
            g.add_edge(u, v, a)
    q0 = c.choose(n)
    fin = {u for u in range(n) if c.flag(0.35)}
    g.set_initial(q0)
    for u in sorted(fin):
        g.set_final(u)
    # clients mutate before pruning
    alive = set(range(n))
    for _ in range(c.choose(3)):
        op = c.pick(["rm", "unfinal", "edge"])
        u = c.pick(sorted(alive))
        if op == "rm" and len(alive) > 1 and (u != q0 or c.flag(0.1)):
            g.remove_vertex(u)
            alive.discard(u)
            if u == q0:
                q0 = None
            fin.discard(u)
            t = {k: v for k, v in t.items() if k[0] != u and v != u}
        elif op == "unfinal":
            g.set_final(u, False)
            fin.discard(u)
        elif op == "edge":
            v, a = c.pick(sorted(alive)), c.pick("ab")
            if (u, a) not in t:
                t[u, a] = v
                g.add_edge(u, v, a)
    c.ev("prune", sorted(t.items()), q0, sorted(fin))

    def closure(src, rev):
        seen, todo = set(src), list(src)
        while todo:
            u = todo.pop()
            for (x, a), y in t.items():
                p, q = (y, x) if rev else (x, y)
                if p == u and q not in seen:
                    seen.add(q)
                    todo.append(q)
        return seen
    keep = closure({q0}, False) & closure(fin, True) if q0 is not None else set()

    def listing():
        edges = lambda es: sorted((g.source(e), g.target(e), g.label(e)) for e in es)
        return (sorted(g.vertices()), edges(g.edges()), g.initial(), g.finals(),
                [(u, edges(g.out_edges(u)), edges(g.in_edges(u))) for u in sorted(g.vertices())])

    def lang(w):
        q = q0
        for a in w:
            q = t.get((q, a))
            if q is None:
                return False
        return q in fin
    words = words_upto("ab", 4)
    for w in words:
        c.eq(g.accepts(w), lang(w), "language", f"{w!r} before pruning")
    for round_ in range(c.int(1, 2)):
        if given is not None and alive and c.flag(0.6):
            # the finals cannot be read: nothing is pruned
            before = listing()
            c.arm_callback(c.choose(len(before[0])))
            try:
                lib.prune_incidence_automaton.prune_incidence_automaton(g)
                failed = False
            except Injected:
                failed = True
            c.disarm_callback()
            if failed:
                c.eq(listing(), before, "prune-failing-map", "automaton after a failed pruning")
        with c.limit(20000 + 2000 * n * n, "prune"):
            lib.prune_incidence_automaton.prune_incidence_automaton(g)
        c.eq(set(g.vertices()), keep, "prune-states", f"round {round_}")
        want = {(u, v, a) for (u, a), v in t.items() if u in keep and v in keep}
        c.eq({(g.source(e), g.target(e), g.label(e)) for e in g.edges()}, want, "prune-transitions", "")
        for u in keep:
            c.eq({(g.source(e), g.target(e), g.label(e)) for e in g.in_edges(u)}, {x for x in want if x[1] == u},
                 "prune-transitions", f"into {u}")
        c.eq(g.finals(), fin & keep, "prune-finals", "")
        c.eq(g.initial(), q0 if q0 in keep else None, "prune-initial", "")
        alive = keep
        for w in words:
            c.eq(g.accepts(w), lang(w), "language", f"{w!r} after pruning")


SCENARIOS = [(6, "copies", copies), (2, "reversal", reversal), (3, "pruning", pruning)]
