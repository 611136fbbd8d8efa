"""C12: product constructions decide and build the right languages"""
from collections import defaultdict, deque
from .common import alphabet_of, hollow, multiset, pick_abort
from .c02 import FaultyMap
from ..kernel import Injected, Sched, SimKeyboardInterrupt, SimMemoryError, Violation

RULE = ("One run = two or three random deterministic automata of random kinds (shared between clients) and 2 to 5 "
        "product computations on them (synchronized traversal watched online by a protocol automaton, inclusion, "
        "intersection, union), alone, cut by a failing visitor, final-state map or asynchronous abort, or as "
        "concurrent simulated threads; built languages are compared state by state with the model product.")
REAL = ["parallel_breadth_first_search", "deterministic_inclusion", "deterministic_intersection",
        "deterministic_union", "ProductMixin", "Automaton", "IncidenceAutomaton", "NodeAutomaton",
        "IncidenceNodeAutomaton", "Trie"]
STUB = ["caller-supplied visitors, push filters, color maps and final-state maps (fault-injecting)"]
RUNS = {"quick": 24000, "thorough": 320000}
ALPHA = "abcde"


class Dfa:
    """Model: partial transition function"""

    def __init__(self):
        self.t, self.q0, self.fin, self.n = {}, 0, set(), 0

    def d(self, q, a):
        return self.t.get((q, a))

    def sig(self, q):
        return {a for p, a in self.t if p == q}

    def __repr__(self):
        return f"q0={self.q0} F={sorted(self.fin)} {sorted(self.t.items())}"


def snapshot(g):
    return (sorted(g.vertices()), sorted((g.source(e), g.target(e), g.label(e)) for e in g.edges()), g.initial())


def make_dfa(c, kinds=None, faulty=True, size=(1, 1, 2, 3, 4, 6), finals=0.35, alpha=None, orphans=False):
    """(library automaton, model, kind)"""
    lib = c.lib
    m = Dfa()
    alpha = alpha or ALPHA[:c.weighted([(3, 1), (3, 2), (3, 3), (2, 5)])]
    kind = c.pick(kinds or ["Automaton", "IncidenceAutomaton", "NodeAutomaton", "IncidenceNodeAutomaton", "Trie"])
    if kind == "Trie" and not isinstance(alpha, str):
        kind = "Automaton"
    if kind == "Trie":
        g = lib.trie.Trie()
        for _ in range(c.choose(5)):
            w = "".join(c.pick(alpha) for _ in range(c.choose(4)))
            g.insert(w)
        m.n = g.num_vertices()
        m.q0 = g.initial()
        m.t = {(g.source(e), g.label(e)): g.target(e) for e in g.edges()}
        m.fin = set(g.finals())
        c.ev("trie", m)
        return g, m, kind
    n = m.n = c.pick(list(size))
    node = "Node" in kind
    mods = {"Automaton": lambda: lib.automaton.Automaton,
            "IncidenceAutomaton": lambda: lib.incidence_automaton.IncidenceAutomaton,
            "NodeAutomaton": lambda: lib.node_automaton.NodeAutomaton,
            "IncidenceNodeAutomaton": lambda: lib.incidence_node_automaton.IncidenceNodeAutomaton}
    G = mods[kind]()
    m.q0 = c.choose(n) if c.flag(0.3) else 0
    fin = {q for q in range(n) if c.flag(finals)}
    kw = {}
    fm = None
    if faulty and c.flag(0.25):
        fm = kw["pmap_vfinal"] = FaultyMap(c, False)
    g = G(n, **kw)
    symbol = {}
    if node:
        for q in range(n):
            symbol[q] = c.pick(alpha)
            g.pmap_vsymbol[q] = symbol[q] if q else symbol[q]
    full = c.flag(0.3) and not node
    for q in range(n):
        for a in alpha:
            if full or c.flag(0.6):
                r = c.choose(n)
                if node:
                    cand = [x for x in range(n) if symbol[x] == a]
                    if not cand:
                        continue
                    r = c.pick(cand)
                    g.add_edge(q, r)
                else:
                    g.add_edge(q, r, a)
                m.t[q, a] = r
    for q in sorted(fin):
        g.set_final(q)
    g.set_initial(m.q0)
    m.fin = fin
    if orphans and c.flag(0.12):
        # no initial state: the empty language
        if c.flag(0.5) or node:
            g.set_initial(m.q0, False)
        else:
            x = g.add_vertex()
            g.set_final(x, c.flag(0.5))
            g.set_initial(x)
            g.remove_vertex(x)
        m.q0 = None
    c.ev("dfa", kind, m)
    return g, m, kind


def product(m1, m2):
    """Reachable pairs, with their breadth-first distance"""
    s = (m1.q0, m2.q0)
    dist, todo = {s: 0}, deque([s])
    while todo:
        p = todo.popleft()
        for a in syms(m1, m2, p):
            r = move(m1, m2, p, a)
            if r not in dist:
                dist[r] = dist[p] + 1
                todo.append(r)
    return dist


def syms(m1, m2, p):
    return (m1.sig(p[0]) if p[0] is not None else set()) | (m2.sig(p[1]) if p[1] is not None else set())


def move(m1, m2, p, a):
    return (m1.d(p[0], a) if p[0] is not None else None, m2.d(p[1], a) if p[1] is not None else None)


def same_language(c, g, m1, m2, op, kind, what):
    """Walk the library automaton and the model product together: exact language equality"""
    seen = set()
    todo = [(g.initial(), (m1.q0, m2.q0), ())]
    if g.num_vertices() == 0:
        todo = [(None, (m1.q0, m2.q0), ())]
    while todo:
        q, p, w = todo.pop()
        if (q, p) in seen:
            continue
        seen.add((q, p))
        want = op(p[0] is not None and p[0] in m1.fin, p[1] is not None and p[1] in m2.fin)
        got = q is not None and bool(g.is_final(q))
        c.check(got == want, kind, f"{what}: word {w!r} accepted={got}, expected {want}")
        for a in sorted(syms(m1, m2, p) | (set(g.sigma(q)) if q is not None else set())):
            r = g.delta(q, a) if q is not None else None
            todo.append((r, move(m1, m2, p, a), w + (a,)))


def verdict(m1, m2):
    lt = gt = False
    for q1, q2 in product(m1, m2):
        f1, f2 = q1 in m1.fin, q2 in m2.fin
        lt, gt = lt or (f2 and not f1), gt or (f1 and not f2)
    return None if lt and gt else 1 if lt else -1 if gt else 0


class PairWatch:
    """Online protocol of the synchronized traversal"""

    def __init__(self, c, g1, m1, g2, m2, sources, blocked, what):
        self.c, self.g1, self.g2, self.m1, self.m2, self.what = c, g1, g2, m1, m2, what
        self.blocked = blocked
        self.sources = list(dict.fromkeys(sources))
        self.todo_src = set(self.sources)
        self.color = {}
        self.dist = {p: 0 for p in self.sources}
        self.cur, self.last, self.phase, self.left = None, 0, "idle", set()
        self.pend = None
        # reachability through pairs that are pushed, with distances
        d, todo = {p: 0 for p in self.sources}, deque(self.sources)
        while todo:
            p = todo.popleft()
            for a in syms(m1, m2, p):
                r = move(m1, m2, p, a)
                if r not in d:
                    d[r] = d[p] + 1
                    if not self.blocked(r):
                        todo.append(r)
        self.d = d

    def need(self, cond, msg):
        if not cond:
            raise Violation("pair-protocol", f"{self.what}: {msg}")

    def tick(self, g1, g2):
        self.need(g1 is self.g1 and g2 is self.g2, "the visitor got other automata")
        self.c.cb("visitor")

    def start_vertex(self, q1, g1, q2, g2):
        p = (q1, q2)
        self.need(self.cur is None and p in self.todo_src, f"start_vertex{p}")
        self.todo_src.discard(p)
        self.color[p] = 1
        self.tick(g1, g2)

    def examine_vertex(self, q1, g1, q2, g2):
        p = (q1, q2)
        self.need(self.cur is None and not self.todo_src, f"pair {p} examined at the wrong time")
        self.need(self.color.get(p) == 1, f"pair {p} examined while not gray")
        self.need(p in self.sources or not self.blocked(p), f"pair {p} examined, its push was refused")
        self.need(self.d[p] >= self.last, f"pair {p} at distance {self.d[p]} examined after distance {self.last}")
        self.last, self.cur, self.left = self.d[p], p, set(syms(self.m1, self.m2, p))
        self.phase = "idle"
        self.tick(g1, g2)

    def examine_symbol(self, q1, g1, q2, g2, a):
        self.need((q1, q2) == self.cur and self.phase == "idle", f"symbol {a} of {(q1, q2)} at the wrong time")
        self.need(a in self.left, f"symbol {a} of {self.cur} examined twice or absent")
        self.left.discard(a)
        self.phase, self.pend = "symbol", a
        self.tick(g1, g2)

    def edges(self, e1, g1, e2, g2, a, name):
        self.need(a == self.pend, f"{name} on symbol {a} instead of {self.pend}")
        r = move(self.m1, self.m2, self.cur, a)
        for e, g, q, x in ((e1, self.g1, self.cur[0], r[0]), (e2, self.g2, self.cur[1], r[1])):
            if q is None:
                self.need(e is None, f"{name}: got an edge from the absent state of {self.cur}")
            else:
                self.need(e is not None and (g.source(e), g.target(e)) == (q, x),
                          f"{name}: wrong edge from {self.cur} on {a}")
        return r

    def examine_edge(self, e1, g1, e2, g2, a):
        self.need(self.phase == "symbol", "examine_edge at the wrong time")
        self.edges(e1, g1, e2, g2, a, "examine_edge")
        self.phase = "edge"
        self.tick(g1, g2)

    def _target(self, e1, g1, e2, g2, a, name, color, nxt):
        self.need(self.phase == "edge", f"{name} at the wrong time")
        r = self.edges(e1, g1, e2, g2, a, name)
        self.need(self.color.get(r, 0) == color, f"{name} from {self.cur} to {r}, which has color {self.color.get(r, 0)}")
        self.phase = nxt
        self.pair = r
        self.tick(g1, g2)

    def tree_edge(self, e1, g1, e2, g2, a):
        self._target(e1, g1, e2, g2, a, "tree_edge", 0, "tree")
        self.need(self.d[self.pair] == self.d[self.cur] + 1, f"tree edge to {self.pair} is not on a shortest path")

    def gray_target(self, e1, g1, e2, g2, a):
        self._target(e1, g1, e2, g2, a, "gray_target", 1, "idle")

    def black_target(self, e1, g1, e2, g2, a):
        self._target(e1, g1, e2, g2, a, "black_target", 2, "idle")

    def discover_vertex(self, q1, g1, q2, g2):
        self.need(self.phase == "tree" and (q1, q2) == self.pair, f"pair {(q1, q2)} discovered without a tree edge")
        self.need(self.color.get(self.pair, 0) == 0, f"pair {self.pair} discovered twice")
        self.color[self.pair] = 1
        self.phase = "idle"
        self.tick(g1, g2)

    def finish_vertex(self, q1, g1, q2, g2):
        self.need((q1, q2) == self.cur and self.phase == "idle" and not self.left,
                  f"pair {(q1, q2)} finished, current pair {self.cur}, symbols left {sorted(self.left)}")
        self.color[self.cur] = 2
        self.cur = None
        self.tick(g1, g2)

    def end(self, pm):
        self.need(self.cur is None and not self.todo_src, "stopped half-way")
        for p in self.d:
            want = 2 if p in self.sources or not self.blocked(p) else 1
            self.need(self.color.get(p) == want, f"pair {p} ends with color {self.color.get(p)}, expected {want}")
            if pm is not None:
                self.need(pm[p] == want, f"color map of {p} ends with {pm[p]}, expected {want}")


def job(c, pool):
    lib = c.lib
    g1, m1, k1 = c.pick(pool)
    g2, m2, k2 = c.pick(pool)
    op = c.weighted([(4, "pbfs"), (4, "inclusion"), (4, "intersection"), (4, "union")])
    what = f"{op} {k1} ({m1}) x {k2} ({m2})"
    c.ev(op, k1, k2)
    out_kind = c.pick([None, "Automaton", "IncidenceAutomaton"])
    if op == "inclusion":
        I = lib.deterministic_inclusion
        kw = {"vis": I.DeterministicInclusionVisitor()} if c.flag(0.2) else {}
        want = verdict(m1, m2)

        def verify(r):
            c.check(r is want or (r == want and r is not None and want is not None), "inclusion",
                    f"{what}: got {r}, expected {want}")
            c.probe(f"inclusion-{want}")
        return (lambda: I.deterministic_inclusion(g1, g2, **kw)), verify
    if op in ("intersection", "union"):
        f = (lib.deterministic_intersection.deterministic_intersection if op == "intersection" else
             lib.deterministic_union.deterministic_union)
        law = (lambda a, b: a and b) if op == "intersection" else (lambda a, b: a or b)
        g12 = None
        if out_kind:
            g12 = (lib.automaton.Automaton if out_kind == "Automaton" else lib.incidence_automaton.IncidenceAutomaton)(0)
            if c.flag(0.3):
                # empty, but not fresh
                g12.set_initial(c.int(1, 3))

        def verify(r):
            if g12 is not None:
                c.check(r is g12, op, f"{what}: the caller's automaton is not returned")
            same_language(c, r, m1, m2, law, op, what)
        if g12 is not None and c.flag(0.3):
            V = (lib.deterministic_intersection.DeterministicIntersectionVisitor if op == "intersection" else
                 lib.deterministic_union.DeterministicUnionVisitor)
            return (lambda: f(g1, g2, g12, hollow(c, V(g12)))), verify
        return (lambda: f(g1, g2) if g12 is None else f(g1, g2, g12)), verify
    src = None if c.flag(0.5) else [(c.choose(m1.n), c.choose(m2.n)) for _ in range(c.choose(4))]
    mod = c.int(2, 5)
    use_push = c.flag(0.4)
    blocked = (lambda p: ((p[0] or 0) + 2 * (p[1] or 0)) % mod == 0) if use_push else (lambda p: False)
    w = PairWatch(c, g1, m1, g2, m2, [(m1.q0, m2.q0)] if src is None else src, blocked, what)
    kw = {"vis": hollow(c, w)}
    if src is not None:
        kw["source_pairs"] = iter(src) if c.flag(0.3) else src
    if use_push:
        def if_push(e1, h1, e2, h2):
            c.cb("filter")
            return not blocked((h1.target(e1) if e1 is not None else None, h2.target(e2) if e2 is not None else None))
        kw["if_push"] = hollow(c, if_push)
    colors = None
    if c.flag(0.5):
        colors = hollow(c, lib.property_map.make_assoc_property_map(defaultdict(int)))
        kw["pmap_vcolor"] = colors
    if colors is not None and c.flag(0.2):
        # nobody listens: only the colors tell
        del kw["vis"]

        def silent(r):
            for p in w.d:
                want = 2 if p in w.sources or not blocked(p) else 1
                c.eq(colors[p], want, op, f"{what}: color of {p} without visitor")
        return (lambda: lib.parallel_breadth_first_search.parallel_breadth_first_search(g1, g2, **kw)), silent
    return (lambda: lib.parallel_breadth_first_search.parallel_breadth_first_search(g1, g2, **kw),
            lambda r: w.end(colors))


def history(c):
    shared = alphabet_of(c, ALPHA, 0.2)
    pool = [make_dfa(c, orphans=True, alpha=shared[:c.weighted([(3, 1), (3, 2), (3, 3), (2, 5)])])
            for _ in range(c.int(2, 3))]
    n = max(m.n for _, m, _ in pool)
    before = [snapshot(g) for g, _, _ in pool]
    budget = 60000 + 6000 * (n + 1) * (n + 1)
    for _ in range(c.int(2, 5)):
        mode = c.weighted([(5, "plain"), (3, "fail"), (3, "abort"), (3, "threads")])
        c.ev(mode)
        if mode == "threads":
            s = Sched(c, c.pick([10, 40, 150]), 120)
            vs = []
            for _ in range(c.int(2, 3)):
                run, verify = job(c, pool)
                vs.append(verify)
                s.spawn(run)
            with c.limit(3 * budget, "concurrent products"):
                tasks = s.run()
            for x, v in zip(tasks, vs):
                if x.exc is not None:
                    raise x.exc
                v(x.result)
        else:
            run, verify = job(c, pool)
            exc = None
            if mode == "fail":
                c.arm_callback(c.choose(6 * n + 4))
            elif mode == "abort":
                exc = pick_abort(c)
                c.arm_abort(c.int(1, 150 * (n + 1)), exc)
            done = False
            try:
                with c.limit(budget, "product"):
                    res = run()
                done = True
            except (Injected, SimKeyboardInterrupt, SimMemoryError) as e:
                if exc is not None:
                    c.check(e is exc, "error-propagation", repr(e))
                    c.fault("abort-" + type(e).__name__)
            c.disarm_callback()
            c.disarm_abort()
            c.ev("done" if done else "aborted")
            if done:
                verify(res)
        c.eq([snapshot(g) for g, _, _ in pool], before, "operand-changed", mode)


SCENARIOS = [(1, "products", history)]
