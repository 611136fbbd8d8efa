"""C13: determinisation and minimisation keep the language and reach the smallest size"""
import random
from .. import simsets
from .common import alphabet_of, hollow, pick_abort, words_upto
from .c12 import Dfa, make_dfa, same_language, snapshot as dfa_snapshot
from ..kernel import Injected, Sched, SimKeyboardInterrupt, SimMemoryError

RULE = ("One run = one random automaton (nondeterministic with silent moves, complete, trim, or acyclic) that is "
        "determinised or minimised several times under different simulator-chosen exploration orders of its state "
        "sets, alone, cut by an asynchronous abort and run again, or as concurrent simulated threads; languages are "
        "compared state by state, sizes with a partition-refinement reference.")
REAL = ["moore_determination", "hopcroft_minimize", "revuz_minimize", "revuz_height", "Nfa", "Automaton",
        "IncidenceAutomaton", "IncidenceNodeAutomaton"]
STUB = ["set iteration and pop order (decided by the simulator)", "caller-supplied merge visitors"]
RUNS = {"quick": 20000, "thorough": 280000}


def reorder(c):
    """Another exploration order for the unordered sets of the library"""
    mode = c.choose(3)
    simsets.configure(mode, random.Random(c.choose(1 << 16) if mode == 2 else 0))
    c.probe(f"set-order-{mode}")


def classes(m, states, key=lambda q: None):
    """Number of distinct (key, right language) among the states of a partial DFA"""
    alpha = sorted({a for _, a in m.t}, key=repr)
    lab = {q: (q in m.fin) for q in states}
    lab[None] = False
    while True:
        ids = {}
        new = {}
        for q in list(states) + [None]:
            s = (lab[q],) + tuple(lab[m.d(q, a)] if q is not None else lab[None] for a in alpha)
            new[q] = ids.setdefault(s, len(ids))
        if len(ids) == len(set(lab.values())):
            break
        lab = new
    return len({(key(q), lab[q]) for q in states})


def reachable(m):
    seen, todo = {m.q0}, [m.q0]
    while todo:
        q = todo.pop()
        for (p, a), r in m.t.items():
            if p == q and r not in seen:
                seen.add(r)
                todo.append(r)
    return seen


def useful(m):
    co, todo = set(m.fin), list(m.fin)
    while todo:
        q = todo.pop()
        for (p, a), r in m.t.items():
            if r == q and p not in co:
                co.add(p)
                todo.append(p)
    return reachable(m) & co


EMPTY = Dfa()


def same(c, g, m, kind, what):
    same_language(c, g, m, m, lambda a, b: a, kind, what)


def deterministic(c, g, kind, what):
    seen = set()
    for e in g.edges():
        k = (g.source(e), g.label(e))
        c.check(k not in seen, kind, f"{what}: two transitions on {k}")
        seen.add(k)


def runs(c, fn, verify, inputs_ok, size):
    """Run fn under various orders, aborts and threads"""
    budget = 150000 + 9000 * size * size
    for _ in range(c.int(1, 3)):
        mode = c.weighted([(5, "plain"), (3, "abort"), (3, "threads")])
        reorder(c)
        c.ev(mode)
        if mode == "threads":
            s = Sched(c, c.pick([10, 50, 200]), 100)
            for _ in range(2):
                s.spawn(fn)
            with c.limit(2 * budget, "concurrent computations"):
                tasks = s.run()
            for x in tasks:
                if x.exc is not None:
                    raise x.exc
                verify(x.result)
        else:
            exc = None
            if mode == "abort":
                exc = pick_abort(c)
                c.arm_abort(c.int(1, 250 * (size + 1)), exc)
            try:
                with c.limit(budget, "computation"):
                    r = fn()
                c.disarm_abort()
                verify(r)
            except (SimKeyboardInterrupt, SimMemoryError) as e:
                c.disarm_abort()
                c.check(e is exc, "error-propagation", repr(e))
                c.fault("abort-" + type(e).__name__)
        inputs_ok()


def moore(c):
    lib = c.lib
    n = c.weighted([(3, 1), (3, 2), (3, 3), (3, 4), (1, 6)])
    alpha = alphabet_of(c, "abcd", 0.1)[:c.weighted([(4, 1), (4, 2), (2, 4)])]
    M = lib.nfa
    eps = M.EPSILON if c.flag(0.8) else "-"
    g = M.Nfa(n, epsilon=eps) if eps != M.EPSILON else M.Nfa(n)
    t = set()
    for _ in range(c.choose(3 * n + 2)):
        x = (c.choose(n), c.choose(n), c.pick(list(alpha) * 2 + [eps]))
        t.add(x)
        g.add_edge(*x)
    fin = {q for q in range(n) if c.flag(0.35)}
    for q in sorted(fin):
        g.set_final(q)
    ini = {c.choose(n) for _ in range(c.weighted([(1, 0), (6, 1), (6, 2)]))}
    g.set_initials(set(ini))
    c.ev("nfa", sorted(t), sorted(ini), sorted(fin))

    def closure(qs):
        qs, todo = set(qs), list(qs)
        while todo:
            q = todo.pop()
            for p, r, a in t:
                if p == q and a == eps and r not in qs:
                    qs.add(r)
                    todo.append(r)
        return frozenset(qs)
    used = sorted({a for _, _, a in t if a != eps})
    m = Dfa()
    start = closure(ini)
    ids, todo = {start: 0}, [start]
    while todo:
        qs = todo.pop()
        if qs & fin:
            m.fin.add(ids[qs])
        for a in used:
            rs = closure({r for p, r, b in t if p in qs and b == a})
            if rs not in ids:
                ids[rs] = len(ids)
                todo.append(rs)
            m.t[ids[qs], a] = ids[rs]
    complete = c.pick([True, False, None])
    kw = {} if complete is None else {"complete": complete}
    f = lib.moore_determination.moore_determination
    inc = c.flag(0.4)

    def fn():
        k = dict(kw)
        if inc:
            k["dfa"] = lib.incidence_automaton.IncidenceAutomaton(0)
        return f(g, **k)

    def verify(d):
        deterministic(c, d, "determinisation", "result")
        same(c, d, m, "determinisation", f"complete={complete}")
        if complete is not False:
            for q in d.vertices():
                c.eq(set(d.sigma(q)), set(used), "determinisation", f"complete result, symbols of {q}")
    before = (sorted(g.vertices()), sorted((g.source(e), g.target(e), g.label(e)) for e in g.edges()),
              sorted(M.initials(g)), sorted(g.finals()))

    def inputs_ok():
        c.eq((sorted(g.vertices()), sorted((g.source(e), g.target(e), g.label(e)) for e in g.edges()),
              sorted(M.initials(g)), sorted(g.finals())), before, "input-changed", "moore")
    runs(c, fn, verify, inputs_ok, len(ids) + n)


def hopcroft(c):
    lib = c.lib
    style = c.pick(["complete", "trim", "any"])
    m = Dfa()
    n = c.weighted([(2, 1), (2, 2), (2, 3), (2, 4), (2, 6), (2, 8), (1, 12)])
    alpha = alphabet_of(c, "abcde", 0.1)[:c.weighted([(3, 1), (3, 2), (3, 3), (1, 5)])]
    for q in range(n):
        for a in alpha:
            if style == "complete" or c.flag(0.55):
                # few distinct targets: many equivalent states
                m.t[q, a] = c.choose(n) if c.flag(0.5) else c.choose(min(n, 3))
    m.fin = {q for q in range(n) if c.flag(0.4)}
    m.q0 = c.choose(n) if c.flag(0.3) else 0
    if style == "any":
        keep = list(range(n))
    else:
        if style == "trim" and not useful(m):
            m.fin.add(m.q0)
        keep = sorted(reachable(m) if style == "complete" else useful(m))
    names = c.shuffle(range(len(keep)))
    to = {q: names[i] for i, q in enumerate(keep)}
    d = Dfa()
    d.n, d.q0 = len(keep), to[m.q0]
    d.t = {(to[q], a): to[r] for (q, a), r in m.t.items() if q in to and r in to}
    d.fin = {to[q] for q in m.fin if q in to}
    g = lib.incidence_automaton.IncidenceAutomaton(d.n)
    for (q, a), r in c.shuffle(sorted(d.t.items())):
        g.add_edge(q, r, a)
    g.set_initial(d.q0)
    for q in sorted(d.fin):
        g.set_final(q)
    c.ev("dfa", style, d)
    want = classes(d, range(d.n))
    f = lib.hopcroft_minimize.hopcroft_minimize
    if c.flag(0.03):
        e = f(lib.incidence_automaton.IncidenceAutomaton(0))
        c.eq((e.num_vertices(), e.num_edges()), (0, 0), "minimisation", "automaton without states")

    def verify(h):
        deterministic(c, h, "minimisation", f"{style} {d}")
        same(c, h, d, "minimisation", f"{style} {d}")
        if style != "any":
            c.check(h.num_vertices() == want, "minimal-size",
                    f"{style} {d}: {h.num_vertices()} states, the minimum is {want}")
    before = dfa_snapshot(g), sorted(g.finals())
    runs(c, lambda: f(g), verify,
         lambda: c.eq((dfa_snapshot(g), sorted(g.finals())), before, "input-changed", "hopcroft"), d.n)


def hash_consed(m, states, key):
    """State -> class, where two states share a class iff they are alike up to the classes of their successors"""
    ids, cls = {}, {}

    def of(q):
        if q not in cls:
            s = (q in m.fin, key(q), frozenset((a, of(m.d(q, a))) for a in m.sig(q)))
            cls[q] = ids.setdefault(s, len(ids))
        return cls[q]
    return {q: of(q) for q in states}


def revuz(c):
    lib = c.lib
    node = c.flag(0.4)
    n = c.weighted([(2, 1), (2, 2), (2, 3), (2, 5), (2, 7), (2, 9), (1, 14)])
    alpha = alphabet_of(c, "abcde", 0.1)[:c.weighted([(3, 1), (3, 2), (3, 3), (1, 5)])]
    m = Dfa()
    sym = {q: c.pick(alpha) for q in range(n)}
    for q in range(n):
        for a in alpha:
            cand = [r for r in range(q + 1, n) if not node or sym[r] == a]
            if cand and c.flag(0.75):
                m.t[q, a] = c.pick(cand)
    m.fin = {q for q in range(n) if c.flag(0.4)}
    trim = c.flag(0.6)
    if trim:
        if not useful(m):
            m.fin.add(n - 1 if n - 1 in reachable(m) else 0)
        keep = sorted(useful(m))
    else:
        # dead and unreachable states, and an initial state that may have equivalent ones
        keep = list(range(n))
        m.q0 = c.choose(n)
    tag = {q: c.choose(2) for q in range(n)} if c.flag(0.25) else None
    results = []
    for attempt in range(c.int(1, 3)):
        reorder(c)
        names = c.shuffle(range(len(keep)))
        to = {q: names[i] for i, q in enumerate(keep)}
        d = Dfa()
        d.n, d.q0 = len(keep), to[m.q0]
        d.t = {(to[q], a): to[r] for (q, a), r in m.t.items() if q in to and r in to}
        d.fin = {to[q] for q in m.fin if q in to}
        if node:
            g = lib.incidence_node_automaton.IncidenceNodeAutomaton(d.n)
            for q in keep:
                g.pmap_vsymbol[to[q]] = sym[q]
            for (q, a), r in c.shuffle(sorted(d.t.items())):
                g.add_edge(q, r)
        else:
            g = lib.incidence_automaton.IncidenceAutomaton(d.n)
            for (q, a), r in c.shuffle(sorted(d.t.items())):
                g.add_edge(q, r, a)
        g.set_initial(d.q0)
        for q in sorted(d.fin):
            g.set_final(q)
        back = {v: k for k, v in to.items()}
        what = f"{'node ' if node else ''}{d}" + (f" symbols {[sym[back[v]] for v in range(d.n)]}" if node else "") \
            + (f" vertex labels {[tag[back[v]] for v in range(d.n)]}" if tag else "")
        c.ev("acyclic", what)
        height = {}
        for q in reversed(keep):
            height[q] = max([1 + height[r] for (p, a), r in m.t.items() if p == q and r in to], default=0)
        top = max(height.values())
        R = lib.revuz_minimize
        if c.flag(0.3):
            from collections import defaultdict
            hm = defaultdict(int)
            c.eq(R.revuz_height(g, lib.property_map.make_assoc_property_map(hm)), top, "height", what)
            c.eq({back[q]: h for q, h in hm.items()}, height, "height", what)
        kw = {}
        leaves = {q for q in range(d.n) if not d.sig(q)}
        if c.flag(0.3):
            kw["leaves"] = set(leaves)

        def key(v):
            return (sym[back[v]] if node else None, tag[back[v]] if tag else None)
        if tag:
            kw["pmap_vlabel"] = hollow(c, lib.property_map.make_func_property_map(
                (lambda v: (sym[back[v]], tag[back[v]])) if node else (lambda v: tag[back[v]])))
            if node and c.flag(0.5):
                kw["pmap_elabel"] = hollow(
                    c, lib.property_map.make_func_property_map(lambda e: sym[back[g.target(e)]]))
        elif c.flag(0.2) and not node:
            kw["pmap_elabel"] = hollow(c, lib.property_map.make_func_property_map(g.label))
        cls = hash_consed(d, range(d.n), key)
        merged = []
        now = []

        class Vis(R.DefaultRevuzMinimizeVisitor):
            def merging_states(self, q1, q2, g2):
                c.check(not now, "merge-events", f"{what}: {q2} merged while {now} is being merged")
                c.check(q1 != q2 and q1 in set(g2.vertices()) and q2 in set(g2.vertices()), "merge-events",
                        f"{what}: merging {q1} {q2}")
                c.eq(cls[q1], cls[q2], "merge-events", f"{what}: classes of {q1} and {q2}")
                now.extend((q1, q2, sorted((g2.source(e), "" if node else g2.label(e)) for e in g2.in_edges(q2))))
                moved.clear()

            def move_transition(self, e1, e2, g2):
                c.check(now and g2.target(e1) == now[1] and g2.target(e2) == now[0]
                        and g2.source(e1) == g2.source(e2), "merge-events", f"{what}: {e1} moved to {e2}, {now}")
                if not node:
                    # the label of the moved transition is the one of an incoming transition of the removed state
                    moved.append((g2.source(e2), g2.label(e2)))
                else:
                    moved.append((g2.source(e2), ""))

            def remove_vertex(self, q, g2):
                c.check(now and q == now[1] and q in set(g2.vertices()), "merge-events", f"{what}: {q} removed, {now}")
                c.eq(sorted(moved), now[2], "merge-events", f"{what}: transitions moved away from {q}")

            def states_merged(self, q1, q2, g2):
                c.check(now[:2] == [q1, q2] and q2 not in set(g2.vertices()) and q1 in set(g2.vertices()),
                        "merge-events", f"{what}: merged {q1} {q2}, {now}")
                merged.append((q1, q2))
                del now[:]
        moved = []
        if c.flag(0.4):
            kw["vis"] = hollow(c, Vis())
        with c.limit(200000 + 20000 * n, "revuz"):
            h = R.revuz_minimize(g, **kw)
        c.eq(h, top, "height", what)
        deterministic(c, g, "minimisation", what)
        same(c, g, d, "minimisation", what)
        c.eq(sorted(cls[v] for v in g.vertices()), sorted(set(cls.values())), "minimal-size",
             f"{what}: classes of the remaining states")
        if trim and not tag:
            want = classes(d, range(d.n), (lambda q: sym[back[q]]) if node else (lambda q: None))
            c.check(g.num_vertices() == want, "minimal-size",
                    f"{what}: {g.num_vertices()} states, the minimum is {want}")
        c.eq(sorted((cls[g.source(e)], g.label(e), cls[g.target(e)]) for e in g.edges()),
             sorted({(cls[q], a, cls[r]) for (q, a), r in d.t.items()}), "minimisation", f"{what}: transitions")
        c.eq({cls[v] for v in g.vertices() if g.is_final(v)}, {cls[v] for v in d.fin}, "minimisation", what)
        c.eq(cls[g.initial()], cls[d.q0], "minimisation", f"{what}: initial state")
        if node:
            for v in g.vertices():
                c.eq(g.symbol(v), sym[back[v]] if v in range(d.n) else None, "minimisation", f"{what}: symbol of {v}")
        if "leaves" in kw:
            c.eq(kw["leaves"], leaves, "input-changed", what)
        if "vis" in kw:
            c.eq(len(merged), d.n - g.num_vertices(), "merge-events", what)
            c.check({q2 for _, q2 in merged} == set(range(d.n)) - set(g.vertices()), "merge-events", what)
        results.append(g.num_vertices())
    c.check(len(set(results)) == 1, "order-dependence", f"sizes {results}")


MAX_STEPS = 3000000
SCENARIOS = [(3, "moore", moore), (4, "hopcroft", hopcroft), (4, "revuz", revuz)]
