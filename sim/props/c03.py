"""C03: nondeterministic automata refine a transition relation with epsilon moves under any history"""
from collections import defaultdict
from .common import Answers, Either, Listings, aborted_read, descriptors, multiset
from .c02 import FaultyMap
from ..kernel import Injected

RULE = ("One run = one seeded history of 15 to 60 operations issued by 3 interleaved clients on one Nfa (mutations, "
        "removals, epsilon moves, reads aborted or hit by a failing property map, listings consumed step by step), "
        "checked after every step against an executable transition-relation model.")
REAL = ["Nfa", "free functions of pybgl.nfa and pybgl.automaton"]
STUB = ["caller-supplied property maps (fault-injecting)"]
RUNS = {"quick": 11000, "thorough": 160000}
ALPHA = "ab"


class Model:
    def __init__(self, eps):
        self.vs, self.next, self.t, self.ini, self.fin, self.eps = set(), 0, set(), {0}, set(), eps

    def closure(self, qs):
        qs = set(qs)
        todo = list(qs)
        while todo:
            q = todo.pop()
            for p, r, a in self.t:
                if p == q and a == self.eps and r not in qs:
                    qs.add(r)
                    todo.append(r)
        return qs

    def step(self, qs, a):
        return {r for p, r, b in self.t if p in qs and b == a}

    def run(self, w):
        qs = self.closure(self.ini)
        for a in w:
            qs = self.closure(self.step(qs, a))
        return qs

    def accepts(self, w):
        return bool(self.run(w) & self.fin)


def esig(g, e):
    return (g.source(e), g.target(e), g.label(e))


def observe(c, g, m, deep):
    g.toss()
    own = g.answers
    own.start()
    c.eq(set(g.vertices()), m.vs, "vertices", "Nfa")
    c.eq(g.num_vertices(), len(m.vs), "num_vertices", "Nfa")
    c.eq(multiset(esig(g, e) for e in g.edges()), multiset(m.t), "edges", "Nfa")
    c.eq(g.num_edges(), len(m.t), "num_edges", "Nfa")
    c.eq(own(g.alphabet(), "alphabet"), {a for _, _, a in m.t if a != m.eps}, "alphabet", "Nfa")
    c.eq(own(g.finals(), "finals"), m.fin, "finals", "Nfa")
    c.eq(set(c.lib.nfa.initials(g)), m.ini, "initials", "Nfa")
    c.eq(c.lib.nfa.epsilon(g), m.eps, "epsilon", "Nfa")
    if deep:
        descriptors(c, list(g.edges())[:8] + list(g.edges())[:2], lambda e: esig(g, e), "Nfa")
    vs = sorted(m.vs)
    if not deep and len(vs) > 3:
        vs = c.sample(vs, 3)
    for q in vs:
        cl = m.closure({q})
        c.eq(bool(g.is_initial(q)), q in m.ini, "is_initial", q)
        c.eq(bool(g.is_final(q)), q in m.fin, "is_final", q)
        c.eq(multiset(esig(g, e) for e in g.out_edges(q)), multiset(x for x in m.t if x[0] == q), "out_edges", q)
        c.eq(g.out_degree(q), len([x for x in m.t if x[0] == q]), "out_degree", q)
        c.eq(own(g.sigma(q), "sigma"), {a for p, _, a in m.t if p in cl and a != m.eps}, "sigma", q)
        for a in ALPHA:
            c.eq(own(g.delta(q, a), "delta"), m.closure(m.step(cl, a)), "delta", f"delta({q}, {a})")
    given = set(vs)
    c.eq(own(g.delta_epsilon(given), "delta_epsilon"), m.closure(vs), "delta_epsilon", vs)
    c.eq(given, set(vs), "caller-set", "delta_epsilon changed the set that it was given")
    for a in ALPHA:
        given = set(vs)
        c.eq(own(g.delta_one_step(given, a), "delta_one_step"), m.step(vs, a), "delta_one_step", (vs, a))
        c.eq(given, set(vs), "caller-set", "delta_one_step changed the set that it was given")
    for e in g.edges():
        c.eq(bool(g.is_epsilon_transition(e)), g.label(e) == m.eps, "is_epsilon_transition", esig(g, e))
    for _ in range(3 if not deep else 14):
        w = "".join(c.pick(ALPHA) for _ in range(c.choose(6)))
        c.eq(own(g.delta_word(w), "delta_word"), m.run(w), "delta_word", repr(w))
        c.eq(bool(g.accepts(w)), m.accepts(w), "accepts", repr(w))


def initials(c, mod, g, s):
    """Sets the initial states from a collection that stays the caller's"""
    given = c.pick([set, list, iter])(sorted(s))
    mod.set_initials(given, g) if c.flag(0.5) else g.set_initials(given)
    if hasattr(given, "__len__"):
        c.eq(set(given), s, "caller-set", "set_initials changed what it was given")
        if c.flag(0.5):
            given.clear()
        elif c.flag(0.5) and hasattr(given, "add"):
            given.add(max(s) + 1)


def history(c):
    lib = c.lib
    mod = lib.nfa
    eps = c.pick([None, "E"])
    finmap = FaultyMap(c, False) if c.flag(0.3) else None
    n = c.pick([0, 1, 2, 3, 5])
    m = Model(eps or mod.EPSILON)
    kw = {}
    if eps:
        kw["epsilon"] = eps
    if finmap is not None:
        kw["pmap_vfinal"] = finmap
    if n and c.flag(0.4):
        # possibly no initial state at all; the set stays the caller's
        ini = set(c.sample(range(n), c.int(0, n)))
        kw["initials"] = given = set(ini)
        m.ini = ini
    g = Either(c, mod.Nfa(n, **kw), "nfa", "automaton", "graph", methods_only=("initials",))
    if "initials" in kw and c.flag(0.5):
        given.clear()
    m.vs, m.next = set(range(n)), n
    c.ev("new", n, sorted(m.ini), eps)
    if n == 0:
        c.eq(g.add_vertex(), 0, "vertex-id", "first state")
        m.vs, m.next = {0}, 1
    held = [[], [], []]
    lst = Listings(c)
    for step in range(c.pick([15, 30, 60])):
        who = c.choose(3)
        op = c.weighted([(22, "add_edge"), (8, "add_vertex"), (7, "remove_edge"), (5, "remove_listed"),
                         (4, "remove_vertex"), (8, "set_final"), (5, "set_initial"), (3, "set_initials"),
                         (1, "clear"), (5, "open"), (9, "step"), (4, "aborted"), (3, "pmap_fault")])
        vs = sorted(m.vs)
        if op == "add_vertex":
            c.eq(g.add_vertex(), m.next, "vertex-id", "Nfa")
            m.vs.add(m.next)
            m.next += 1
            lst.mutated()
            c.ev(who, op)
        elif op == "add_edge":
            if not vs:
                continue
            q, r = c.pick(vs), c.pick(vs)
            a = c.pick([ALPHA[0], ALPHA[1], m.eps])
            e, added = g.add_edge(q, r, a)
            c.check(added, "add_edge", f"add_edge({q}, {r}, {a}) refused")
            c.eq(esig(g, e), (q, r, a), "add_edge", "descriptor")
            m.t.add((q, r, a))
            held[who].append((e, (q, r, a)))
            lst.mutated()
            c.ev(who, op, q, r, a)
        elif op == "remove_edge":
            if not held[who]:
                continue
            e, s = held[who][c.choose(len(held[who]))]
            if s not in m.t:
                c.fault("stale-descriptor")
            r, x = c.call(g.remove_edge, e)
            c.check(r == "ok" or s not in m.t, "remove_edge", f"{s}: {x!r}")
            m.t.discard(s)
            lst.mutated()
            c.ev(who, op, s)
        elif op == "remove_listed":
            es = list(g.edges()) if not vs or c.flag(0.5) else list(g.out_edges(c.pick(vs)))
            if not es:
                continue
            es.sort(key=lambda e: esig(g, e))
            e = c.pick(es)
            s = esig(g, e)
            c.check(s in m.t, "listing", f"listed transition {s} does not exist")
            held[who].append((e, s))
            g.remove_edge(e)
            m.t.discard(s)
            lst.mutated()
            c.ev(who, op, s)
        elif op == "remove_vertex":
            if not vs:
                continue
            u = c.pick(vs)
            if u in m.ini and c.flag(0.3):
                g.set_initial(u, False)
            g.remove_vertex(u)
            m.ini.discard(u)
            m.vs.discard(u)
            m.fin.discard(u)
            m.t = {x for x in m.t if u not in x[:2]}
            lst.mutated()
            c.ev(who, op, u)
        elif op == "set_final":
            if not vs:
                continue
            q, b = c.pick(vs), c.flag(0.65)
            g.set_final(q, b) if not b or c.flag(0.5) else g.set_final(q)
            (m.fin.add if b else m.fin.discard)(q)
            c.ev(who, op, q, b)
        elif op == "set_initial":
            if not vs:
                continue
            q, b = c.pick(vs), c.flag(0.7)
            g.set_initial(q, b)
            (m.ini.add if b else m.ini.discard)(q)
            c.ev(who, op, q, b)
        elif op == "set_initials":
            if not vs:
                continue
            s = set(c.sample(vs, c.int(1, len(vs))))
            initials(c, mod, g, s)
            m.ini = s
            c.ev(who, op, sorted(s))
        elif op == "clear":
            if finmap is not None:
                continue
            g.clear()
            c.ev(who, op)
            eps_ = m.eps
            ini = set(mod.initials(g))
            m = Model(eps_)
            held = [[], [], []]
            lst.mutated()
            for _ in range(c.int(1, 3)):
                c.eq(g.add_vertex(), m.next, "vertex-id", "Nfa after clear")
                m.vs.add(m.next)
                m.next += 1
            m.ini = {c.pick(sorted(m.vs))}
            initials(c, mod, g, m.ini)
        elif op == "open":
            k = c.choose(3)
            if k == 0:
                lst.add(who, "Nfa.edges", g.edges(), lambda e: esig(g, e), m.t)
            elif k == 1 and vs:
                q = c.pick(vs)
                lst.add(who, f"Nfa.out_edges({q})", g.out_edges(q), lambda e: esig(g, e),
                        [x for x in m.t if x[0] == q])
            else:
                lst.add(who, "Nfa.vertices", g.vertices(), lambda x: x, m.vs)
            continue
        elif op == "step":
            lst.step()
            continue
        elif op == "aborted":
            w = "".join(c.pick(ALPHA) for _ in range(4))
            q = c.pick(vs) if vs else 0
            fn = c.pick([lambda: g.accepts(w), lambda: g.delta(q, "a"), lambda: g.alphabet(),
                         lambda: g.delta_word(w), lambda: list(g.edges()), lambda: g.sigma(q)])
            r, _ = aborted_read(c, fn, 120)
            c.ev(who, op, r)
        elif op == "pmap_fault":
            if finmap is None or not vs:
                continue
            c.arm_callback(c.choose(len(vs)))
            w = "".join(c.pick(ALPHA) for _ in range(2))
            r, x = c.call(c.pick([lambda: list(g.finals()), lambda: g.accepts(w)]))
            c.disarm_callback()
            c.ev(who, op, r)
            c.check(r == "ok" or isinstance(x, Injected), "error-propagation",
                    f"a failing property map surfaced as {x!r}")
        observe(c, g, m, False)
    lst.finish()
    observe(c, g, m, True)


SCENARIOS = [(1, "nfa", history)]
MAX_STEPS = 20000000
