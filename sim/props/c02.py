"""C02: deterministic automata refine a partial transition function under any history"""
from collections import defaultdict
from contextlib import redirect_stdout
from io import StringIO
from .common import Answers, Either, Listings, aborted_read, alphabet_of, descriptors, hollow, multiset, pick_abort, word_of
from ..kernel import Injected

RULE = ("One run = one seeded history of 20 to 80 operations issued by 3 interleaved clients on one deterministic "
        "automaton (construction from a transition list, mutations, refused mutations, stale descriptors, reads "
        "aborted or hit by a failing property map, listings consumed step by step), checked after every step "
        "against an executable transition-function model.")
REAL = ["Automaton", "IncidenceAutomaton", "NodeAutomaton", "IncidenceNodeAutomaton", "make_automaton",
        "make_incidence_automaton", "make_node_automaton", "make_incidence_node_automaton",
        "free functions of pybgl.automaton"]
STUB = ["caller-supplied property maps (fault-injecting)"]
RUNS = {"quick": 24000, "thorough": 320000}
ALPHA = "abc"


class Model:
    def __init__(self):
        self.vs, self.next = set(), 0
        self.d = {}              # (q, a) -> r
        self.q0 = None
        self.fin = set()
        self.sym = {}

    def add_vertex(self):
        u = self.next
        self.next += 1
        self.vs.add(u)
        return u

    def edges(self):
        return [(q, r, a) for (q, a), r in self.d.items()]

    def out(self, q):
        return [(p, r, a) for (p, a), r in self.d.items() if p == q]

    def inc(self, r):
        return [(p, s, a) for (p, a), s in self.d.items() if s == r]

    def remove_vertex(self, u):
        self.vs.discard(u)
        self.d = {k: r for k, r in self.d.items() if k[0] != u and r != u}
        self.fin.discard(u)

    def run(self, q, w):
        for a in w:
            if q is None:
                return None
            q = self.d.get((q, a))
        return q

    def accepts(self, w):
        q = self.run(self.q0, w)
        return q is not None and q in self.fin

    def alphabet(self, node):
        if node:
            return {self.sym.get(q) for q in self.vs if q != self.q0}
        return {a for _, a in self.d}


class FaultyMap(dict):
    """A caller-supplied property map: dict semantics, may raise when asked by the simulator"""

    def __init__(self, c, default):
        super().__init__()
        self.c, self.default = c, default

    def __getitem__(self, k):
        self.c.cb("property-map")
        return self.get(k, self.default)


def esig(g, e):
    return (g.source(e), g.target(e), g.label(e))


def random_word(c, m, maxlen=6):
    """Biased towards defined paths"""
    q, w = m.q0, []
    for _ in range(c.choose(maxlen + 1)):
        opts = [a for a in ALPHA if (q, a) in m.d]
        a = c.pick(opts) if opts and c.flag(0.8) else c.pick(ALPHA)
        w.append(a)
        q = m.d.get((q, a))
    return word_of(w)


def observe(c, g, m, kind, deep):
    node = "Node" in kind
    g.toss()
    own = g.answers
    own.start()
    c.eq(set(g.vertices()), m.vs, "vertices", kind)
    c.eq(g.num_vertices(), len(m.vs), "num_vertices", kind)
    c.eq(multiset(esig(g, e) for e in g.edges()), multiset(m.edges()), "edges", kind)
    c.eq(g.num_edges(), len(m.d), "num_edges", kind)
    if not node or m.q0 in m.vs:
        c.eq(own(g.alphabet(), "alphabet"), m.alphabet(node), "alphabet", kind)
    c.eq(g.initial(), m.q0, "initial", kind)
    c.eq(own(g.finals(), "finals"), m.fin, "finals", kind)
    if deep:
        descriptors(c, list(g.edges())[:8] + list(g.edges())[:2], lambda e: esig(g, e), kind)
    vs = sorted(m.vs)
    if not deep and len(vs) > 3:
        vs = c.sample(vs, 3)
    for q in vs:
        c.eq(bool(g.is_initial(q)), q == m.q0, "is_initial", f"{kind} {q}")
        c.eq(bool(g.is_final(q)), q in m.fin, "is_final", f"{kind} {q}")
        c.eq(multiset(esig(g, e) for e in g.out_edges(q)), multiset(m.out(q)), "out_edges", f"{kind} {q}")
        c.eq(g.out_degree(q), len(m.out(q)), "out_degree", f"{kind} {q}")
        c.eq(own(g.sigma(q), "sigma"), {a for _, _, a in m.out(q)}, "sigma", f"{kind} {q}")
        if "Incidence" in kind:
            c.eq(multiset(esig(g, e) for e in g.in_edges(q)), multiset(m.inc(q)), "in_edges", f"{kind} {q}")
            c.eq(g.in_degree(q), len(m.inc(q)), "in_degree", f"{kind} {q}")
        for a in ALPHA:
            c.eq(g.delta(q, a), m.d.get((q, a)), "delta", f"{kind} delta({q}, {a})")
        for r in vs:
            if node:
                c.eq(g.symbol(r), m.sym.get(r), "symbol", f"{kind} {r}")
                want = [s for s in m.out(q) if s[1] == r]
                e, found = g.edge(q, r)
                c.eq(bool(found), bool(want), "edge", f"{kind} edge({q}, {r})")
                if found:
                    c.eq(esig(g, e), want[0], "edge", f"{kind} edge({q}, {r})")
            else:
                for a in ALPHA:
                    e, found = g.edge(q, r, a)
                    c.eq(bool(found), m.d.get((q, a)) == r, "edge", f"{kind} edge({q}, {r}, {a})")
                    if found:
                        c.eq(esig(g, e), (q, r, a), "edge", f"{kind} edge({q}, {r}, {a})")
    if m.q0 is None or m.q0 in m.vs:
        for _ in range(3 if not deep else 12):
            w = random_word(c, m)
            c.eq(bool(g.accepts(w)), m.accepts(w), "accepts", f"{kind} {w!r}")
            if vs:
                q = c.pick(vs)
                c.eq(g.delta_word(q, w), m.run(q, w), "delta_word", f"{kind} from {q} {w!r}")
            if m.q0 is not None:
                q, i = m.q0, 0
                while i < len(w) and (q, w[i]) in m.d:
                    q, i = m.d[q, w[i]], i + 1
                c.eq(tuple(g.delta_best_effort(w)), (q, i), "delta_best_effort", f"{kind} {w!r}")
        if not node:
            alpha = m.alphabet(False)
            c.eq(bool(g.is_complete()), all((q, a) in m.d for q in m.vs for a in alpha), "is_complete", kind)


def construct(c, kind, m, finmap):
    """A fresh automaton: from a vertex count, or from a list of named transitions"""
    lib = c.lib
    node = "Node" in kind
    modname = {"Automaton": "automaton", "IncidenceAutomaton": "incidence_automaton",
               "NodeAutomaton": "node_automaton", "IncidenceNodeAutomaton": "incidence_node_automaton"}[kind]
    mod = getattr(lib, modname)
    G = getattr(mod, kind)
    if c.flag(0.35):
        # named construction
        names = ["p", "q", "r", "s"][: c.int(1, 4)] if c.flag(0.5) else [10, 3, 0, 5][: c.int(1, 4)]
        k = c.int(1, 7)
        pmap = hollow(c, lib.property_map.make_assoc_property_map(defaultdict(bool)))
        fin = [x for x in names if c.flag(0.4)]
        for x in fin:
            pmap[x] = True
        # no state is final by default
        maps = () if not fin and c.flag(0.5) else (None,) if not fin and c.flag(0.3) else (pmap,)
        if node:
            sym = {x: c.pick(ALPHA) for x in names}
            psym = hollow(c, lib.property_map.make_assoc_property_map(defaultdict(lambda: None)))
            for x in names:
                psym[x] = sym[x]
            tr = [(c.pick(names), c.pick(names)) for _ in range(k)]
            used = sorted({x for t in tr for x in t})
            q0n = c.pick(used)
            fn = getattr(mod, "make_node_automaton" if kind == "NodeAutomaton" else "make_incidence_node_automaton")
            if q0n == 0 and c.flag(0.5):
                # the default initial state
                g = fn(tr, psym, pmap_vfinal=maps[0] if maps else None)
            else:
                g = fn(tr, psym, q0n, *maps)
        else:
            tr = [(c.pick(names), c.pick(names), c.pick(ALPHA)) for _ in range(k)]
            used = sorted({x for t in tr for x in t[:2]})
            q0n = c.pick(used)
            fn = getattr(mod, "make_automaton" if kind == "Automaton" else "make_incidence_automaton")
            if q0n == 0 and c.flag(0.5):
                g = fn(tr, pmap_vfinal=maps[0] if maps else None)
            else:
                g = fn(tr, q0n, *maps)
        c.ev("make", kind, tr, q0n, fin)
        idx = {}
        for x in used:
            u = m.add_vertex()
            idx[x] = u
            if node:
                m.sym[u] = sym[x]
            if x in fin:
                m.fin.add(u)
        for t in tr:
            a = t[2] if not node else sym[t[1]]
            m.d.setdefault((idx[t[0]], a), idx[t[1]])
        m.q0 = idx[q0n]
        return g, mod
    n = 0 if node else c.pick([0, 1, 2, 4])
    q0 = c.choose(max(n, 1))
    kw = {}
    if finmap is not None:
        kw["pmap_vfinal"] = finmap
    g = G(n, q0, **kw) if c.flag(0.5) else G(num_vertices=n, q0=q0, **kw)
    c.ev("new", kind, n, q0)
    for _ in range(n):
        m.add_vertex()
    m.q0 = q0
    if n == 0:
        # states are created one by one
        u = g.add_vertex()
        m.add_vertex()
        c.eq(u, 0, "vertex-id", kind)
    return g, mod


def history(c, kind):
    node = "Node" in kind
    inc = "Incidence" in kind
    global ALPHA
    ALPHA = alphabet_of(c)
    m = Model()
    finmap = FaultyMap(c, False) if c.flag(0.3) else None
    g, mod = construct(c, kind, m, finmap)
    if finmap is not None and getattr(g, "pmap_vfinal", None) is not finmap:
        finmap = None
    if node:
        g = Either(c, g, "node_automaton", "automaton", "graph")
    else:
        g = Either(c, g, "automaton", "graph")
    held = [[], [], []]
    lst = Listings(c)
    aut = c.lib.automaton
    observe(c, g, m, kind, False)
    for step in range(c.pick([20, 40, 80])):
        who = c.choose(3)
        fun = c.flag(0.4) and not node
        op = c.weighted([(22, "add_edge"), (10, "add_vertex"), (8, "remove_edge"), (5, "remove_listed"),
                         (4, "remove_vertex"), (8, "set_final"), (5, "set_initial"), (1, "clear"),
                         (4, "bad_add_edge"), (4, "stale"), (5, "insert"), (6, "open"), (10, "step"),
                         (4, "aborted"), (3, "pmap_fault")])
        vs = sorted(m.vs)
        if op == "add_vertex":
            if node:
                a = c.pick(ALPHA) if c.flag(0.9) else None
                u = g.add_vertex(a) if a is not None else g.g.add_vertex()
                m.sym[m.next] = a
            else:
                u = g.add_vertex()
            c.check(u == m.next, "vertex-id", f"{kind}: add_vertex returned {u}, expected {m.next}")
            m.add_vertex()
            lst.mutated()
            c.ev(who, op, u)
        elif op == "add_edge":
            if not vs:
                continue
            q, r, a = c.pick(vs), c.pick(vs), c.pick(ALPHA)
            if node:
                a = m.sym.get(r)
                if a is None:
                    continue
                e, added = g.add_edge(q, r)
            else:
                e, added = aut.add_edge(q, r, a, g) if fun else g.add_edge(q, r, a)
            free = (q, a) not in m.d
            c.ev(who, op, q, r, a, added)
            c.eq(bool(added), free, "determinism", f"{kind}: add_edge({q}, {r}, {a})")
            if free:
                c.eq(esig(g, e), (q, r, a), "add_edge", kind)
                c.check(e in set(g.edges()) and e in set(g.out_edges(q)), "descriptor",
                        f"{kind}: {(q, r, a)}, just added, is not listed as such")
                m.d[q, a] = r
                held[who].append((e, (q, r, a)))
            else:
                c.fault("refused-transition")
                c.eq(e, None, "add_edge", f"{kind}: refused add_edge({q}, {r}, {a})")
            lst.mutated()
        elif op in ("remove_edge", "stale"):
            if not held[who]:
                continue
            e, s = held[who][c.choose(len(held[who]))]
            live = m.d.get((s[0], s[2])) == s[1]
            if live:
                if op == "stale":
                    continue
                g.remove_edge(e)
                del m.d[s[0], s[2]]
            else:
                r, x = c.call(g.remove_edge, e)
                c.fault("stale-descriptor")
            lst.mutated()
            c.ev(who, "remove_edge", s, live)
        elif op == "remove_listed":
            if not vs:
                continue
            q = c.pick(vs)
            k = c.choose(3 if inc else 2)
            es = list(g.edges() if k == 0 else g.out_edges(q) if k == 1 else g.in_edges(q))
            if not es:
                continue
            es.sort(key=lambda e: esig(g, e))
            e = c.pick(es)
            s = esig(g, e)
            c.check(m.d.get((s[0], s[2])) == s[1], "listing", f"{kind}: listed transition {s} does not exist")
            held[who].append((e, s))
            g.remove_edge(e)
            del m.d[s[0], s[2]]
            lst.mutated()
            c.ev(who, op, s)
        elif op == "remove_vertex":
            if not vs:
                continue
            u = c.pick(vs)
            g.remove_vertex(u)
            m.remove_vertex(u)
            lst.mutated()
            c.ev(who, op, u)
            if m.q0 == u:
                # the automaton has lost its initial state: the client may elect another one
                m.q0 = None
                c.check(not g.is_initial(u) and not g.accepts(""), "initial", f"{kind}: the removed state {u} is initial")
                if m.vs and c.flag(0.7):
                    v = c.pick(sorted(m.vs))
                    g.set_initial(v)
                    m.q0 = v
                c.ev(who, "elect", m.q0)
        elif op == "set_final":
            if not vs:
                continue
            q, b = c.pick(vs), c.flag(0.65)
            if fun:
                aut.set_final(q, g, b)
            elif b and c.flag(0.5):
                g.set_final(q)
            else:
                g.set_final(q, b)
            (m.fin.add if b else m.fin.discard)(q)
            c.ev(who, op, q, b)
        elif op == "set_initial":
            if not vs:
                continue
            q, b = c.pick(vs), c.flag(0.75)
            aut.set_initial(q, g, b) if fun else g.set_initial(q, b)
            if b:
                m.q0 = q
            elif m.q0 == q:
                m.q0 = None
            c.ev(who, op, q, b)
        elif op == "clear":
            if finmap is not None:
                continue         # the finals live in a map owned by the caller
            g.clear()
            lst.mutated()
            c.ev(who, op)
            m = Model()
            held = [[], [], []]
            c.eq(set(g.vertices()), set(), "clear", kind)
            c.eq(g.num_edges(), 0, "clear", kind)
            for _ in range(c.int(1, 3)):
                a = c.pick(list(ALPHA) + [None])
                u = g.add_vertex(a) if node and a is not None else g.g.add_vertex()
                c.eq(u, m.next, "vertex-id", f"{kind} after clear")
                if node:
                    m.sym[u] = a
                m.add_vertex()
            q = c.pick(sorted(m.vs))
            g.set_initial(q)
            m.q0 = q
        elif op == "bad_add_edge":
            bad = m.next + c.choose(2)
            gone = sorted(set(range(m.next)) - m.vs)
            if gone and c.flag(0.6):
                bad = c.pick(gone)
            if not vs:
                continue
            ok, a = c.pick(vs), c.pick(ALPHA)
            pair = (bad, ok)
            if kind == "IncidenceAutomaton" and c.flag(0.6):
                pair = (ok, bad)
            r, x = c.call(g.add_edge, *(pair if node else pair + (a,)))
            c.fault("unknown-state")
            c.ev(who, op, pair, a, r)
            accepted = r == "ok" and bool(x[1])
            c.check(not accepted, "refusal", f"{kind}: add_edge{pair} accepted although a state does not exist")
            lst.mutated()
        elif op == "insert":
            if node or m.q0 is None or m.q0 not in m.vs:
                continue
            w = word_of([c.pick(ALPHA) for _ in range(c.choose(5))])
            aut.automaton_insert_string(g, w) if fun else g.automaton_insert_string(w)
            q, i = m.q0, 0
            while i < len(w) and (q, w[i]) in m.d:
                q, i = m.d[q, w[i]], i + 1
            for a in w[i:]:
                u = m.add_vertex()
                m.d[q, a] = u
                q = u
            m.fin.add(q)
            lst.mutated()
            c.ev(who, op, w)
            c.check(g.accepts(w), "insert", f"{kind}: {w!r} inserted and then rejected")
        elif op == "open":
            q = c.pick(vs) if vs else None
            k = c.choose(4 if inc else 3)
            if k == 0:
                lst.add(who, kind + ".edges", g.edges(), lambda e: esig(g, e), m.edges())
            elif k == 1:
                lst.add(who, kind + ".vertices", g.vertices(), lambda x: x, m.vs)
            elif q is not None and k == 2:
                lst.add(who, f"{kind}.out_edges({q})", g.out_edges(q), lambda e: esig(g, e), m.out(q))
            elif q is not None:
                lst.add(who, f"{kind}.in_edges({q})", g.in_edges(q), lambda e: esig(g, e), m.inc(q))
            continue
        elif op == "step":
            lst.step()
            continue
        elif op == "aborted":
            if m.q0 is None or m.q0 not in m.vs:
                continue
            w = random_word(c, m)
            fn = c.pick([lambda: g.accepts(w), lambda: g.alphabet(), lambda: g.finals(),
                         lambda: list(g.edges()), lambda: g.is_complete(), lambda: g.delta_best_effort(w)])
            r, _ = aborted_read(c, fn, 60)
            c.ev(who, op, r)
        elif op == "pmap_fault":
            if finmap is None or not vs:
                continue
            c.arm_callback(c.choose(len(vs)))
            try:
                r, x = c.call(c.pick([g.finals, lambda: g.is_final(c.pick(vs))]))
            finally:
                c.disarm_callback()
            c.ev(who, op, r)
            c.check(r == "ok" or isinstance(x, Injected), "error-propagation",
                    f"{kind}: a failing property map surfaced as {x!r}")
        observe(c, g, m, kind, False)
    lst.finish()
    observe(c, g, m, kind, True)
    c.check(aut.is_finite(g) is True and aut.is_deterministic(g) is True, "function", "is_finite, is_deterministic")
    if not node and (m.q0 is None or m.q0 in m.vs):
        w = random_word(c, m)
        with redirect_stdout(StringIO()):
            c.eq(bool(aut.accepts_debug(w, g)), m.accepts(w), "function", f"accepts_debug {w!r}")


SCENARIOS = [(3, k, (lambda k: lambda c: history(c, k))(k)) for k in
             ("Automaton", "IncidenceAutomaton", "NodeAutomaton", "IncidenceNodeAutomaton")]
