"""C27: results of one algorithm are valid inputs of the others, and chains of them keep their meaning"""
import copy
from collections import defaultdict, deque
from .c12 import ALPHA, Dfa, make_dfa, product, same_language, verdict
from .c13 import classes, reachable, reorder, useful
from .common import pick_abort
from ..kernel import Sched, SimKeyboardInterrupt, SimMemoryError

RULE = ("One run = a pool of automata that grows by 3 to 9 stages, each feeding results of earlier stages to another "
        "algorithm of the library (regular expressions and their operators, insertion in a nondeterministic "
        "automaton, determinisation, minimisations, pruning, products, copies, reversal, tries) under "
        "simulator-chosen set orders, cut by an asynchronous abort and run again, or two stages at once as simulated "
        "threads; after each stage the language is compared exactly with the one the chain denotes, the inputs with "
        "what they were, and structural algorithms (searches, components, orders, distances) are run on the result.")
REAL = ["thompson_compile_nfa", "concatenation", "alternation", "zero_or_one", "zero_or_more", "one_or_more",
        "repetition", "repetition_range", "bracket", "literal", "insert_automaton", "moore_determination",
        "hopcroft_minimize", "revuz_minimize", "prune_incidence_automaton", "reverse_graph",
        "deterministic_intersection", "deterministic_union", "deterministic_inclusion", "automaton_copy", "Trie",
        "make_suffix_trie", "compile_dfa", "strong_components", "topological_sort", "dijkstra_shortest_paths",
        "breadth_first_search", "depth_first_search", "Nfa", "Automaton", "IncidenceAutomaton", "NodeAutomaton",
        "IncidenceNodeAutomaton"]
STUB = ["set iteration and pop order (decided by the simulator)"]
RUNS = {"quick": 7500, "thorough": 150000}
MAX_STEPS = 6000000
BIG = 14


# ---------------------------------------------------------------- model

def subset(t, ini, fin):
    """Minimal partial deterministic model of a nondeterministic one; t is a set of (q, a or None, r)"""
    succ = defaultdict(set)
    for q, a, r in t:
        succ[q, a].add(r)
    used = sorted({a for _, a, _ in t if a is not None})

    def closure(qs):
        qs, todo = set(qs), list(qs)
        while todo:
            for r in succ.get((todo.pop(), None), ()):
                if r not in qs:
                    qs.add(r)
                    todo.append(r)
        return frozenset(qs)
    m = Dfa()
    s = closure(ini)
    ids, todo = {s: 0}, [s]
    while todo:
        qs = todo.pop()
        if qs & fin:
            m.fin.add(ids[qs])
        for a in used:
            rs = closure({r for q in qs for r in succ.get((q, a), ())})
            if rs:
                if rs not in ids:
                    ids[rs] = len(ids)
                    todo.append(rs)
                m.t[ids[qs], a] = ids[rs]
    m.n = len(ids)
    return minimal(m)


def minimal(m):
    """The minimal trim model of the same language"""
    keep = sorted(useful(m))
    out = Dfa()
    out.n = 1
    if m.q0 not in keep:
        return out
    alpha = sorted({a for _, a in m.t})
    lab = {q: int(q in m.fin) for q in keep}
    while True:
        ids, new = {}, {}
        for q in keep:
            s = (lab[q],) + tuple(lab.get(m.d(q, a), -1) for a in alpha)
            new[q] = ids.setdefault(s, len(ids))
        if len(ids) == len(set(lab.values())):
            break
        lab = new
    number = {lab[m.q0]: 0}
    for q in keep:
        number.setdefault(lab[q], len(number))
    out.n = len(number)
    out.fin = {number[lab[q]] for q in keep if q in m.fin}
    out.t = {(number[lab[q]], a): number[lab[r]] for (q, a), r in m.t.items() if q in lab and r in lab}
    return out


def parts(m, tag):
    return ({((tag, q), a, (tag, r)) for (q, a), r in m.t.items()}, {(tag, m.q0)}, {(tag, q) for q in m.fin})


def m_cat(x, y):
    t, i, f = parts(x, 0)
    u, j, h = parts(y, 1)
    return subset(t | u | {(p, None, q) for p in f for q in j}, i, h)


def m_alt(x, y):
    t, i, f = parts(x, 0)
    u, j, h = parts(y, 1)
    return subset(t | u, i | j, f | h)


def m_plus(x):
    t, i, f = parts(x, 0)
    return subset(t | {(p, None, q) for p in f for q in i}, i, f)


def m_eps():
    m = Dfa()
    m.n, m.fin = 1, {0}
    return m


def m_opt(x):
    return m_alt(x, m_eps())


def m_rep(x, lo, hi):
    out = m_eps()
    for _ in range(lo):
        out = m_cat(out, x)
    if hi is None:
        return m_cat(out, m_opt(m_plus(x)))
    for _ in range(hi - lo):
        out = m_cat(out, m_opt(x))
    return out


def m_rev(x):
    t, i, f = parts(x, 0)
    return subset({(r, a, q) for q, a, r in t}, f, i)


def m_set(words):
    t, i, f = set(), {()}, set()
    for w in words:
        w = tuple(w)
        f.add(w)
        for k in range(len(w)):
            t.add((w[:k], w[k], w[:k + 1]))
    return subset(t, i, f)


def m_prod(x, y, op):
    d = product(x, y)
    ids = {p: i for i, p in enumerate(d)}
    out = Dfa()
    out.n, out.q0 = len(ids), ids[x.q0, y.q0]
    for p in d:
        if op(p[0] is not None and p[0] in x.fin, p[1] is not None and p[1] in y.fin):
            out.fin.add(ids[p])
        for a in {a for q, a in x.t if q == p[0]} | {a for q, a in y.t if q == p[1]}:
            r = (x.d(p[0], a) if p[0] is not None else None, y.d(p[1], a) if p[1] is not None else None)
            if r in ids:
                out.t[ids[p], a] = ids[r]
    return minimal(out)


def acyclic(edges):
    succ = defaultdict(set)
    for q, r, *_ in edges:
        succ[q].add(r)
    state = {}

    def visit(q):
        state[q] = 1
        for r in succ[q]:
            if state.get(r) == 1 or r not in state and not visit(r):
                return False
        state[q] = 2
        return True
    return all(q in state or visit(q) for q in list(succ))


# ---------------------------------------------------------------- values

class Value:
    """One automaton of the pool, the language it denotes, and how it was obtained"""

    def __init__(self, what, kind, g, m, q0=None, f=None):
        self.what, self.kind, self.g, self.m, self.q0, self.f = what, kind, g, m, q0, f
        self.snap = self.snapshot()

    def snapshot(self):
        g = self.g
        return (sorted(g.vertices()), sorted((g.source(e), g.target(e), g.label(e)) for e in g.edges()),
                sorted(g.initials) if self.kind in ("frag", "nfa") else g.initial(), sorted(g.finals()))


def edges_of(g):
    return [(g.source(e), g.label(e), g.target(e)) for e in g.edges()]


def library_nfa_model(g):
    return subset({(q, None if a == g.epsilon else a, r) for q, a, r in edges_of(g)}, set(g.initials), set(g.finals()))


def same_model(c, got, want, what):
    same_language(c, Walk(got), want, want, lambda a, b: a, "pipeline-language", what)


class Walk:
    """A model seen as an automaton"""

    def __init__(self, m):
        self.m = m

    def num_vertices(self):
        return 1

    def initial(self):
        return self.m.q0

    def is_final(self, q):
        return q in self.m.fin

    def sigma(self, q):
        return self.m.sig(q)

    def delta(self, q, a):
        return self.m.d(q, a)


def a_word(c, m):
    """A random word, mostly of the language"""
    w, q = [], m.q0
    for _ in range(c.choose(7)):
        s = sorted(m.sig(q)) if q is not None else []
        if not s or c.flag(0.1):
            a = c.pick(ALPHA)
        else:
            a = c.pick(s)
        w.append(a)
        q = m.d(q, a) if q is not None else None
    return "".join(w), q is not None and q in m.fin


def judge(c, v):
    """The value denotes the language of its chain, whichever way it is asked"""
    g, m, what = v.g, v.m, v.what
    if v.kind in ("frag", "nfa"):
        same_model(c, library_nfa_model(g), m, what)
        if v.kind == "frag":
            c.eq((sorted(g.initials), sorted(g.finals())), ([v.q0], [v.f]), "pipeline-shape", what)
        for _ in range(2):
            w, yes = a_word(c, m)
            c.eq(bool(g.accepts(w)), yes, "pipeline-language", f"{what}: word {w!r}")
        return
    seen = set()
    for q, a, _ in edges_of(g):
        c.check((q, a) not in seen, "pipeline-shape", f"{what}: two transitions of {q} on {a!r}")
        seen.add((q, a))
    same_language(c, g, m, m, lambda a, b: a, "pipeline-language", what)
    for _ in range(2):
        w, yes = a_word(c, m)
        c.eq(bool(g.accepts(w)), yes, "pipeline-language", f"{what}: word {w!r}")


def unchanged(c, v, after):
    c.eq(v.snapshot(), v.snap, "input-changed", f"{v.what} after {after}")


# ---------------------------------------------------------------- stages

def g_class(lib, kind):
    return {"Automaton": lambda: lib.automaton.Automaton,
            "IncidenceAutomaton": lambda: lib.incidence_automaton.IncidenceAutomaton,
            "Trie": lambda: lib.trie.Trie}[kind]()


def source(c):
    """A value made from scratch"""
    lib = c.lib
    T = lib.thompson_compile_nfa
    k = c.weighted([(3, "regexp"), (2, "literal"), (2, "bracket"), (3, "dfa"), (3, "trie"), (1, "suffixes"),
                    (1, "compiled")])
    if k == "literal":
        a = c.pick(ALPHA[:3])
        return Value(f"literal {a}", "frag", *with_model(T.literal(a), m_set([a])))
    if k == "bracket":
        s = sorted({c.pick(ALPHA) for _ in range(c.int(1, 3))})
        return Value(f"bracket {s}", "frag", *with_model(T.bracket(s), m_set(s)))
    if k in ("regexp", "compiled"):
        text, m = regexp(c, 2)
        if k == "regexp":
            return Value(f"/{text}/", "frag", *with_model(T.thompson_compile_nfa(text), m))
        kw = {"complete": c.flag(0.5)}
        g = lib.regexp.compile_dfa(text, **kw)
        return Value(f"dfa of /{text}/ {kw}", type(g).__name__, g, m)
    if k == "dfa":
        g, m, kind = make_dfa(c, kinds=["Automaton", "IncidenceAutomaton", "IncidenceAutomaton", "NodeAutomaton",
                                        "IncidenceNodeAutomaton"], faulty=False, size=(1, 2, 3, 4, 6))
        return Value(f"{kind} {m}", kind, g, minimal(m))
    if k == "trie":
        g = lib.trie.Trie()
        ws = {"".join(c.pick(ALPHA[:3]) for _ in range(c.choose(5))) for _ in range(c.choose(5))}
        for w in c.shuffle(sorted(ws)):
            g.insert(w)
        return Value(f"trie of {sorted(ws)}", "Trie", g, m_set(ws))
    w = "".join(c.pick(ALPHA[:3]) for _ in range(c.choose(5)))
    g = lib.suffix_trie.make_suffix_trie(w)
    m = Dfa()
    m.n, m.q0 = g.num_vertices(), g.initial()
    m.t = {(q, a): r for q, a, r in edges_of(g)}
    m.fin = set(g.finals())
    return Value(f"suffix trie of {w!r}", "Trie", g, minimal(m))


def with_model(frag, m):
    g, q0, f = frag
    return g, m, q0, f


def regexp(c, depth):
    k = c.choose(6) if depth else 0
    if k < 2:
        a = c.pick(ALPHA[:3])
        return a, m_set([a])
    if k < 4:
        (s, x), (t, y) = regexp(c, depth - 1), regexp(c, depth - 1)
        return (f"({s})({t})", m_cat(x, y)) if k == 2 else (f"({s}|{t})", m_alt(x, y))
    s, x = regexp(c, depth - 1)
    lo, hi, op = c.pick([(0, None, "*"), (1, None, "+"), (0, 1, "?"), (2, 2, "{2}"), (0, 2, "{0,2}"), (2, None, "{2,}")])
    return f"({s}){op}", m_rep(x, lo, hi)


def duplicate(v):
    g = copy.deepcopy(v.g)
    return (g, v.q0, v.f) if v.kind == "frag" else g


def fragment(lib, v):
    """The triple that the operators on regular expressions take, as a copy: they work in place"""
    return copy.deepcopy(v.g), v.q0, v.f


def stage(c, pool):
    """(description, inputs, function, resulting model, kind of the result, extra check) or None"""
    lib = c.lib
    T = lib.thompson_compile_nfa
    v = c.pick(pool)
    small = [x for x in pool if x.m.n <= BIG and x.g.num_vertices() <= 4 * BIG]
    if v not in small:
        return None
    if c.flag(0.06):
        return f"deepcopy({v.what})", [v], lambda: duplicate(v), v.m, v.kind, None
    if v.kind == "frag":
        k = c.weighted([(3, "binary"), (3, "unary"), (4, "moore")])
        if k == "binary":
            w = c.pick([x for x in small if x.kind == "frag"])
            op = c.pick(["concatenation", "alternation"])
            m = (m_cat if op == "concatenation" else m_alt)(v.m, w.m)
            f = getattr(T, op)
            return (f"{op}({v.what}, {w.what})", [v, w], lambda: f(*fragment(lib, v), w.g, w.q0, w.f), m, "frag", None)
        if k == "unary":
            lo, hi = c.choose(3), c.pick([None, 0, 1, 2])
            hi = None if hi is None else lo + hi
            op = c.pick(["zero_or_one", "zero_or_more", "one_or_more", "repetition", "repetition_range"])
            args, rng = {"zero_or_one": ((), (0, 1)), "zero_or_more": ((), (0, None)), "one_or_more": ((), (1, None)),
                         "repetition": ((lo,), (lo, lo)), "repetition_range": ((lo, hi), (lo, hi))}[op]
            f = getattr(T, op)
            return (f"{op}{args}({v.what})", [v], lambda: f(*fragment(lib, v), *args), m_rep(v.m, *rng), "frag", None)
    if v.kind in ("frag", "nfa"):
        inc = c.flag(0.5)
        complete = c.flag(0.5)

        def moore():
            kw = {"dfa": lib.incidence_automaton.IncidenceAutomaton(0)} if inc else {}
            return lib.moore_determination.moore_determination(v.g, complete=complete, **kw)
        return (f"moore({v.what}, complete={complete})", [v], moore, v.m,
                "IncidenceAutomaton" if inc else "Automaton", None)
    # deterministic values
    g = v.g
    options = [(3, "product"), (2, "inclusion"), (3, "copy"), (3, "nfa")]
    inc = v.kind == "IncidenceAutomaton"
    if g.initial() is None or not g.num_vertices():
        # pruned down to nothing: the empty language
        options = options[:2] + [(4, "hopcroft")] * (inc and not g.num_vertices())
    elif inc:
        options += [(4, "hopcroft"), (2, "prune"), (3, "reverse")]
        if acyclic([(q, r) for q, _, r in edges_of(g)]):
            options.append((4, "revuz"))
    if v.kind == "Trie":
        options.append((4, "fusion"))
    k = c.weighted(options)
    if k in ("product", "inclusion"):
        w = c.pick([x for x in small if x.kind not in ("frag", "nfa")])
        if k == "inclusion":
            want = verdict(v.m, w.m)

            def ok(r):
                c.eq(r, want, "pipeline-inclusion", f"{v.what} and {w.what}")
            return (f"inclusion({v.what}, {w.what})", [v, w],
                    lambda: lib.deterministic_inclusion.deterministic_inclusion(g, w.g), None, "verdict", ok)
        both = c.flag(0.5)
        f = lib.deterministic_intersection.deterministic_intersection if both else \
            lib.deterministic_union.deterministic_union
        into = c.pick([None, "Automaton", "IncidenceAutomaton"])
        m = m_prod(v.m, w.m, (lambda a, b: a and b) if both else (lambda a, b: a or b))
        return (f"{'intersection' if both else 'union'}({v.what}, {w.what})", [v, w],
                lambda: f(g, w.g) if into is None else f(g, w.g, g_class(lib, into)(0)), m, into or "Automaton", None)
    if k == "fusion":
        w = c.pick([x for x in small if x.kind == "Trie"])

        def fuse():
            t = lib.trie.Trie()
            for x in (v, w):
                t.insert(x.g)
            return t
        return (f"fusion({v.what}, {w.what})", [v, w], fuse, m_prod(v.m, w.m, lambda a, b: a or b), "Trie", None)
    if k == "copy":
        to = c.pick(["Automaton", "IncidenceAutomaton", "IncidenceAutomaton"])
        return (f"copy({v.what})", [v], lambda: copied(lib, g, to), v.m, to, None)
    if k == "nfa":
        rev = inc and c.flag(0.6)
        return ((f"reversed({v.what})" if rev else f"inserted({v.what})"), [v],
                lambda: as_nfa(c, g, rev), m_rev(v.m) if rev else v.m, "frag", None)
    if k == "hopcroft":
        trim = set(g.vertices()) == useful(library_dfa(g))

        def ok(h):
            if trim:
                n = classes(library_dfa(g), sorted(g.vertices()))
                c.eq(h.num_vertices(), n, "pipeline-minimal", f"hopcroft({v.what})")
        return f"hopcroft({v.what})", [v], lambda: lib.hopcroft_minimize.hopcroft_minimize(g), v.m, v.kind, ok
    # stages that work in place, on a copy
    if k == "prune":
        def prune():
            h = copied(lib, g, v.kind)
            lib.prune_incidence_automaton.prune_incidence_automaton(h)
            return h

        def ok(h):
            if v.m.fin:
                c.eq(set(h.vertices()), useful(library_dfa(h)), "pipeline-trim", f"prune({v.what})")
        return f"prune({v.what})", [v], prune, v.m, v.kind, ok
    if k == "revuz":
        trim = c.flag(0.6) and v.m.fin

        def revuz():
            h = copied(lib, g, v.kind)
            if trim:
                lib.prune_incidence_automaton.prune_incidence_automaton(h)
            lib.revuz_minimize.revuz_minimize(h)
            return h

        def ok(h):
            if trim:
                c.eq(h.num_vertices(), v.m.n, "pipeline-minimal", f"revuz({v.what})")
        return f"revuz({v.what})", [v], revuz, v.m, v.kind, ok
    # Brzozowski: reverse, determinise, twice

    def brzozowski():
        h = g
        for _ in range(2):
            n = as_nfa(c, h, True, False)[0]
            h = lib.moore_determination.moore_determination(
                n, dfa=lib.incidence_automaton.IncidenceAutomaton(0), complete=False)
        return h

    def ok(h):
        if v.m.fin:
            live = useful(library_dfa(h))
            c.eq(len(live), v.m.n, "pipeline-minimal", f"double reversal of {v.what}")
    return f"brzozowski({v.what})", [v], brzozowski, v.m, "IncidenceAutomaton", ok


def library_dfa(g):
    m = Dfa()
    m.n, m.q0 = g.num_vertices(), g.initial()
    m.t = {(q, a): r for q, a, r in edges_of(g)}
    m.fin = set(g.finals())
    return m


def copied(lib, g, to):
    """A copy made by the library, with the initial and final states that its callback carries over"""
    d = g_class(lib, to)(0)

    def vertex(u, g1, ud, gd):
        if g1.is_initial(u):
            gd.set_initial(ud)
        if g1.is_final(u):
            gd.set_final(ud)
    lib.automaton_copy.automaton_copy(g.initial(), g, d, callback_dup_vertex=vertex)
    return d


def as_nfa(c, g, rev, single=True):
    """(The reversal of) a deterministic automaton, with one initial and one final state around it or its own ones"""
    lib = c.lib
    n = lib.nfa.Nfa(0)
    if rev:
        # on a copy: the reversal works in place
        g = copied(lib, g, "IncidenceAutomaton")
    ini, fin = [g.initial()], sorted(g.finals())
    if rev:
        lib.reverse.reverse_graph(g)
        ini, fin = fin, ini
    to = lib.thompson_compile_nfa.insert_automaton(n, g)
    for q in list(n.finals()):
        n.set_final(q, False)
    if not single:
        n.set_initials({to[q] for q in ini})
        for q in fin:
            n.set_final(to[q])
        return n, None, None
    q0, f = n.add_vertex(), n.add_vertex()
    for q in ini:
        n.add_edge(q0, to[q], n.epsilon)
    for q in fin:
        n.add_edge(to[q], f, n.epsilon)
    n.set_initials({q0})
    n.set_final(f)
    return n, q0, f


# ---------------------------------------------------------------- structure

def structure(c, v):
    """Structural algorithms on a result, against its own listing of vertices and transitions"""
    lib, g = c.lib, v.g
    P = lib.property_map
    vs = sorted(g.vertices())
    es = [(g.source(e), g.target(e)) for e in g.edges()]
    succ = {u: set() for u in vs}
    for x, y in es:
        succ[x].add(y)

    def reach(s):
        d, todo = {s: 0}, deque([s])
        while todo:
            x = todo.popleft()
            for y in succ[x]:
                if y not in d:
                    d[y] = d[x] + 1
                    todo.append(y)
        return d
    if not vs:
        return
    s = c.pick(vs)
    d = reach(s)
    k = c.pick(["bfs", "dfs", "dijkstra", "scc", "topo", "words"])
    what = f"{k} on {v.what}"
    if k in ("bfs", "dfs"):
        color = defaultdict(int)
        f = lib.breadth_first_search.breadth_first_search if k == "bfs" else \
            lib.depth_first_search.depth_first_search
        f(s, g, P.make_assoc_property_map(color))
        c.eq({u for u in color if color[u]}, set(d), "pipeline-structure", what)
    elif k == "dijkstra":
        dist, preds = defaultdict(int), defaultdict(set)
        lib.dijkstra_shortest_paths.dijkstra_shortest_paths(
            g, s, P.make_func_property_map(lambda e: 1), P.make_assoc_property_map(preds),
            P.make_assoc_property_map(dist))
        c.eq({u: dist[u] for u in d}, d, "pipeline-structure", what)
    elif k == "scc":
        comp = defaultdict(int)
        n = lib.strong_components.strong_components(g, P.make_assoc_property_map(comp))
        r = {u: set(reach(u)) for u in vs}
        c.eq(n, len({frozenset(w for w in r[u] if u in r[w]) for u in vs}), "pipeline-structure", what)
        for u in vs:
            for w in r[u]:
                c.eq(comp[u] == comp[w], u in r[w], "pipeline-structure", f"{what}: {u} and {w}")
    elif k == "topo":
        try:
            order = list(lib.topological_sort.topological_sort(g))
        except RuntimeError as e:
            if isinstance(e, RecursionError):
                raise
            order = None
        c.eq(order is not None, acyclic(es), "pipeline-structure", what)
        if order is not None:
            pos = {u: i for i, u in enumerate(order)}
            c.eq(sorted(order), vs, "pipeline-structure", what)
            for x, y in es:
                c.check(pos[x] < pos[y], "pipeline-structure", f"{what}: {(x, y)} in {order}")
    elif v.kind not in ("frag", "nfa") and v.m.fin:
        # the shortest word, by distances in the automaton
        s = g.initial()
        dist = defaultdict(int)
        lib.dijkstra_shortest_paths.dijkstra_shortest_paths(
            g, s, P.make_func_property_map(lambda e: 1), P.make_assoc_property_map(defaultdict(set)),
            P.make_assoc_property_map(dist))
        got = min(dist[q] for q in g.finals() if q in dist)
        m, e = v.m, {v.m.q0: 0}
        todo = deque([m.q0])
        while todo:
            x = todo.popleft()
            for a in m.sig(x):
                y = m.d(x, a)
                if y not in e:
                    e[y] = e[x] + 1
                    todo.append(y)
        c.eq(got, min(e[q] for q in m.fin), "pipeline-structure", f"shortest word of {v.what}")
    c.probe("structure-" + k)


# ---------------------------------------------------------------- edits

def edit(c, pool):
    """The caller changes a result in place: it takes the change, and no other automaton notices"""
    v = c.pick(pool)
    g = v.g
    vs, es = sorted(g.vertices()), list(g.edges())
    if v.what.startswith(("suffix trie", "deepcopy(")) and "suffix" in v.what and v.kind == "Trie":
        # all its states are final, by a read-only map
        return
    if not vs and "Node" not in v.kind and v.kind not in ("frag", "Trie"):
        # a first state
        vs = [g.add_vertex()]
        g.set_initial(vs[0])
    if not vs or v.kind not in ("frag", "nfa") and g.initial() is None:
        return
    q, r, a = c.pick(vs), c.pick(vs), c.pick(ALPHA[:3])
    want = {(g.source(e), g.label(e), g.target(e)) for e in es}
    fin, ini = set(g.finals()), (set(g.initials) if v.kind == "frag" else g.initial())
    if v.kind == "Trie":
        k = c.pick(["insert", "final"])
    elif v.kind == "frag":
        k = c.pick(["add", "remove"])
    else:
        k = c.pick(["add"] * ("Node" not in v.kind) + ["remove", "final", "vertex", "initial"])
    e = c.pick(sorted(es, key=lambda e: (g.source(e), g.target(e), g.label(e)))) if es else None
    if k == "insert":
        w = "".join(c.pick(ALPHA[:3]) for _ in range(c.choose(4)))
        g.insert(w)
        v.m = m_prod(v.m, m_set([w]), lambda x, y: x or y)
        v.what += f"+{w!r}"
        v.snap = v.snapshot()
    else:
        if k == "add":
            if v.kind == "frag":
                want.add((q, a, r))
                g.add_edge(q, r, a)
            elif g.delta(q, a) is None:
                want.add((q, a, r))
                g.add_edge(q, r, a)
        elif k == "remove" and e is not None:
            want.discard((g.source(e), g.label(e), g.target(e)))
            g.remove_edge(e)
        elif k == "final":
            g.set_final(q, q not in fin)
            fin ^= {q}
        elif k == "vertex" and q != ini:
            g.remove_vertex(q)
            want = {x for x in want if q not in (x[0], x[2])}
            fin.discard(q)
            vs.remove(q)
        elif k == "initial":
            g.set_initial(q)
            ini = q
        c.eq((sorted(g.vertices()), sorted(edges_of(g)), set(g.finals()),
              set(g.initials) if v.kind == "frag" else g.initial()), (vs, sorted(want), fin, ini),
             "pipeline-edit", f"{k} on {v.what}")
        if v.kind == "frag":
            v.m = subset({(x, None if b == g.epsilon else b, y) for x, b, y in want}, ini, fin)
        else:
            m = Dfa()
            m.n, m.q0, m.t, m.fin = len(vs), ini, {(x, b): y for x, b, y in want}, fin
            v.m = minimal(m)
        v.what += "*"
        v.snap = v.snapshot()
    c.probe("edit-" + k)
    c.ev("edit", k, v.what[:60])
    judge(c, v)
    for x in pool:
        unchanged(c, x, f"{k} on {v.what}")


# ---------------------------------------------------------------- runs

def accept(c, st, r):
    what, inputs, fn, m, kind, ok = st
    if ok is not None:
        ok(r)
    for x in inputs:
        unchanged(c, x, what)
    if kind == "verdict":
        return None
    v = Value(what, kind, *with_model(r, m)) if kind == "frag" else Value(what, kind, r, m)
    judge(c, v)
    return v


def budget_of(st):
    n = 4 + sum(x.g.num_vertices() + x.g.num_edges() for x in st[1]) + (st[3].n if st[3] else 0)
    return 400000 + 30000 * n * n


def chains(c):
    reorder(c)
    pool = []
    for _ in range(c.int(1, 3)):
        v = source(c)
        judge(c, v)
        c.ev("source", v.what[:60])
        pool.append(v)
    for _ in range(c.int(3, 9)):
        mode = c.weighted([(6, "plain"), (3, "abort"), (3, "threads")])
        if c.flag(0.4):
            reorder(c)
        if c.flag(0.25):
            edit(c, pool)
        st = stage(c, pool)
        if st is None:
            v = source(c)
            judge(c, v)
            pool.append(v)
            continue
        c.ev(mode, st[0][:80])
        c.probe("stage-" + st[0].split("(")[0])
        new = []
        if mode == "threads":
            sts = [x for x in [st, stage(c, pool)] if x]
            s = Sched(c, c.pick([10, 50, 200]), 100)
            for x in sts:
                s.spawn(x[2])
            with c.limit(sum(map(budget_of, sts)), "concurrent stages"):
                tasks = s.run()
            for x, y in zip(tasks, sts):
                if x.exc is not None:
                    raise x.exc
                new.append(accept(c, y, x.result))
        else:
            if mode == "abort":
                exc = pick_abort(c)
                c.arm_abort(c.int(1, 4000), exc)
                try:
                    with c.limit(budget_of(st), st[0]):
                        st[2]()
                    c.disarm_abort()
                except (SimKeyboardInterrupt, SimMemoryError) as e:
                    c.disarm_abort()
                    c.check(e is exc, "error-propagation", repr(e))
                    c.fault("abort-" + type(e).__name__)
            with c.limit(budget_of(st), st[0]):
                r = st[2]()
            new.append(accept(c, st, r))
        for v in new:
            if v is not None:
                if c.flag(0.6):
                    structure(c, v)
                    unchanged(c, v, "structural algorithms")
                pool.append(v)
        while len(pool) > 6:
            pool.pop(c.choose(len(pool) - 1))
    for v in pool:
        unchanged(c, v, "the whole chain")
        judge(c, v)


SCENARIOS = [(1, "chains", chains)]
