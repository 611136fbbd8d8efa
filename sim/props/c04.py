"""C04: digital structures hold exactly the inserted words"""
from .common import pick_abort, words_upto
from ..kernel import SimKeyboardInterrupt, SimMemoryError

RULE = ("One run = one seeded history of 6 to 25 operations issued by several clients on 2 to 3 tries (insertion of "
        "words, of tries, of digital sequences, of suffix tries; insertions aborted at an arbitrary simulated "
        "instant and retried; comparisons), checked after every step against sets of words.")
REAL = ["Trie", "trie_deterministic_fusion", "make_suffix_trie", "factors", "DigitalSequence", "trie_matching",
        "parallel_breadth_first_search", "Automaton"]
STUB = ["none (abort instants and set order are simulator-controlled)"]
RUNS = {"quick": 26000, "thorough": 320000}
ALPHA = "ab"
PROBES = words_upto("ab", 4)


def prefixes(words):
    return {w[:i] for w in words for i in range(len(w) + 1)}


def word(c, n=5):
    alpha = ALPHA if c.flag(0.8) else "abc"
    return "".join(c.pick(alpha) for _ in range(c.choose(n + 1)))


def language(c, t, words, what):
    """The accepted words of the model, and no other probe word"""
    for w in sorted(words):
        c.check(t.accepts(w), "lost-word", f"{what}: {w!r} rejected")
    probes = {c.pick(PROBES) for _ in range(6)} | {w + "a" for w in list(sorted(words))[:3]} \
        | {w[:-1] for w in list(sorted(words))[:4]}
    for w in sorted(probes):
        c.eq(bool(t.accepts(w)), w in words, "language", f"{what}: {w!r}")


def shape(c, t, words, extra_prefixes, what):
    """As many states as distinct prefixes (the root included), and a tree shape"""
    pre = prefixes(words) | {""} | extra_prefixes
    c.eq(t.num_vertices(), len(pre), "num_vertices", what)
    c.eq(t.num_edges(), len(pre) - 1, "num_edges", what)
    c.eq(len(list(t.edges())), len(pre) - 1, "edges", what)
    indeg = {}
    for e in t.edges():
        indeg[t.target(e)] = indeg.get(t.target(e), 0) + 1
    c.check(all(v == 1 for v in indeg.values()) and t.initial() not in indeg, "tree-shape", what)
    c.eq(len(t.finals()), len(words), "finals", what)


def full_language(t, alpha="abc", depth=7):
    """Enumerate the accepted words by walking the real automaton"""
    out = set()
    todo = [(t.initial(), "")]
    while todo:
        q, w = todo.pop()
        if t.is_final(q):
            out.add(w)
        if len(w) < depth:
            for a in alpha:
                r = t.delta(q, a)
                if r is not None:
                    todo.append((r, w + a))
    return out


def history(c):
    lib = c.lib
    Trie = lib.trie.Trie
    k = c.int(2, 3)
    ts = [Trie() for _ in range(k)]
    ms = [set() for _ in range(k)]
    clean = [True] * k        # False once an insertion was aborted (orphan states are then tolerated)
    for step in range(c.pick([6, 12, 25])):
        i = c.choose(k)
        t, m = ts[i], ms[i]
        op = c.weighted([(10, "word"), (4, "fuse"), (2, "digital"), (3, "abort_word"), (3, "abort_fuse"),
                         (3, "match"), (2, "suffix")])
        if op == "word":
            w = word(c)
            t.insert(w)
            m.add(w)
            c.ev(i, op, w)
        elif op == "digital":
            w = word(c)
            t.insert(lib.digital_sequence.DigitalSequence(w))
            m.add(w)
            c.ev(i, op, w)
        elif op == "fuse":
            j = c.choose(k)
            if j == i or not clean[j]:
                continue
            before = full_language(ts[j])
            lib.trie.trie_deterministic_fusion(t, ts[j]) if c.flag(0.5) else t.insert(ts[j])
            m |= ms[j]
            c.ev(i, op, j)
            c.eq(full_language(ts[j]), before, "fusion-argument", f"trie {j} changed by the fusion")
            if "" in m or m:
                # prefixes of the second operand are states of the first
                pass
        elif op == "suffix":
            w = word(c, 4)
            ml = c.pick([None, 1, 2, 3, 3, 0])
            facts = {w[a:b] for a in range(len(w)) for b in range(a + 1, len(w) + 1)
                     if ml is None or b - a <= ml} | {""}
            c.eq(set(lib.suffix_trie.factors(w, ml)), facts, "factors", f"{w!r} {ml}")
            cuts = [(0, 0)] + [(a, b) for a in range(len(w)) for b in range(a + 1, len(w) + 1) if ml is None or b - a <= ml]
            c.eq(sorted(lib.suffix_trie.slices(len(w), ml)), cuts, "factors", f"slices of {w!r} {ml}")
            s = lib.suffix_trie.make_suffix_trie(w, ml)
            c.eq(full_language(s), facts, "suffix-trie", f"{w!r} max_len={ml}")
            c.eq(s.num_vertices(), len(facts), "suffix-trie", f"states of {w!r} max_len={ml}")
            c.ev(i, op, w, ml)
            own = set(facts)
            if c.flag(0.5):
                # cumulative construction over an existing suffix trie
                w2 = word(c, 4)
                f2 = {w2[a:b] for a in range(len(w2)) for b in range(a + 1, len(w2) + 1)
                      if ml is None or b - a <= ml} | {""}
                s2 = lib.suffix_trie.make_suffix_trie(w2, ml, s)
                c.eq(full_language(s2), facts | f2, "suffix-trie", f"{w!r} then {w2!r} max_len={ml}")
                c.eq(s2.num_vertices(), len(facts | f2), "suffix-trie", "states")
                facts |= f2
            if clean[i] and c.flag(0.3):
                # construction in a trie that holds words already (or nothing at all)
                c.check(lib.suffix_trie.make_suffix_trie(w, ml, t) is t, "suffix-trie", "not the given trie")
                m |= own
                e = lib.trie.Trie(num_vertices=0)
                lib.suffix_trie.make_suffix_trie(w, g=e, max_len=ml)
                c.eq(full_language(e), own, "suffix-trie", f"{w!r} in an empty trie")
            elif c.flag(0.4):
                t.insert(s)
                m |= facts
        elif op in ("abort_word", "abort_fuse"):
            if op == "abort_word":
                w = word(c, 7)
                arg, new = w, {w}
            else:
                j = c.choose(k)
                if j == i:
                    continue
                arg, new = ts[j], set(ms[j])
                clean[i] = clean[i] and clean[j]
            exc = pick_abort(c)
            c.arm_abort(c.int(1, 40 if op == "abort_word" else 900), exc)
            aborted = False
            try:
                t.insert(arg)
            except (SimKeyboardInterrupt, SimMemoryError) as e:
                if e is not exc:
                    raise
                aborted = True
                c.fault("abort-insert-" + type(e).__name__)
            c.disarm_abort()
            c.ev(i, op, sorted(new), aborted)
            got = full_language(t)
            if aborted:
                clean[i] = False
                c.check(m <= got, "crash-consistency", f"words {sorted(m - got)} lost by an aborted insertion")
                c.check(got <= m | new, "crash-consistency",
                        f"words {sorted(got - m - new)} appeared with an aborted insertion of {sorted(new)}")
                if c.flag(0.7):
                    t.insert(arg)          # retry until it succeeds
                    m |= new
                    c.probe("retried-insertion")
                else:
                    m.clear()
                    m |= got
            else:
                m |= new
        elif op == "match":
            j = c.choose(k)
            if not (clean[i] and clean[j]):
                continue
            a, b = ms[i], ms[j]
            pre = prefixes(a) | prefixes(b) | {""}
            want = [0, 0, 0, 0]
            for p in pre:
                want[(p in a) + 2 * (p in b)] += 1
            c.eq(list(lib.trie_matching.trie_matching(t, ts[j])), want, "trie-matching", f"{sorted(a)} {sorted(b)}")
            c.ev(i, op, j)
            if c.flag(0.3):
                w = word(c)
                d = lib.digital_sequence.DigitalSequence(w)
                pre = prefixes(a) | prefixes({w}) | {""}
                want = [0, 0, 0, 0]
                for p in pre:
                    want[(p in a) + 2 * (p == w)] += 1
                c.eq(list(lib.trie_matching.trie_matching(t, d)), want, "trie-matching", f"{sorted(a)} {w!r}")
        for x in range(k):
            if x == i or c.flag(0.2):
                c.eq(full_language(ts[x]), ms[x], "language", f"trie {x}")
                language(c, ts[x], ms[x], f"trie {x}")
                if clean[x]:
                    shape(c, ts[x], ms[x], set(), f"trie {x}")


def digital(c):
    """A digital sequence behaves as the trie of its single word and refuses every mutation"""
    lib = c.lib
    w = word(c, 8)
    d = lib.digital_sequence.DigitalSequence(w)
    n = len(w)
    c.ev("digital", w)
    for _ in range(c.int(2, 8)):
        q = c.int(0, n)
        op = c.choose(7)
        c.ev(op, q)
        if op == 0:
            c.eq(set(d.vertices()), set(range(n + 1)), "digital", "vertices")
            c.eq((d.num_vertices(), d.num_edges()), (n + 1, n), "digital", "sizes")
            c.eq(sorted((d.source(e), d.target(e), d.label(e)) for e in d.edges()),
                 [(i, i + 1, w[i]) for i in range(n)], "digital", "edges")
            c.eq(set(d.alphabet()), set(w), "digital", "alphabet")
        elif op == 1:
            out = [(d.source(e), d.target(e), d.label(e)) for e in d.out_edges(q)]
            c.eq(out, [(q, q + 1, w[q])] if q < n else [], "digital", "out_edges")
            inn = [(d.source(e), d.target(e), d.label(e)) for e in d.in_edges(q)]
            c.eq(inn, [(q - 1, q, w[q - 1])] if q else [], "digital", "in_edges")
            c.eq(set(d.sigma(q)), {w[q]} if q < n else set(), "digital", "sigma")
        elif op == 2:
            for a in "abc":
                c.eq(d.delta(q, a), q + 1 if q < n and w[q] == a else None, "digital", f"delta({q}, {a})")
            c.eq((d.is_initial(q), d.is_final(q)), (q == 0, q == n), "digital", "initial/final")
            c.eq(set(d.finals()), {n}, "digital", "finals")
        elif op == 3:
            v = w if c.flag(0.4) else word(c, 8)
            c.eq(bool(d.accepts(v)), v == w, "digital", f"accepts {v!r}")
        elif op == 4:
            k = 0
            v = w[:c.int(0, n)] + word(c, 3)
            while k < len(v) and k < n and v[k] == w[k]:
                k += 1
            c.eq(tuple(d.delta_best_effort(v)), (k, k), "digital", f"delta_best_effort {v!r}")
        elif op == 5:
            f = c.pick([lambda: d.clear(), lambda: d.set_final(q), lambda: d.set_initial(q),
                        lambda: d.remove_edge(next(iter(d.edges()), None)), lambda: d.add_vertex(), lambda: d.add_edge(0, 0, "a"), lambda: d.insert("ab"),
                        lambda: d.remove_vertex(0), lambda: d.remove_edge(None), lambda: d.set_final(),
                        lambda: d.set_initial()])
            r, x = c.call(f)
            c.fault("refused-mutation")
            c.check(r == "exc", "digital", "a digital sequence accepted a mutation")
            c.eq(full_language(d, depth=9), {w}, "digital", "language")
        elif op == 6:
            c.eq((d.in_degree(q), d.out_degree(q)), (int(q > 0), int(q < n)), "digital", f"degrees of {q}")
            r, a = c.int(0, n), c.pick("abc")
            e, found = d.edge(q, r, a)
            c.eq(bool(found), r == q + 1 and w[q] == a, "digital", f"edge({q}, {r}, {a!r})")
            if found:
                c.eq((d.source(e), d.target(e), d.label(e)), (q, r, a), "digital", "edge found")
            v = w[q:c.int(q, n)] + (word(c, 2) if c.flag(0.5) else "")
            c.eq(d.delta_word(q, v), q + len(v) if w[q:].startswith(v) else None, "digital", f"delta_word({q}, {v!r})")
            c.eq(bool(d.is_complete()), n == 0, "digital", "is_complete")
            c.eq((bool(d.has_vertex()), bool(d.has_edge())), (True, n > 0), "digital", "emptiness")


SCENARIOS = [(5, "tries", history), (1, "digital", digital)]
