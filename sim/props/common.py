"""Helpers shared by the scenarios: lazily consumed listings, generators, small reference models."""
from ..kernel import Violation, Injected, SimKeyboardInterrupt, SimMemoryError, MON


def sig(g, e):
    """Hashable signature of an edge descriptor"""
    return (g.source(e), g.target(e), e.distinguisher)


def multiset(it):
    d = {}
    for x in it:
        d[x] = d.get(x, 0) + 1
    return d


def descriptors(c, es, key, what):
    """Descriptors stand for their edges: equal, same hash and neither before the other if and only if they
    denote one edge; the order is total"""
    for e in es:
        for f in es:
            same = key(e) == key(f)
            c.eq(bool(e == f), same, "descriptor", f"{what}: {key(e)} == {key(f)}")
            c.check(not same or hash(e) == hash(f), "descriptor", f"{what}: {key(e)} has two hashes")
            c.eq((e < f) + (f < e), 0 if same else 1, "descriptor", f"{what}: order of {key(e)} and {key(f)}")


class OpenListing:
    """A listing that a client consumes step by step while other clients keep reading"""

    def __init__(self, c, who, name, it, key, want):
        self.c, self.who, self.name, self.it, self.key = c, who, name, iter(it), key
        self.want = multiset(want)
        self.got = {}

    def step(self, n):
        """Returns True when the listing is exhausted (and then it was checked)"""
        for _ in range(n):
            try:
                x = next(self.it)
            except StopIteration:
                self.c.eq(self.got, self.want, "listing", f"{self.name} consumed lazily")
                self.c.probe("lazy-listing-completed")
                return True
            k = self.key(x)
            self.got[k] = self.got.get(k, 0) + 1
            self.c.check(self.got[k] <= self.want.get(k, 0), "listing",
                         f"{self.name} consumed lazily: unexpected item {k!r}")
        return False


class Listings:
    def __init__(self, c):
        self.c = c
        self.open = []

    def add(self, who, name, it, key, want):
        if len(self.open) < 4:
            self.open.append(OpenListing(self.c, who, name, it, key, want))

    def step(self):
        if self.open:
            i = self.c.choose(len(self.open))
            if self.open[i].step(self.c.int(1, 3)):
                self.open.pop(i)

    def mutated(self):
        self.open.clear()

    def finish(self):
        for o in self.open:
            o.step(10000)
        self.open.clear()


def pick_abort(c):
    return c.pick([SimKeyboardInterrupt, SimMemoryError])()


def aborted_read(c, fn, span=60):
    """Run a read-only call that is aborted at an arbitrary simulated instant"""
    exc = pick_abort(c)
    c.arm_abort(c.int(1, span), exc)
    try:
        r = fn()
        if hasattr(r, "__next__"):
            r = list(r)
        c.disarm_abort()
        return ("ok", r)
    except (SimKeyboardInterrupt, SimMemoryError) as e:
        c.disarm_abort()
        if e is not exc:
            raise
        c.fault("abort-" + type(e).__name__)
        return ("aborted", None)


def gen_edges(c, n, m, loops=True, dag=False):
    """m random pairs over 0..n-1 (duplicates possible)"""
    out = []
    for _ in range(m):
        u, v = c.choose(n), c.choose(n)
        if dag:
            if u == v:
                continue
            u, v = min(u, v), max(u, v)
        if not loops and u == v:
            continue
        out.append((u, v))
    return out


def alphabet_of(c, chars="abc", odd=0.15):
    """Symbols are any strings, mostly single characters"""
    if not c.flag(odd):
        return chars
    return c.shuffle(c.pick([["", "ab", "a"], [" ", "\n", "\u00e9"], ["0", "", "00"], ["aa", "a", "b"]]))[:len(chars)]


def word_of(xs):
    """A word over any symbols: a string where symbols are single characters"""
    return "".join(xs) if all(isinstance(x, str) and len(x) == 1 for x in xs) else tuple(xs)


def words_upto(alphabet, n):
    out = [""]
    cur = [""]
    for _ in range(n):
        cur = [w + a for w in cur for a in alphabet]
        out += cur
    return out


FUNCTIONS = {
    "graph": "vertices num_vertices has_vertex add_vertex remove_vertex edges num_edges has_edge add_edge remove_edge "
             "in_edges in_degree out_edges out_degree edge source target",
    "automaton": "accepts add_edge edge sigma alphabet is_initial initial is_final label set_initial set_final finals "
                 "delta delta_word is_finite is_deterministic is_complete delta_best_effort automaton_insert_string",
    "node_automaton": "add_vertex symbol add_edge edge",
    "nfa": "is_epsilon_transition initials set_initials delta_word",
}
GRAPH_AT = {"delta_best_effort": 0, "automaton_insert_string": 0, "set_final": 1, "set_initial": 1}


class Either:
    """A graph that a caller uses through its methods, through the equivalent free functions of
    the library, or through both in turn: the three must be the same."""

    def __init__(self, c, g, *mods, methods_only=()):
        self.g, self.c, self.mode, self.n = g, c, 0, 0
        self.answers = Answers(c)
        self.fun = {}
        for m in reversed(mods):
            for name in FUNCTIONS[m].split():
                if name not in methods_only:
                    self.fun[name] = getattr(getattr(c.lib, m), name)

    def toss(self):
        self.mode = self.c.choose(3)

    def __getattr__(self, name):
        f = self.fun.get(name)
        self.n += 1
        if f is None or self.mode == 0 or (self.mode == 2 and self.n % 2):
            return getattr(self.g, name)
        i, g = GRAPH_AT.get(name), self.g
        if i is None:
            return lambda *args: f(*args, g)
        return lambda *args: f(*args[:i], g, *args[i:])


class HollowFunction:
    def __init__(self, f):
        self.f = f

    def __call__(self, *args, **kw):
        return self.f(*args, **kw)

    def __len__(self):
        return 0


def hollow(c, x, p=0.4):
    """The same caller-supplied object; in some runs its type defines a length, and it is empty, hence falsy: an object
    that is given is used, whatever its truth value"""
    if c.flag(p):
        if callable(x) and not hasattr(x, "__dict__") or isinstance(x, type(hollow)):
            return HollowFunction(x)
        k = type(x)
        x.__class__ = type(k.__name__, (k,), {"__len__": lambda self: 0})
    return x


class Answers:
    """Answers belong to the caller: they stay what they were when the graph changes, and what the caller
    does with them does not reach the graph"""

    def __init__(self, c):
        self.c, self.mode, self.kept = c, 0, []

    def start(self):
        for x, was, what in self.kept:
            self.c.eq(set(x), was, "answer-changed", f"an earlier answer of {what}")
        if len(self.kept) > 6:
            self.kept.clear()
        self.mode = self.c.weighted([(4, 0), (1, 1), (1, 2)])

    def __call__(self, x, what):
        was = set(x)
        if self.mode == 1:
            if not hasattr(x, "__next__") and len(self.kept) < 12:
                self.kept.append((x, was, what))
        elif self.mode == 2:
            if hasattr(x, "clear"):
                x.clear()
            if hasattr(x, "add"):
                x.add("?")
        return was
