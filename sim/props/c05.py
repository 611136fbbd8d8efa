"""C05: BK-trees answer nearest-neighbour queries exactly, whatever the metric does"""
from .common import pick_abort
from ..kernel import Injected, Sched, SimKeyboardInterrupt, SimMemoryError

RULE = ("One run = one seeded history of 8 to 40 insertions and queries by interleaved clients on one BK-tree whose "
        "metric is a caller callback that may fail at any call; queries also run as simulated threads; every answer "
        "is compared with an exhaustive scan of the model set.")
REAL = ["BKTree", "make_bk_tree", "bk_tree_insert", "Automaton", "levenshtein_distance"]
STUB = ["caller-supplied metrics (fault-injecting)"]
RUNS = {"quick": 30000, "thorough": 400000}


def lev(a, b):
    prev = list(range(len(b) + 1))
    for i, x in enumerate(a, 1):
        cur = [i]
        for j, y in enumerate(b, 1):
            cur.append(min(prev[j] + 1, cur[-1] + 1, prev[j - 1] + (x != y)))
        prev = cur
    return prev[-1]


METRICS = {
    "levenshtein": (lev, lambda c: "".join(c.pick("abc") for _ in range(c.choose(5)))),
    "absolute": (lambda x, y: abs(x - y), lambda c: c.choose(40)),
    "manhattan": (lambda x, y: abs(x[0] - y[0]) + abs(x[1] - y[1]), lambda c: (c.choose(7), c.choose(7))),
    "discrete": (lambda x, y: int(x != y), lambda c: c.choose(6)),
    "float": (lambda x, y: abs(x - y) / 4, lambda c: c.choose(30)),
    "hamming": (lambda x, y: bin(x ^ y).count("1"), lambda c: c.choose(32)),
}


def history(c):
    lib = c.lib
    name = c.pick(sorted(METRICS))
    d, gen = METRICS[name]
    real_lev = name == "levenshtein" and c.flag(0.3)

    def metric(x, y):
        c.cb("metric")
        return lib.levenshtein_distance.levenshtein_distance(x, y) if real_lev else d(x, y)
    m = []
    ids = {}

    def search(w, dmax, root=None):
        if root is not None:
            # the search is limited to the elements below the given node
            r = t.search(w, r=root) if dmax is None else t.search(w, dmax, root)
            ds, todo = [], [root]
            while todo:
                u = todo.pop()
                ds.append(d(w, t.element(u)))
                todo += [t.target(e) for e in t.out_edges(u)]
        else:
            r = t.search(w) if dmax is None else t.search(w, dmax)
            ds = [d(w, x) for x in m]
        best = min(ds) if ds else None
        if best is None or (dmax is not None and best > dmax):
            c.eq(r, None, "search", f"{name}: {w!r} within {dmax}")
        else:
            c.check(r is not None, "search", f"{name}: {w!r} within {dmax}: nothing found, nearest is at {best}")
            c.check(r[1] == best, "search", f"{name}: {w!r} within {dmax}: got distance {r[1]}, nearest is at {best}")
            c.check(r[0] in m and d(w, r[0]) == best, "search", f"{name}: {w!r}: {r[0]!r} is not a nearest element")

    if c.flag(0.4):
        init = [gen(c) for _ in range(c.choose(8))]
        if name == "levenshtein" and c.flag(0.3):
            # the default metric, words from a one-shot iterable
            t = lib.bk_tree.make_bk_tree(iter(init))
        else:
            t = lib.bk_tree.make_bk_tree(init, metric)
        for x in init:
            if x not in m:
                m.append(x)
        c.ev("make", name, init)
    else:
        t = lib.bk_tree.BKTree(metric)
        c.ev("new", name)
    for u in t.vertices():
        ids[t.element(u)] = u
    c.eq(sorted(map(repr, ids)), sorted(map(repr, m)), "elements", name)
    for step in range(c.pick([8, 16, 40])):
        op = c.weighted([(10, "insert"), (8, "search"), (3, "fault_insert"), (2, "fault_search"), (2, "threads"),
                         (2, "abort_search")])
        w = gen(c)
        if op == "insert":
            at = (t.root,) if c.flag(0.3) else ()
            u = lib.bk_tree.bk_tree_insert(w, t, *at) if c.flag(0.4) else t.insert(w, *at)
            c.ev(op, w, u)
            if w in ids:
                c.eq(u, ids[w], "insert", f"{name}: {w!r} already present")
            else:
                c.check(u not in ids.values(), "insert", f"{name}: {w!r} got the id of another element")
                ids[w] = u
                m.append(w)
            c.eq(t.element(u), w, "element", name)
        elif op == "search":
            dmax = c.pick([None, 0, 1, 2, 3, 5])
            root = c.pick(sorted(ids.values())) if ids and c.flag(0.2) else None
            c.ev(op, w, dmax, root)
            search(w, dmax, root)
        elif op in ("fault_insert", "fault_search"):
            if not m:
                continue
            c.arm_callback(c.choose(3))
            r, x = c.call((lambda: t.insert(w)) if op == "fault_insert" else (lambda: t.search(w, c.pick([1, 4]))))
            c.disarm_callback()
            c.ev(op, w, r)
            if r == "exc":
                c.check(isinstance(x, Injected), "error-propagation", f"{name}: failing metric surfaced as {x!r}")
            elif op == "fault_insert" and w not in ids:
                ids[w] = x
                m.append(w)
        elif op == "abort_search":
            if not m:
                continue
            exc = pick_abort(c)
            c.arm_abort(c.int(1, 80), exc)
            try:
                t.search(w, 3)
            except (SimKeyboardInterrupt, SimMemoryError) as e:
                if e is not exc:
                    raise
                c.fault("abort-" + type(e).__name__)
            c.disarm_abort()
            c.ev(op, w)
        elif op == "threads":
            s = Sched(c, c.pick([8, 30, 120]), 60)
            for _ in range(c.int(2, 3)):
                w2, dm = gen(c), c.pick([None, 0, 1, 2, 4])
                s.spawn(lambda w2=w2, dm=dm: search(w2, dm))
            c.ev(op)
            for x in s.run():
                if x.exc is not None:
                    raise x.exc
        # invariant: the tree holds exactly the model set
        c.eq(t.num_vertices(), len(m), "num_vertices", name)
        c.eq(sorted(repr(t.element(u)) for u in t.vertices()), sorted(map(repr, m)), "elements", name)
    for w in list(m):
        r = t.search(w)
        c.check(r is not None and r[0] == w and r[1] == 0, "search", f"{name}: inserted {w!r} is not found: {r!r}")
    for _ in range(4):
        search(gen(c), c.pick([None, 0, 1, 2, 3]))


SCENARIOS = [(1, "bktree", history)]
