"""C24: edit distances equal their definitions, also on calculators that are shared, interrupted and reused"""
import sys
from contextlib import contextmanager
from .common import pick_abort
from .jobs import DISTANCES, osa
from ..kernel import Sched, SimKeyboardInterrupt, SimMemoryError

RULE = ("One run = 1 to 3 pairs of words (independent, or edits of one another) and 3 to 10 distance computations on them: "
        "by the functions, by their unmemoized variants, and by memoizing calculators that several clients share, query on "
        "arbitrary suffixes, from concurrent simulated threads, and after computations aborted at an arbitrary executed "
        "line; words may be longer than the interpreter allows calls to be nested (hundreds of symbols in common before they differ); every answer is compared with a bottom-up dynamic program.")
REAL = ["levenshtein_distance", "damerau_levenshtein_distance", "lcs_distance", "their naive variants and calculators"]
STUB = ["thread scheduling and instants of interruption (decided by the simulator)"]
RUNS = {"quick": 26000, "thorough": 500000}


def word(c, alpha, n):
    return "".join(c.pick(alpha) for _ in range(c.choose(n + 1)))


def mutate(c, a, alpha):
    for _ in range(c.int(0, 3)):
        i = c.choose(len(a) + 1)
        op = c.choose(4)
        if op == 0:
            a = a[:i] + c.pick(alpha) + a[i:]
        elif op == 1:
            a = a[:i] + a[i + 1:]
        elif op == 2:
            a = a[:i] + c.pick(alpha) + a[i + 1:]
        else:
            a = a[:i] + a[i:i + 2][::-1] + a[i + 2:]
    return a


@contextmanager
def shallow(deep):
    """Few nested calls are left, so that words of some hundreds of symbols are long"""
    limit = sys.getrecursionlimit()
    if deep:
        n, f = 0, sys._getframe()
        while f is not None:
            n, f = n + 1, f.f_back
        sys.setrecursionlimit(min(limit, n + 200))
    try:
        yield
    finally:
        sys.setrecursionlimit(limit)


def history(c):
    items = []
    for _ in range(c.int(1, 3)):
        alpha = c.pick(["a", "ab", "abc", "ab\u00e9\u4e2d", "abcdefgh", "aA b"])
        n = c.pick([2, 4, 5, 7, 12, 12])
        a = word(c, alpha, n)
        b = mutate(c, a, alpha) if c.flag(0.5) else word(c, alpha, n)
        p = ""
        if not any(x[-1] for x in items) and c.flag(0.03):
            # long words, the same ones up to some place
            p = word(c, alpha, 9) or "a"
            p = p * (c.int(250, 350) // len(p))
        mod, cls, fn, naive, ref = DISTANCES[c.pick(sorted(DISTANCES))]
        m = getattr(c.lib, mod)
        items.append((m, cls, fn, naive, ref, a, b, getattr(m, cls)(p + a, p + b), p))
        if p:
            c.ev("after", len(p), p[:9])
        c.ev("pair", fn, a, b)

    def query():
        m, cls, fn, naive, ref, a, b, calc, p = c.pick(items)
        k = c.weighted([(4, "calculator"), (3, "function"), (1, "swapped"), (1, "naive"), (1, "same")])
        if p and k != "swapped":
            if k == "calculator" and c.flag(0.7):
                i = c.choose(len(p) + 1)
                return lambda: calc.compute(i, i), ref(a, b), f"{cls}({p[:9]!r}...{a!r}, {p[:9]!r}...{b!r}).compute({i}, {i})"
            if k == "same":
                return lambda: getattr(m, fn)(p + a, p + a), 0, f"{fn} of a long word and itself"
            if k != "calculator":
                return lambda: getattr(m, fn)(p + a, p + b), ref(a, b), f"{fn}({p[:9]!r}...{a!r}, {p[:9]!r}...{b!r})"
            k = "suffix"
        if k == "suffix":
            i, j = c.choose(len(a) + 1), c.choose(len(b) + 1)
            return lambda: calc.compute(len(p) + i, len(p) + j), ref(a[i:], b[j:]), f"{cls}({p[:9]!r}...{a!r}, {p[:9]!r}...{b!r}) from {i} and {j} on"
        if k == "naive" and len(a) + len(b) > (8 if fn.startswith("d") else 20):
            k = "function"
        if k == "calculator":
            i, j = (0, 0) if c.flag(0.5) else (c.choose(len(a) + 1), c.choose(len(b) + 1))
            want = ref(a[i:], b[j:])
            return (lambda: calc.compute(i, j)) if (i, j) != (0, 0) or c.flag(0.5) else calc.compute, want, f"{cls}({a!r}, {b!r}).compute({i}, {j})"
        if k == "swapped":
            return (lambda: getattr(m, fn)(p + b, p + a)), ref(a, b), f"{fn}({p[:9]!r}{b!r}, {p[:9]!r}{a!r})"
        if k == "same":
            return (lambda: getattr(m, fn)(a, a)), 0, f"{fn}({a!r}, {a!r})"
        f = naive if k == "naive" else fn
        return (lambda: getattr(m, f)(a, b)), ref(a, b), f"{f}({a!r}, {b!r})"
    deep = any(x[-1] for x in items)
    for _ in range(c.int(3, 10)):
        mode = c.weighted([(5, "plain"), (3, "abort"), (2, "threads")])
        if mode == "threads":
            s = Sched(c, c.pick([2, 6, 20]), 120)
            qs = [query() for _ in range(c.int(2, 3))]
            for run, want, what in qs:
                s.spawn(run)
            with shallow(deep):
                tasks = s.run()
            for t, (run, want, what) in zip(tasks, qs):
                if t.exc is not None:
                    raise t.exc
                c.eq(t.result, want, "distance", what + " (concurrent)")
            c.ev(mode, [q[2] for q in qs])
            continue
        run, want, what = query()
        exc = None
        if mode == "abort":
            exc = pick_abort(c)
            c.arm_abort(c.int(1, c.pick([10, 60, 300, 4000])), exc)
        try:
            with shallow(deep):
                r = run()
            c.disarm_abort()
            c.eq(r, want, "distance", what)
        except (SimKeyboardInterrupt, SimMemoryError) as e:
            c.disarm_abort()
            if e is not exc:
                raise
            c.fault("abort-" + type(e).__name__)
        c.ev(mode, what)


MAX_STEPS = 60000000
SCENARIOS = [(1, "distances", history)]
