"""C06: the priority queue"""
from .common import hollow, multiset
from ..kernel import Injected

RULE = ("One run = one seeded history of 10 to 60 operations by interleaved clients on one heap whose key function "
        "is a caller callback that may fail at any call (pushes, pops, key decreases, iterations, pops of an empty "
        "heap), compared after every step with a sorted-list model.")
REAL = ["Heap", "Comparable", "compare_to_key"]
STUB = ["caller-supplied key functions and preorders (fault-injecting)"]
RUNS = {"quick": 40000, "thorough": 500000}


class Thing:
    """Not ordered, and compared by identity: the heap must never compare two elements by order"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"T{self.name}"


class Twin(Thing):
    """Compared by value: two objects may be the same element"""

    def __eq__(self, other):
        return isinstance(other, Twin) and self.name == other.name

    def __hash__(self):
        return hash(self.name)


def history(c):
    lib = c.lib
    H = lib.heap
    mode = c.pick(["plain", "key", "max", "mod", "tuple"])
    keys = {}
    mutable = mode in ("key", "max")

    def raw(x):
        return keys[x] if mutable else x

    lower = {"max": lambda a, b: a >= b, "mod": lambda a, b: a % 5 <= b % 5}.get(mode, lambda a, b: a <= b)

    def before(a, b):      # preorder given by the caller
        c.cb("preorder")
        return lower(a, b)

    def to_comparable(x):
        c.cb("key")
        k = raw(x)
        if mode in ("max", "mod"):
            return H.Comparable(k, preorder) if c_cmp else cmp_key(k)
        return k
    c_cmp = c.flag(0.5)
    preorder = hollow(c, before)
    cmp_key = H.compare_to_key(hollow(c, before))

    # model: list of [key, seq, element]; ties by seq
    import functools
    order = functools.cmp_to_key(lambda x, y: (0 if lower(x[0], y[0]) and lower(y[0], x[0])
                                              else -1 if lower(x[0], y[0]) else 1) or x[1] - y[1])
    m = []
    seq = [0]
    cls = c.pick([Thing, Thing, Twin])
    things = [cls(i) for i in range(8)]

    def twin(x):
        """The same element, possibly as another object"""
        return Twin(x.name) if cls is Twin and c.flag(0.6) else x

    def new_element():
        if mutable:
            x = c.pick(things)
            if all(e[2] != x for e in m):
                keys[x] = c.choose(12)
            return twin(x)
        if mode == "tuple":
            return (c.choose(3), c.choose(3))
        return c.choose(12)
    dup = mutable and c.flag(0.5)       # the same element may be pushed several times
    # initial content
    init = []
    if mutable:
        for x in c.sample(things, c.choose(5)):
            keys[x] = c.choose(12)
            init.append(x)
        if dup and init:
            init += [c.pick(init) for _ in range(c.choose(4))]
            init = c.shuffle(init)
    else:
        init = [new_element() for _ in range(c.choose(6))]
    kw = {} if mode in ("plain", "tuple") and c.flag(0.5) else {"to_comparable": hollow(c, to_comparable)}
    src = iter(init) if init and c.flag(0.3) else list(init)
    h = H.Heap(src, **kw) if init or c.flag(0.5) else H.Heap(**kw)
    for x in init:
        m.append([raw(x), seq[0], x])
        seq[0] += 1
    c.ev("new", mode, init)

    def check():
        c.eq(len(h), len(m), "len", mode)
        c.eq(bool(h), bool(m), "bool", mode)
        c.eq(list(h), [e[2] for e in sorted(m, key=order)], "order", f"{mode} iteration")

    def comparables():
        """The six operators of two wrapped keys, and the text of the heap"""
        f = c.pick([lambda x: H.Comparable(x, lower), H.compare_to_key(lower)])
        a, b = c.choose(12), c.choose(12)
        x, y = f(a), f(b)
        le, ge = lower(a, b), lower(b, a)
        c.eq((x <= y, x >= y, x == y, x != y, x < y, x > y),
             (le, ge, le and ge, not (le and ge), not ge, not le), "comparable", f"{mode}: {a} and {b}")
        want = f"Heap({[e[2] for e in sorted(m, key=order)]})"
        c.eq((str(h), repr(h)), (want, want), "text", mode)
    check()
    for step in range(c.pick([10, 25, 60])):
        if mode != "tuple" and c.flag(0.1):
            comparables()
        op = c.weighted([(10, "push"), (8, "pop"), (6, "decrease"), (2, "iterate"), (3, "fault_push"),
                         (3, "fault_decrease")])
        if op == "push":
            x = new_element()
            if mutable and not dup and any(e[2] == x for e in m):
                continue
            h.push(x)
            m.append([raw(x), seq[0], x])
            seq[0] += 1
            c.ev(op, x, raw(x))
        elif op == "pop":
            if not m:
                r, x = c.call(h.pop)
                c.fault("pop-empty")
                c.check(r == "exc" and isinstance(x, IndexError), "pop-empty", f"{mode}: {r} {x!r}")
                c.ev(op, "empty")
            else:
                m.sort(key=order)
                want = m.pop(0)
                got = h.pop()
                c.ev(op, got)
                c.check(got == want[2], "pop",
                        f"{mode}: popped {got!r}, expected {want[2]!r}")
        elif op in ("decrease", "fault_decrease"):
            if not mutable or not m:
                continue
            e = c.pick(m)
            x = twin(e[2])
            old = keys[x]
            new = max(0, old - c.int(0, 6)) if mode == "key" else old + c.int(0, 6)
            keys[x] = new
            if op == "fault_decrease":
                c.arm_callback(c.choose(2) if mode == "key" else 0)
            r, ex = c.call(h.decrease_key, x)
            c.disarm_callback()
            c.ev(op, x, old, new, r)
            if r == "exc":
                c.check(isinstance(ex, Injected), "error-propagation", f"{mode}: {ex!r}")
                keys[x] = old
            else:
                n = 0
                for e in m:
                    if e[2] == x:
                        e[0] = new
                        n += 1
                if n > 1:
                    c.probe("decrease-key-of-duplicates")
        elif op == "iterate":
            it = iter(h)
            got = [y for _, y in zip(range(c.choose(4)), it)]
            c.eq(got, [e[2] for e in sorted(m, key=order)][:len(got)], "order", f"{mode} partial iteration")
            c.ev(op, len(got))
        elif op == "fault_push":
            if not kw:
                continue
            x = new_element()
            if mutable and not dup and any(e[2] == x for e in m):
                continue
            c.arm_callback(0)
            r, ex = c.call(h.push, x)
            c.disarm_callback()
            c.ev(op, x, r)
            c.check(r == "exc" and isinstance(ex, Injected), "error-propagation", f"{mode}: {ex!r}")
        check()
    m.sort(key=order)
    while m:
        want = m.pop(0)
        got = h.pop()
        c.check(got == want[2], "pop",
                f"{mode}: popped {got!r}, expected {want[2]!r}")
    c.check(not h, "bool", mode)


SCENARIOS = [(1, "heap", history)]
