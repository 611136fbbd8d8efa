"""C26: property maps read what the thing they wrap says now, write to it, and refuse everything else"""
from collections import defaultdict

from .common import pick_abort
from ..kernel import Injected, Sched, SimKeyboardInterrupt, SimMemoryError

RULE = ("One run = a random history over 2 to 5 property maps of every kind, several of them wrapping the same "
        "dictionary or function: reads and writes through [] or get()/put(), changes made behind the map, refused "
        "writes and deletions, default factories and functions that fail at any call, reads aborted at an arbitrary "
        "instant, and concurrent simulated threads with their own keys; every value, and the content of the wrapped "
        "dictionaries, is compared with a reference after each step.")
REAL = ["AssocPropertyMap", "FuncPropertyMap", "IdentityPropertyMap", "ConstantPropertyMap", "get", "put",
        "make_assoc_property_map", "make_func_property_map", "make_constant_property_map", "identity_property_map"]
STUB = ["caller-supplied default factories and functions (fault-injecting)"]
RUNS = {"quick": 30000, "thorough": 500000}


class Wrapped:
    """A defaultdict and what it must hold"""

    def __init__(self, c, default):
        self.c, self.default, self.made = c, default, 0

        def factory():
            c.cb("default-factory")
            self.made += 1
            return default() if callable(default) else default
        # a dictionary without factory has no default: what is unset is a KeyError
        self.bare = c.flag(0.15)
        self.d = defaultdict(None if self.bare else factory)
        self.m = {}

    def verify(self, what):
        self.c.eq(dict(self.d), self.m, "content", what)
        self.c.check(list(map(type, self.d)) == list(map(type, self.m)), "content", f"{what}: keys {list(self.d)}")


def history(c):
    lib = c.lib
    P = lib.property_map
    ED = lib.graph.EdgeDescriptor
    keys = [0, 1, 2, True, "a", "", None, (0, 1), frozenset({1}), ED(0, 1, 0), ED(0, 1, 1), ED(1, 0, 0), 1.5]
    wrapped = [Wrapped(c, c.pick([0, None, "", lambda: [], "black"])) for _ in range(c.int(1, 2))]
    state = {"shift": 0, "calls": 0}

    def f(k):
        state["calls"] += 1
        c.cb("function")
        return (state["shift"], k)
    const = c.pick([0, None, [], "red"])
    maps = []
    for _ in range(c.int(2, 5)):
        kind = c.weighted([(4, "assoc"), (3, "func"), (1, "identity"), (1, "constant")])
        if kind == "assoc":
            w = c.pick(wrapped)
            maps.append((kind, P.make_assoc_property_map(w.d), w))
        elif kind == "func":
            maps.append((kind, P.make_func_property_map(f), None))
        elif kind == "identity":
            maps.append((kind, P.identity_property_map(), None))
        else:
            maps.append((kind, P.make_constant_property_map(const), None))
    c.ev("maps", [k for k, _, _ in maps])

    def read(p, k):
        return P.get(p, k) if c.flag(0.5) else p[k]

    def write(p, k, v):
        if c.flag(0.5):
            P.put(p, k, v)
        else:
            p[k] = v

    def checked_read(i, k):
        kind, p, w = maps[i]
        if kind == "assoc":
            had = k in w.m
            made = w.made
            r, v = c.call(lambda: read(p, k))
            if not had and w.bare:
                c.check(r == "exc" and isinstance(v, KeyError), "read", f"map {i}[{k!r}], which is unset: {r} {v!r}")
                return
            if r == "exc":
                raise v
            if had:
                c.check(v is w.m[k], "read", f"map {i}[{k!r}] is {v!r}, {w.m[k]!r} was stored")
                c.eq(w.made, made, "read", f"defaults made by map {i}[{k!r}], which is set")
            else:
                want = w.default() if callable(w.default) else w.default
                c.check(type(v) is type(want) and v == want, "read", f"map {i}[{k!r}] is {v!r}, the default is {want!r}")
                c.eq(w.made, made + 1, "read", f"defaults made by map {i}[{k!r}], which is unset")
                w.m[k] = v
        elif kind == "func":
            n = state["calls"]
            v = read(p, k)
            c.eq(state["calls"], n + 1, "read", f"calls made by map {i}[{k!r}]")
            c.check(v == (state["shift"], k) and v[1] is k, "read", f"map {i}[{k!r}] is {v!r} ({state['shift']})")
        else:
            v = read(p, k)
            c.check(v is (k if kind == "identity" else const), "read", f"{kind} map {i}[{k!r}] is {v!r}")

    for step in range(c.pick([4, 10, 25])):
        i = c.choose(len(maps))
        kind, p, w = maps[i]
        k = c.pick(keys)
        op = c.weighted([(8, "read"), (6, "write"), (3, "behind"), (3, "refused"), (3, "failing"), (2, "abort"),
                         (2, "threads"), (1, "wrong")])
        c.ev(op, i, kind, repr(k))
        if op == "read":
            checked_read(i, k)
        elif op == "write" and kind == "assoc":
            v = c.pick([0, 1, "x", None, [], (1, 2)])
            write(p, k, v)
            w.m[k] = v
            c.check(w.d[k] is v, "write", f"wrapped[{k!r}] is {w.d[k]!r} after map {i}[{k!r}] = {v!r}")
        elif op == "behind":
            if kind == "assoc":
                if k in w.m and c.flag(0.5):
                    del w.d[k], w.m[k]
                else:
                    v = c.pick([5, "y", []])
                    w.d[k] = w.m[k] = v
            else:
                state["shift"] += 1
            checked_read(i, k)
        elif op == "refused":
            if kind != "assoc" and c.flag(0.5):
                r, x = c.call(lambda: write(p, k, 1))
                c.check(r == "exc" and isinstance(x, RuntimeError), "read-only", f"{kind} map {i}[{k!r}] = 1: {r} {x!r}")
            else:
                def drop():
                    del p[k]
                r, x = c.call(drop)
                c.check(r == "exc" and isinstance(x, RuntimeError), "deletion", f"del {kind} map {i}[{k!r}]: {r} {x!r}")
            c.fault("refused")
        elif op == "failing" and kind in ("assoc", "func"):
            # a function may well fail with the exception of an exhausted iterator
            c.arm_callback(0, type("Dressed", (Injected, StopIteration), {})("injected") if c.flag(0.2) else None)
            r, x = c.call(lambda: read(p, k))
            fired = c.disarm_callback()
            if kind == "assoc" and k in w.m:
                c.check(r == "ok" and x is w.m[k], "read", f"map {i}[{k!r}], which is set: {r} {x!r}")
            else:
                want = KeyError if kind == "assoc" and w.bare else Injected
                c.check(r == "exc" and isinstance(x, want), "error-propagation", f"{kind} map {i}[{k!r}]: {r} {x!r}")
        elif op == "abort":
            exc = pick_abort(c)
            c.arm_abort(c.int(1, 6), exc)
            try:
                read(p, k)
            except (SimKeyboardInterrupt, SimMemoryError) as e:
                c.check(e is exc, "error-propagation", repr(e))
                c.fault("abort-" + type(e).__name__)
            except KeyError:
                c.disarm_abort()
                c.check(kind == "assoc" and w.bare and k not in w.m, "read", f"{kind} map {i}[{k!r}] has no value")
            c.disarm_abort()
            if kind == "assoc" and k in w.d and k not in w.m:
                # the interrupted read may have stored the default
                w.m[k] = w.d[k]
        elif op == "threads":
            s = Sched(c, c.pick([2, 4, 8]), 40)

            def worker(t):
                for n in range(c.int(1, 4)):
                    j = c.choose(len(maps))
                    kd, q, x = maps[j]
                    mine = (t, n)
                    if kd == "assoc":
                        write(q, mine, n)
                        v = read(q, mine)
                        c.check(v == n, "read", f"thread {t}: map {j}[{mine}] is {v!r} after it was set to {n}")
                        x.m[mine] = n
                    elif kd == "func":
                        v = read(q, mine)
                        c.check(v == (state["shift"], mine), "read", f"thread {t}: map {j}[{mine}] is {v!r}")
                    else:
                        v = read(q, mine)
                        c.check(v is (mine if kd == "identity" else const), "read", f"thread {t}: {kd} {j}: {v!r}")
            for t in range(c.int(2, 3)):
                s.spawn(lambda t=t: worker(("t", step, t)))
            for x in s.run():
                if x.exc is not None:
                    raise x.exc
            for x in wrapped:
                # the threads' keys arrive in any order
                c.eq(dict(x.d), x.m, "content", "after the threads")
                x.m = dict((k, x.m[k]) for k in x.d)
        elif op == "wrong":
            r, x = c.call(lambda: P.make_assoc_property_map(c.pick([{}, [], None])))
            c.check(r == "exc" and isinstance(x, TypeError), "refused", f"a map over something else than a defaultdict: {r}")
        for n, x in enumerate(wrapped):
            x.verify(f"dictionary {n} after {op} {k!r} on {kind} map {i}")


SCENARIOS = [(1, "maps", history)]
