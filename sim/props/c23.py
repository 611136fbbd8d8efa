"""C23: aggregated visitors forward every event to every member in order"""
import io
import sys

from .c08 import make_graph
from .common import hollow, pick_abort
from ..kernel import Injected, Sched, SimKeyboardInterrupt, SimMemoryError

RULE = ("One run = 10 to 30 operations on 1 to 3 aggregates: events of any name and arguments, membership changes between "
        "events, members that fail or lack the event, nested aggregates, concurrent simulated callers, and whole "
        "traversals (breadth first, depth first, shortest paths, synchronized) driven through an aggregate; the global log of "
        "deliveries is compared with the membership model.")
REAL = ["AggregatedVisitor", "breadth_first_search", "depth_first_search_graph", "dijkstra_shortest_paths",
        "dijkstra_shortest_path", "parallel_breadth_first_search"]
STUB = ["member visitors (recording, fault-injecting)"]
RUNS = {"quick": 26000, "thorough": 400000}
EVENTS = ["examine_edge", "discover_vertex", "on_vertex", "finish_vertex", "close", "weird_event", "visitors_changed", "__custom"]


def recorders(c):
    """Classes of members; every delivery is appended to the log of its aggregate run"""
    class Rec:
        def __init__(self, name, log):
            self.name, self.log = name, log
            self.fail = None

        def hit(self, ev, a, kw):
            self.log.append((self.name, ev, a, kw))
            c.cb("event")
            act = self.__dict__.pop("act", None)
            if act is not None:
                act()
            if self.fail is not None:
                e, self.fail = self.fail, None
                c.fault("member-" + type(e).__name__)
                raise e
            return (self.name, False, None, 0, True)[len(self.log) % 5]

        def __getattr__(self, ev):
            if ev.startswith("__") and ev.endswith("__") or ev == "missing":
                raise AttributeError(ev)
            return lambda *a, **kw: self.hit(ev, a, tuple(sorted(kw.items())))

    class Rec2(Rec):
        pass

    class Other:
        """A member with real methods"""

        def __init__(self, name, log):
            self.name, self.log, self.fail = name, log, None
        hit = Rec.hit

    def mk(ev):
        def f(self, *a, **kw):
            return self.hit(ev, a, tuple(sorted(kw.items())))
        return f
    for ev in EVENTS:
        setattr(Other, ev, mk(ev))
    return [Rec, Rec2, Other]


class Agg:
    def __init__(self, c, kinds, name, others):
        A = c.lib.aggregated_visitor.AggregatedVisitor
        self.c, self.kinds, self.log, self.count = c, kinds, [], 0
        self.name = name
        self.members = []
        init = [self.member(others) for _ in range(c.choose(4))]
        how = c.choose(3)
        if how == 0 or not init:
            self.a = A()
            self.members = []
            if c.flag(0.5):
                self.a = A(None if c.flag(0.5) else [])
            for m in init:
                self.a.visitors.append(m)
                self.members.append(m)
        else:
            self.a = A(list(init)) if how == 1 else A(visitors=list(init))
            self.members = list(init)

    def member(self, others):
        c = self.c
        if others and c.flag(0.15):
            return c.pick(others)
        self.count += 1
        return c.pick(self.kinds)(f"{self.name}{self.count}", self.log)

    def flat(self):
        """Members in order of delivery, nested aggregates included"""
        out = []
        for m in self.members:
            if isinstance(m, Agg):
                out += m.flat()
            else:
                out.append(m)
        return out


def history(c):
    kinds = recorders(c)
    out = io.StringIO()
    saved = sys.stdout
    sys.stdout = out
    c.cleanups.append(lambda: setattr(sys, "stdout", saved))
    A = c.lib.aggregated_visitor.AggregatedVisitor
    aggs = []
    logs = []
    for i in range(c.int(1, 3)):
        x = Agg(c, kinds, "xyz"[i], [])
        if logs:
            # one global log
            x.log = logs[0]
            for m in x.members:
                m.log = logs[0]
        else:
            logs.append(x.log)
        if aggs and c.flag(0.4):
            y = c.pick(aggs)
            k = c.choose(len(x.members) + 1)
            x.members.insert(k, y)
            x.a.visitors.insert(k, y.a)
        aggs.append(x)
        c.ev("aggregate", x.name, [m.name for m in x.flat()])
    log = logs[0]

    def event(x):
        ev = c.pick(EVENTS)
        a = tuple(c.choose(9) for _ in range(c.choose(4)))
        kw = {k: c.choose(5) for k in c.sample(["u", "g", "method_name", "vis"], c.choose(3))}
        return ev, a, kw

    def want(x, ev, a, kw, upto=None):
        ms = x.flat()
        return [(m.name, ev, a, tuple(sorted(kw.items()))) for m in (ms if upto is None else ms[:upto + 1])]

    for _ in range(c.int(10, 30)):
        x = c.pick(aggs)
        op = c.weighted([(8, "event"), (3, "add"), (2, "remove"), (3, "fail"), (2, "threads"), (1, "abort"), (1, "get"), (1, "missing"), (2, "change"),
                         (1, "keep")])
        del log[:]
        if op == "event":
            ev, a, kw = event(x)
            getattr(x.a, ev)(*a, **kw)
            c.ev(op, x.name, ev, a, kw)
            c.eq(log, want(x, ev, a, kw), "forward", f"{ev}{a}{kw}")
        elif op == "keep":
            # a bound event forwards to the members of the instant of the call
            ev, a, kw = event(x)
            f = getattr(x.a, ev)
            m = Agg.member(x, [])
            m.log = log
            x.members.append(m)
            x.a.visitors.append(m)
            f(*a, **kw)
            c.eq(log, want(x, ev, a, kw), "forward", f"kept {ev}{a}{kw}")
            c.ev(op, x.name)
        elif op == "add":
            m = Agg.member(x, [])
            m.log = log
            k = c.choose(len(x.members) + 1)
            x.members.insert(k, m)
            x.a.visitors.insert(k, m)
            c.ev(op, x.name, k)
        elif op == "remove":
            if x.members:
                k = c.choose(len(x.members))
                x.members.pop(k)
                x.a.visitors.pop(k)
                c.ev(op, x.name, k)
        elif op == "fail":
            ms = x.flat()
            if not ms:
                continue
            k = c.choose(len(ms))
            if ms[k] in ms[:k]:
                continue
            exc = c.pick([c.injected("member"), SimKeyboardInterrupt("member"), AttributeError("member")])
            ms[k].fail = exc
            ev, a, kw = event(x)
            try:
                getattr(x.a, ev)(*a, **kw)
                got = None
            except (Injected, SimKeyboardInterrupt, AttributeError) as e:
                got = e
            ms[k].fail = None
            c.ev(op, x.name, k, type(exc).__name__)
            c.check(got is exc, "error-propagation", f"{exc!r} surfaced as {got!r}")
            c.eq(log, want(x, ev, a, kw, k), "forward", f"{ev} failing at member {k}")
        elif op == "change":
            # a member, or another thread, changes the membership while the event is being delivered
            ms = list(x.members)
            if not ms or any(isinstance(m, Agg) for m in ms) or len(set(map(id, ms))) < len(ms):
                continue
            gone, come = [], []

            def act():
                if c.flag(0.6) and len(gone) < len(ms):
                    m = c.pick([m for m in ms if m not in gone])
                    gone.append(m)
                    x.members.remove(m)
                    x.a.visitors.remove(m)
                else:
                    m = Agg.member(x, [])
                    m.log = log
                    come.append(m)
                    k = c.choose(len(x.members) + 1)
                    x.members.insert(k, m)
                    x.a.visitors.insert(k, m)
            ev, a, kw = event(x)
            who = c.choose(len(ms) + 1)
            c.ev(op, x.name, who, [m.name for m in ms])
            if who < len(ms):
                ms[who].act = act
                getattr(x.a, ev)(*a, **kw)
                ms[who].__dict__.pop("act", None)
            else:
                s = Sched(c, c.pick([2, 5]), 40)
                s.spawn(lambda: getattr(x.a, ev)(*a, **kw))
                s.spawn(act)
                for t in s.run():
                    if t.exc is not None:
                        raise t.exc
            kw = tuple(sorted(kw.items()))
            stay = [m.name for m in ms if m not in gone]
            c.eq([d for d in log if d[0] in stay], [(m, ev, a, kw) for m in stay], "forward",
                 f"{ev} while {[m.name for m in gone]} leave and {[m.name for m in come]} come, members {[m.name for m in ms]}")
            c.check(all(d[1:] == (ev, a, kw) for d in log) and len({d[0] for d in log}) == len(log), "forward",
                    f"{ev} delivered twice or altered: {log}")
        elif op == "missing":
            ms = x.flat()
            k = next((i for i, m in enumerate(ms) if isinstance(m, kinds[0]) or not hasattr(m, "missing")), None)
            st, e = c.call(lambda: x.a.missing(1))
            c.ev(op, x.name, st)
            if ms:
                c.check(st == "exc" and isinstance(e, AttributeError), "error-propagation", f"a member without the event: {st} {e!r}")
        elif op == "get":
            names = [A.type_to_key(m.a if isinstance(m, Agg) else m) for m in x.members]
            c.eq(set(x.a.keys()), set(names), "keys", x.name)
            if names:
                k = c.pick(names)
                m = x.members[names.index(k)]
                c.check(x.a.get(k) is (m.a if isinstance(m, Agg) else m), "get", k)
            z = object()
            c.check(x.a.get("no such visitor", z) is z, "get", "unknown key")
            c.eq(log, [], "forward", "get and keys are not events")
            c.ev(op, x.name)
        elif op == "threads":
            s = Sched(c, c.pick([2, 5, 20]), 60)
            evs = []
            for t in range(c.int(2, 3)):
                y = c.pick(aggs)
                ev, a, kw = event(y)
                kw = {**kw, "thread": t}
                evs.append((t, y, ev, a, kw))
                s.spawn(lambda y=y, ev=ev, a=a, kw=kw: getattr(y.a, ev)(*a, **kw))
            for t in s.run():
                if t.exc is not None:
                    raise t.exc
            c.ev(op)
            for t, y, ev, a, kw in evs:
                got = [d for d in log if ("thread", t) in d[3]]
                c.eq(got, want(y, ev, a, kw), "forward", f"{ev} in thread {t}")
        else:
            exc = pick_abort(c)
            ev, a, kw = event(x)
            c.arm_abort(c.int(1, 8), exc)
            try:
                getattr(x.a, ev)(*a, **kw)
            except (SimKeyboardInterrupt, SimMemoryError):
                c.fault("abort-" + type(exc).__name__)
            c.disarm_abort()
            c.ev(op, x.name)
            w = want(x, ev, a, kw)
            c.eq(log, w[:len(log)], "forward", "aborted event")
        for y in aggs:
            c.eq(len(y.a.visitors), len(y.members), "membership", y.name)


def algorithms(c):
    """Algorithms driven through an aggregate: every event reaches every member, in order"""
    lib = c.lib
    A = lib.aggregated_visitor.AggregatedVisitor
    g, n, kind = make_graph(c)
    log = []

    class Member:
        def __init__(self, i):
            self.i = i

        def __getattr__(self, ev):
            if ev.startswith("__"):
                raise AttributeError(ev)

            def f(*a, **kw):
                log.append((self.i, ev, tuple(map(id, a)), len(kw)))
                c.cb("event")
            return f
    k = c.int(1, 4)
    ms = [hollow(c, Member(i)) for i in range(k)]
    vis = A(ms) if c.flag(0.7) else A([A(ms[:1]), A(ms[1:])])
    vs = list(g.vertices())
    if not vs:
        return
    s = c.pick(vs)
    algo = c.pick(["bfs", "dfs", "dijkstra", "path", "parallel"])
    from collections import defaultdict

    def run():
        if algo == "bfs":
            lib.breadth_first_search.breadth_first_search(s, g, vis=vis)
        elif algo == "dfs":
            lib.depth_first_search.depth_first_search_graph(g, {s}, vis=vis)
        elif algo in ("dijkstra", "path"):
            pm = lib.property_map
            w = pm.make_func_property_map(lambda e: 1)
            preds, dist = defaultdict(set), defaultdict(lambda: float("inf"))
            dj = lib.dijkstra_shortest_paths
            mp, md = pm.make_assoc_property_map(preds), pm.make_assoc_property_map(dist)
            if algo == "path":
                dj.dijkstra_shortest_path(g, s, vs[-1], w, mp, md, vis=vis)
            else:
                dj.dijkstra_shortest_paths(g, s, w, mp, md, vis=vis)
        else:
            a = lib.automaton.make_automaton([(0, 1, "a"), (1, 0, "b"), (1, 2, "a")], 0, lib.property_map.make_func_property_map(lambda q: q == 2))
            lib.parallel_breadth_first_search.parallel_breadth_first_search(a, a, vis=vis)
    c.ev("algorithm", algo, kind, n, k)
    if c.flag(0.3):
        c.arm_callback(c.choose(20))
    st, e = c.call(run)
    fired = not c.cb_armed
    c.disarm_callback()
    if st == "exc" and not isinstance(e, Injected):
        raise e
    c.ev("events", len(log), st)
    whole = len(log) // k if st == "ok" else (len(log) + k - 1) // k
    if st == "ok":
        c.eq(len(log) % k, 0, "forward", f"{algo}: an event did not reach every member")
        c.check(log or algo == "x", "forward", f"{algo}: no event was forwarded")
    for i, (m, ev, a, kw) in enumerate(log):
        c.check(m == i % k, "forward", f"{algo}: delivery {i} of {ev} to member {m}, expected member {i % k}")
        c.check((ev, a) == log[i - m][1:3], "forward", f"{algo}: members are given different events")


SCENARIOS = [(3, "events", history), (1, "algorithms", algorithms)]
