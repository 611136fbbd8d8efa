"""C21: concurrent callers of the library do not interfere"""
from .c13 import reorder
from .common import pick_abort
from .jobs import CATALOGUE, World, make
from ..kernel import Injected, Sched, SimKeyboardInterrupt, SimMemoryError

RULE = ("One run = a small world of structures shared by all callers (graphs, automata, tries, metric tree), and 1 to 3 "
        "rounds in which 2 to 4 concurrent simulated threads each execute 1 to 3 computations drawn from a catalogue of "
        "30 kinds over the whole library, on shared structures (read only) or their own, the same computation, the same kind or any, preempted at any library line and "
        "inside callbacks; some rounds also cut one of the calls (failing callback or asynchronous abort). Every completed "
        "result is compared with an oracle that does not involve the library; shared structures must stay unchanged; cut "
        "calls are then repeated.")
REAL = ["every algorithm module of pybgl but graphviz.run_graphviz and ipynb (see C16, C17)"]
STUB = ["caller callbacks (fault-injecting)", "thread scheduling, locks and set order (decided by the simulator)"]
RUNS = {"quick": 16000, "thorough": 400000}
MAX_STEPS = 12000000


def history(c):
    w = World(c)
    for _ in range(c.int(1, 3)):
        reorder(c)
        fault = c.weighted([(6, None), (2, "callback"), (2, "abort")])
        cut, done = [], []
        s = Sched(c, c.pick([3, 10, 40, 150]), c.pick([60, 200]))
        exc = None
        if fault == "callback":
            exc = c.injected("callback")
        elif fault == "abort":
            exc = pick_abort(c)
        plan = []
        same = make(c, w) if c.flag(0.3) else None
        kinds = [c.pick(CATALOGUE)] if c.flag(0.4) else CATALOGUE
        for t in range(c.int(2, 4)):
            jobs = [same or make(c, w, kinds) for _ in range(c.int(1, 3))]
            plan.append([j.name for j in jobs])

            def body(jobs=jobs):
                for j in jobs:
                    try:
                        done.append((j, j.run()))
                    except (Injected, SimKeyboardInterrupt, SimMemoryError) as e:
                        c.check(e is exc, "error-propagation", f"{j.name} raised {e!r}")
                        cut.append(j)
            s.spawn(body)
        c.ev("round", fault, plan)
        if fault == "callback":
            c.arm_callback(c.choose(25), exc)
        elif fault == "abort":
            c.arm_abort(c.int(1, 1500), exc)
        ts = s.run()
        c.disarm_callback()
        c.disarm_abort()
        for t in ts:
            if t.exc is not None:
                raise t.exc
        c.check(len(cut) <= 1, "error-propagation", f"one fault hit {[j.name for j in cut]}")
        if cut:
            c.fault("cut-" + ("callback" if fault == "callback" else type(exc).__name__))
        for j, r in done:
            j.verify(r)
        w.check(f"after {plan}")
        for j in cut:
            j.verify(j.run())
            w.check(f"after {j.name} was run again")


SCENARIOS = [(1, "callers", history)]
