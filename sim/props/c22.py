"""C22: an interrupted computation leaves its inputs intact and can be run again"""
from .c13 import reorder
from .common import pick_abort
from .jobs import World, make
from ..kernel import MON, Injected, SimKeyboardInterrupt, SimMemoryError

RULE = ("One run = a small world of shared structures and 2 to 6 computations drawn from a catalogue of 30 kinds over the whole "
        "library, most of them cut once or several times at an arbitrary executed line (asynchronous abort) or callback call; "
        "after each cut the shared inputs must be as before, and the same computation run again, as well as the next ones, "
        "must give the result of an oracle that does not involve the library.")
REAL = ["every algorithm module of pybgl but graphviz.run_graphviz and ipynb (see C16, C17)"]
STUB = ["caller callbacks (fault-injecting)", "set order and instants of interruption (decided by the simulator)"]
RUNS = {"quick": 26000, "thorough": 500000}
MAX_STEPS = 12000000


def history(c):
    w = World(c)
    pending = []
    for _ in range(c.int(2, 6)):
        reorder(c)
        j = c.pick(pending) if pending and c.flag(0.3) else make(c, w)
        c.ev("job", j.name)
        span = None
        if c.flag(0.4):
            # a first complete execution tells how long it takes
            t0, k0 = MON.steps, c.cb_count
            j.verify(j.run())
            span = MON.steps - t0
        for _ in range(c.choose(4)):
            if c.flag(0.3):
                exc = c.injected("callback")
                c.arm_callback(c.choose(8), exc)
            else:
                exc = pick_abort(c)
                c.arm_abort(c.int(1, max(1, span if span else c.pick([10, 60, 250, 800]))), exc)
            try:
                r = j.run()
            except (Injected, SimKeyboardInterrupt, SimMemoryError) as e:
                c.check(e is exc, "error-propagation", f"{j.name} raised {e!r}")
                c.fault("cut-" + type(exc).__name__)
                c.disarm_abort()
                c.disarm_callback()
                c.probe("cut-" + j.name)
            else:
                c.disarm_abort()
                c.disarm_callback()
                j.verify(r)
            w.check(f"{j.name} cut by {type(exc).__name__}")
            c.ev("cut", type(exc).__name__)
        if c.flag(0.7):
            with c.limit(5000000, j.name):
                r = j.run()
            j.verify(r)
        else:
            pending.append(j)
    for j in pending:
        j.verify(j.run())
    w.check("at the end")


SCENARIOS = [(1, "interruptions", history)]
