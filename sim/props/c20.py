"""C20: a singleton class has one instance under every interleaving"""
from ..kernel import Injected, Sched, SimKeyboardInterrupt

RULE = ("One run = 1 to 4 singleton classes (subclasses, constructors that take time, fail, or build other singletons) "
        "instantiated in 1 to 4 rounds by 2 to 4 concurrent simulated threads that are preempted between any two "
        "byte-code instructions of the library and inside the constructors; identities, construction counts and "
        "failures are compared with the specification after every call.")
REAL = ["Singleton", "GraphvizStyle"]
STUB = ["threading locks (cooperative, decided by the scheduler)", "constructors of the classes"]
RUNS = {"quick": 26000, "thorough": 300000}
INSTRUCTIONS = True


class Spec:
    """What the model knows about one class"""

    def __init__(self, name):
        self.name = name
        self.cls = None
        self.instance = None
        self.building = 0
        self.built = 0
        self.raised = []
        self.surfaced = []
        self.plan = []
        self.nested = []
        self.calls = 0


def history(c):
    S = c.lib.singleton.Singleton
    specs = []

    def construct(spec, self, args, kw):
        c.check(spec.building == 0, "built-twice", f"{spec.name}: two constructions at the same time")
        c.check(spec.instance is None, "built-twice", f"{spec.name} is built again although it has an instance")
        nested = any(spec in x.nested for x in specs)
        c.check(len(args) == 1 and kw == {"k": args[0]} or (nested and not args and not kw), "arguments",
                f"{spec.name} is constructed with {args} {kw}")
        spec.building += 1
        try:
            self.ready = False
            self.args = (args, tuple(sorted(kw.items())))
            for _ in range(spec.slow):
                c.cb("constructor")
            for other in spec.nested:
                self.dep = other.cls()
                c.check(getattr(self.dep, "ready", True), "unfinished", f"{other.name} handed out before it was built")
            exc = spec.plan.pop(0) if spec.plan else None
            if exc is not None:
                c.fault("constructor-" + type(exc).__name__)
                spec.raised.append(exc)
                raise exc
            for _ in range(spec.slow):
                c.cb("constructor")
            self.ready = True
            spec.built += 1
            c.check(spec.built == 1, "built-twice", f"{spec.name} was built {spec.built} times")
            spec.instance = self
        finally:
            spec.building -= 1

    for i in range(c.int(1, 4)):
        spec = Spec("ABCD"[i])
        base = c.pick([None] + specs) if specs else None
        spec.slow = c.choose(4)
        spec.nested = [x for x in specs if c.flag(0.3)]

        class Body:
            pass

        def init(self, *args, _spec=spec, **kw):
            construct(_spec, self, args, kw)
        # Nothing tells two classes apart but themselves: names, modules and qualified names may be the same
        name = c.pick([spec.name, spec.name, "A"])
        space = {"__init__": init, "__qualname__": name}
        # ... and an instance is an instance, whatever its truth value and whatever it equals
        if c.flag(0.3):
            space["__len__"] = lambda self: 0
        if c.flag(0.2):
            space["__eq__"] = lambda self, other: True
            space["__hash__"] = lambda self: 0
        if c.flag(0.1):
            space["__bool__"] = lambda self: False
        spec.cls = S(name, (base.cls if base is not None else Body,), space)
        spec.plan = [c.pick([None, c.injected("constructor"), c.injected("constructor"), SimKeyboardInterrupt("constructor")])
                     for _ in range(c.choose(4))]
        c.ev("class", spec.name, base and base.name, spec.slow, [x.name for x in spec.nested],
             [type(x).__name__ for x in spec.plan])
        specs.append(spec)
    gs = c.lib.graphviz_impl.GraphvizStyle
    styles = []

    def call(spec, arg):
        if spec is None:
            styles.append(gs())
            c.check(type(styles[-1]) is gs and styles[-1] is styles[0], "identity", "GraphvizStyle")
            return
        spec.calls += 1
        try:
            x = spec.cls(arg, k=arg)
        except (Injected, SimKeyboardInterrupt) as e:
            owner = [s for s in specs if any(r is e for r in s.raised)]
            c.check(len(owner) == 1, "error-propagation", f"{spec.name}: unknown failure {e!r}")
            c.check(not any(r is e for r in owner[0].surfaced), "error-propagation",
                    f"one failing construction of {owner[0].name} surfaced to two callers")
            owner[0].surfaced.append(e)
            return
        c.check(type(x) is spec.cls, "identity", f"{spec.name}() returned a {type(x).__name__}")
        c.check(getattr(x, "ready", False), "unfinished", f"{spec.name}() returned an instance that is not built yet")
        c.check(x is spec.instance, "identity", f"{spec.name}() returned another instance than the one built")

    for r in range(c.int(1, 4)):
        s = Sched(c, c.pick([2, 5, 15, 40]), 200)
        for t in range(c.int(2, 4)):
            todo = [c.pick(specs + [None] if c.flag(0.1) else specs) for _ in range(c.int(1, 2))]

            def body(todo=todo, t=t):
                for spec in todo:
                    call(spec, t)
            s.spawn(body)
        for t in s.run():
            if t.exc is not None:
                raise t.exc
        c.ev("round", [(x.calls, x.built, len(x.raised)) for x in specs])
        for x in specs:
            c.eq(len(x.surfaced), len(x.raised), "error-propagation", f"failing constructions of {x.name} that surfaced")
            c.eq(x.building, 0, "stuck", x.name)
    # once faults stop every class has its instance
    for x in specs:
        x.plan = []
    for x in specs:
        call(x, "end")
        call(x, "again")
        c.check(x.instance is not None and x.built == 1, "progress", f"{x.name} cannot be built any more")
    for i, x in enumerate(specs):
        for y in specs[:i]:
            c.check(x.instance is not y.instance, "identity", f"{x.name} and {y.name} share their instance")


SCENARIOS = [(1, "singletons", history)]
