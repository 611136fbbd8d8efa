"""Seed-ordered sets.

CPython's set iteration/pop order depends on PYTHONHASHSEED, object addresses and
insertion history: it is a source of nondeterminism that the library's algorithms
consume (which class is split first, which state is numbered first...).
SimSet / SimFrozenSet are real set / frozenset subclasses whose iteration and pop
order is decided by the simulator from the run's seed.
"""
import builtins

_set, _frozenset = builtins.set, builtins.frozenset


class OrderState:
    mode = 0          # 0 insertion, 1 reverse insertion, 2 pseudo-random
    rng = None
    n = 0
    iters = 0


ORDER = OrderState()


def configure(mode, rng):
    ORDER.mode, ORDER.rng, ORDER.n, ORDER.iters = mode, rng, 0, 0


def _prio():
    o = ORDER
    o.n += 1
    if o.mode == 0:
        return o.n
    if o.mode == 1:
        return -o.n
    return o.rng.random()


def _ordered(o):
    if ORDER.mode == 0 or len(o) < 2:
        return list(o)
    return sorted(o, key=o.get)


class _SetMeta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, _set)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, _set)


class _FrozenMeta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, _frozenset)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, _frozenset)


class _Common:
    __slots__ = ()

    def __iter__(self):
        o = self._o
        order = _ordered(o)
        n = len(order)
        if n > 1:
            ORDER.iters += 1
        for x in order:
            if len(o) != n:
                raise RuntimeError("Set changed size during iteration")
            yield x
        if len(o) != n:
            raise RuntimeError("Set changed size during iteration")

    def _wrap(self, raw, *sources):
        """Build a result holding the members of raw, in the order of sources"""
        if raw is NotImplemented:
            return raw
        out = []
        seen = _set()
        for src in (self,) + sources:
            for x in src:
                if x in raw and x not in seen:
                    seen.add(x)
                    out.append(x)
        return self._make(out)

    def __repr__(self):
        name = type(self).__pubname__
        if not self._o:
            return f"{name}()"
        body = "{" + ", ".join(repr(x) for x in self) + "}"
        return body if name == "set" else f"{name}({body})"

    __str__ = __repr__


def _binop(base, name):
    raw = getattr(base, name)

    def op(self, other):
        r = raw(self, other)
        if r is NotImplemented:
            return r
        return self._wrap(r, other)
    op.__name__ = name
    return op


def _method(base, name):
    raw = getattr(base, name)

    def op(self, *others):
        others = tuple(x if isinstance(x, (_set, _frozenset)) else list(x) for x in others)
        return self._wrap(raw(self, *others), *others)
    op.__name__ = name
    return op


def _install(cls, base):
    for n in ("or", "and", "sub", "xor"):
        setattr(cls, f"__{n}__", _binop(base, f"__{n}__"))
        setattr(cls, f"__r{n}__", _binop(base, f"__r{n}__"))
    for n in ("union", "intersection", "difference", "symmetric_difference"):
        setattr(cls, n, _method(base, n))


class SimSet(_Common, _set, metaclass=_SetMeta):
    __slots__ = ("_o",)
    __pubname__ = "set"
    __hash__ = None

    def __init__(self, it=()):
        _set.__init__(self)
        self._o = {}
        for x in it:
            self.add(x)

    @classmethod
    def _make(cls, items):
        return SimSet(items)

    def add(self, x):
        if not _set.__contains__(self, x):
            _set.add(self, x)
            self._o[x] = _prio()

    def discard(self, x):
        if _set.__contains__(self, x):
            _set.discard(self, x)
            del self._o[x if not isinstance(x, _set) else _frozenset(x)]

    def remove(self, x):
        if not _set.__contains__(self, x):
            raise KeyError(x)
        self.discard(x)

    def pop(self):
        if not self._o:
            raise KeyError("pop from an empty set")
        x = _ordered(self._o)[0]
        self.discard(x)
        return x

    def clear(self):
        _set.clear(self)
        self._o.clear()

    def copy(self):
        return SimSet(self)

    __copy__ = copy

    def __reduce__(self):
        return (SimSet, (list(self),))

    def __reduce_ex__(self, proto):
        return (SimSet, (list(self),))

    def update(self, *others):
        for o in others:
            for x in (list(o) if o is self else o):
                self.add(x)

    def difference_update(self, *others):
        for o in others:
            for x in list(o):
                self.discard(x)

    def intersection_update(self, *others):
        keep = _set.intersection(self, *[list(o) for o in others])
        for x in list(self._o):
            if x not in keep:
                self.discard(x)

    def symmetric_difference_update(self, other):
        for x in list(dict.fromkeys(other)):
            if x in self:
                self.discard(x)
            else:
                self.add(x)

    def _inplace(self, other, fn):
        if not isinstance(other, (_set, _frozenset)) and not hasattr(other, "isdisjoint"):
            return NotImplemented
        fn(other)
        return self

    def __ior__(self, other):
        return self._inplace(other, self.update)

    def __iand__(self, other):
        return self._inplace(other, self.intersection_update)

    def __isub__(self, other):
        return self._inplace(other, self.difference_update)

    def __ixor__(self, other):
        return self._inplace(other, self.symmetric_difference_update)


class SimFrozenSet(_Common, _frozenset, metaclass=_FrozenMeta):
    __pubname__ = "frozenset"

    def __new__(cls, it=()):
        if type(it) is SimFrozenSet:
            return it
        items = list(dict.fromkeys(it))
        self = _frozenset.__new__(cls, items)
        self._o = {x: _prio() for x in items}
        return self

    def __init__(self, *a):
        pass

    @classmethod
    def _make(cls, items):
        return SimFrozenSet(items)

    def copy(self):
        return self

    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy as _c
        return SimFrozenSet([_c.deepcopy(x, memo) for x in self])

    def __reduce__(self):
        return (SimFrozenSet, (list(self),))

    def __reduce_ex__(self, proto):
        return (SimFrozenSet, (list(self),))

    __hash__ = _frozenset.__hash__


_install(SimSet, _set)
_install(SimFrozenSet, _frozenset)
