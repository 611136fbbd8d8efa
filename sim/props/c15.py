"""C15: expression parsing yields the standard reading of every expression"""
import re
from collections import deque

from .common import hollow, pick_abort
from ..kernel import Injected, Sched, SimKeyboardInterrupt, SimMemoryError

RULE = ("One run = 1 to 4 random token streams over a random operator table (or arithmetic texts with random spacing) "
        "parsed to postfix form, to a value and to a tree, and compared with a precedence-climbing reference parser; "
        "token streams come from generators that may fail at any token, visitors and output sinks fail at any event, "
        "calls are aborted at arbitrary instants or run as concurrent simulated threads; parentheses are also "
        "unbalanced at random places and must then be rejected.")
REAL = ["shunting_yard_postfix", "shunting_yard_compute", "shunting_yard_ast", "RpnDequeAlg", "RpnDequeAst", "Ast",
        "tokenizer_alg", "tokenizer_re", "tokenize"]
STUB = ["caller-supplied token streams, visitors and sinks (fault-injecting)"]
RUNS = {"quick": 30000, "thorough": 500000}
ASSUMPTIONS = ["operators of one precedence level share one associativity, and postfix operators bind tighter than all others (the tables "
               "for which a standard reading exists)"]


class Table:
    """A random operator table: kind[tok] in bin/pre/post"""

    def __init__(self, c):
        sy = c.lib.shunting_yard_postfix
        self.kind, self.ops = {}, {}
        names = list("+-*/^&|%<>")
        c.shuffle(names)
        for level in range(1, c.int(2, 5)):
            assoc = c.pick([sy.LEFT, sy.RIGHT])
            for _ in range(c.int(1, 2)):
                t = names.pop()
                self.kind[t] = "bin"
                self.ops[t] = sy.Op(2, level, assoc)
        pre = list("~$@")
        for _ in range(c.choose(3)):
            t = pre.pop()
            self.kind[t] = "pre"
            self.ops[t] = sy.Op(1, c.int(1, 6), sy.RIGHT)
        post = list("!?'")
        self.chain = c.flag(0.7)
        for k in range(c.choose(3)):
            t = post.pop()
            self.kind[t] = "post"
            self.ops[t] = sy.Op(1, 7 if self.chain else 7 + k, sy.LEFT)
        # the order of the table must not matter
        items = list(self.ops.items())
        c.shuffle(items)
        self.ops = dict(items)

    def names(self, kind):
        return sorted(t for t, k in self.kind.items() if k == kind)


class AlgTable:
    chain = True

    def __init__(self, sy):
        # the standard reading, whatever numbers the library gives to the levels
        L, R = sy.LEFT, sy.RIGHT
        self.ops = {"u+": sy.Op(1, 3, R), "u-": sy.Op(1, 3, R), "^": sy.Op(2, 4, R), "*": sy.Op(2, 3, L),
                    "/": sy.Op(2, 3, L), "+": sy.Op(2, 2, L), "-": sy.Op(2, 2, L)}
        self.lib = sy.MAP_OPERATORS_ALG
        self.kind = {t: "bin" if o.cardinality == 2 else "pre" for t, o in self.ops.items()}

    names = Table.names


def stream(c, t, depth, operand):
    """A well-formed token stream"""
    b, pre, post = t.names("bin"), t.names("pre"), t.names("post")
    n = c.pick([1, 1, 2, 3, 4]) if depth else c.pick([1, 2, 3, 4, 6, 9])
    out = []
    for i in range(n):
        if i:
            out.append(c.pick(b))
        while pre and c.flag(0.25):
            out.append(c.pick(pre))
        if depth < 3 and c.flag(0.25):
            out += ["("] + stream(c, t, depth + 1, operand) + [")"]
        else:
            out.append(operand(c))
        k = 0
        while post and c.flag(0.25) and (t.chain or k == 0):
            out.append(c.pick(post))
            k += 1
    return out


def parse(t, toks, right):
    """Precedence climbing; a tree is ('leaf', x) or (op, child...)"""
    pos = 0

    def expr(floor):
        nonlocal pos
        x = toks[pos]
        pos += 1
        if x == "(":
            left = expr(None)
            assert toks[pos] == ")"
            pos += 1
        elif t.kind.get(x) == "pre":
            left = (x, expr(t.ops[x].precedence))
        else:
            left = ("leaf", x)
        while pos < len(toks) and toks[pos] != ")":
            o = toks[pos]
            p = t.ops[o].precedence
            if not (floor is None or p > floor or (p == floor and t.ops[o].associativity == right)):
                break
            pos += 1
            left = (o, left) if t.kind[o] == "post" else (o, left, expr(p))
        return left
    r = expr(None)
    assert pos == len(toks)
    return r


def rpn(n):
    if n[0] == "leaf":
        return [n[1]]
    return [x for k in n[1:] for x in rpn(k)] + [n[0]]


def value(n):
    if n[0] == "leaf":
        return n[1]
    v = [value(k) for k in n[1:]]
    return {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b,
            "^": lambda a, b: a ** b, "u-": lambda a: -a, "u+": lambda a: a}[n[0]](*v)


def tree_of(ast, u):
    ks = list(ast.children(u))
    return (ast.symbol(u),) + tuple(tree_of(ast, k) for k in ks) if ks else ("leaf", ast.symbol(u))


class Stream:
    """A token stream consumed through the simulator; may fail at its k-th token"""

    def __init__(self, c, toks, fail=None):
        self.c, self.toks, self.fail, self.given = c, toks, fail, 0

    def __iter__(self):
        self.c.check(self.given == 0, "stream", "the token stream was read again")
        for i, x in enumerate(self.toks):
            if i == self.fail:
                self.c.fault("token-stream")
                raise self.c.injected("token stream")
            self.given = i + 1
            yield x


def make_visitor(c, toks):
    """Checks the stack discipline at every event"""
    class Vis(c.lib.shunting_yard_postfix.DefaultShuntingYardVisitor):
        def __init__(self):
            self.stack, self.out = [], []

        def on_push_operator(self, o):
            self.stack.append(o)
            c.cb("on_push_operator")

        def on_pop_operator(self, o):
            c.check(bool(self.stack) and self.stack[-1] == o, "visitor",
                    f"{toks}: popped {o!r} from the operators {self.stack}")
            self.stack.pop()
            c.cb("on_pop_operator")

        def on_push_output(self, a):
            self.out.append(a)
            c.cb("on_push_output")
    return hollow(c, Vis())


def show(toks):
    return " ".join(map(str, toks))


def same(x, y):
    return repr(x) == repr(y) or x == y


def guarded(c, fn, span):
    """fn under an abort at an arbitrary instant: ('ok', v), or ('cut', None)"""
    exc = pick_abort(c)
    c.arm_abort(c.int(1, span), exc)
    try:
        r = fn()
        c.disarm_abort()
        return "ok", r
    except (SimKeyboardInterrupt, SimMemoryError) as e:
        c.disarm_abort()
        if e is not exc:
            raise
        c.fault("abort-" + type(e).__name__)
        return "cut", None


class One:
    """One expression and everything known about it"""

    @property
    def table(self):
        """The operator table handed to the library"""
        return self.t.lib if self.alg and self.c.flag(0.5) else self.t.ops

    def __init__(self, c, alg):
        sy = c.lib.shunting_yard_postfix
        self.c, self.sy, self.alg = c, sy, alg
        self.t = AlgTable(sy) if alg else Table(c)
        if alg:
            nums = c.pick([[1.0, 2.0, 3.0], [0.0, 1.0, 2.0, 0.5], [1.5, 7.0, 10.0, 4.0]])
            operand = lambda c: c.pick(nums)
        else:
            # one-character operands, equal ones included
            names = c.pick(["abc", "a", "xyzuv"])
            operand = lambda c: c.pick(names)
        self.toks = stream(c, self.t, 0, operand)
        if c.flag(0.02):
            d = c.pick([50, 300])
            self.toks = ["("] * d + self.toks + [")"] * d
        self.tree = parse(self.t, self.toks, sy.RIGHT)
        self.rpn = rpn(self.tree)
        self.default = alg and c.flag(0.5)

    def text(self):
        c = self.c
        out = []
        for x in self.toks:
            if isinstance(x, float):
                s = str(x)
                if s.endswith(".0") and c.flag(0.7):
                    s = s[:-2]
                elif s.startswith("0.") and c.flag(0.3):
                    s = s[1:]
                out.append(s)
            else:
                out.append(x[-1])
            if c.flag(0.3):
                out.append(c.pick([" ", "  ", "\t", "\n", "\r", "\f", "\v", "\u00a0", "\u2003"]))
        return "".join(out)

    # ---- the three uses
    def postfix(self):
        c = self.c
        kind = c.choose(3)
        vis = make_visitor(c, self.toks) if c.flag(0.5) else None
        out = None if kind == 0 else deque() if kind == 1 else deque(["seed"])
        r = self.sy.shunting_yard_postfix(Stream(c, self.toks), self.table, out, vis)
        if out is not None:
            c.check(r is out, "output", "the given output queue is not the one returned")
        got = list(r)
        if kind == 2:
            c.eq(got[:1], ["seed"], "output", "earlier content of the output queue")
            got = got[1:]
        c.eq(got, self.rpn, "postfix", show(self.toks))
        if vis:
            c.eq(vis.out, self.rpn, "visitor", "output events of " + show(self.toks))
            c.eq(vis.stack, [], "visitor", "operators left after " + show(self.toks))

    def compute(self):
        c = self.c
        try:
            want = ("ok", value(self.tree))
        except (ZeroDivisionError, OverflowError, ValueError, TypeError) as e:
            want = ("exc", e)
        kw = {} if self.default else {"map_operators": self.t.ops}
        if c.flag(0.5):
            x = self.text()
            got = c.call(lambda: self.sy.shunting_yard_compute(x, **kw))
        else:
            x = self.toks
            got = c.call(lambda: self.sy.shunting_yard_compute(Stream(c, self.toks), tokenize=False, **kw))
        if want[0] == "exc":
            c.check(got[0] == "exc", "value", f"{x}: got {got[1]!r}, evaluation should fail with {want[1]!r}")
            c.probe("evaluation-error")
        else:
            if got[0] == "exc":
                raise got[1]
            c.check(same(got[1], want[1]), "value", f"{x}: got {got[1]!r}, expected {want[1]!r}")
            if c.flag(0.2):
                # the same by hand
                sink = self.sy.RpnDequeAlg(**kw)
                self.sy.shunting_yard_postfix(Stream(c, self.toks), self.table, sink)
                c.check(len(sink) == 1 and same(sink[0], want[1]), "value", f"{show(self.toks)}: RpnDequeAlg {sink!r}")

    def ast(self):
        c = self.c
        if len(self.toks) > 200:
            return
        if self.alg and c.flag(0.5):
            toks = self.sy.tokenizer_alg(self.text())
            c.eq(list(toks), self.toks, "tokens", show(self.toks))
        ops = self.table
        if c.flag(0.2):
            # the same by hand
            sink = self.sy.RpnDequeAst(map_operators=ops)
            self.sy.shunting_yard_postfix(Stream(c, self.toks), ops, sink)
            c.eq(len(sink), 1, "tree", "roots of " + show(self.toks))
            c.eq(tree_of(sink.ast, sink.pop()), self.tree, "tree", show(self.toks))
        ast, root = self.sy.shunting_yard_ast(Stream(c, self.toks), ops)
        c.eq(ast.root, root, "tree", "root")
        c.eq(tree_of(ast, root), self.tree, "tree", show(self.toks))
        c.eq(ast.num_vertices(), len(self.rpn), "tree", "number of vertices")
        c.eq(ast.num_edges(), len(self.rpn) - 1, "tree", "number of edges")
        e = ast.to_expr()
        if self.alg:
            toks = self.sy.tokenizer_alg(e)
            st, v = c.call(lambda: value(self.tree))
            if st == "ok":
                got = self.sy.shunting_yard_compute(e)
                c.check(same(got, v), "render", f"{show(self.toks)} rendered as {e}: value {got!r}, expected {v!r}")
            c.probe("rendered-arithmetic")
        else:
            toks = list(e)
            c.probe("rendered")
        st, r = c.call(lambda: parse(self.t, toks, self.sy.RIGHT))
        c.check(st == "ok" and r == self.tree, "render", f"{show(self.toks)} rendered as {e}")

    def good(self):
        """All the uses, in any order"""
        k = self.c.pick(["postfix", "ast", "compute" if self.alg else "postfix"])
        getattr(self, k)()
        return k

    # ---- faults
    def prefix(self, out, where):
        c = self.c
        c.eq(out, self.rpn[:len(out)], "prefix", where + " of " + show(self.toks))

    def failing_stream(self):
        c = self.c
        out = deque()
        vis = make_visitor(c, self.toks)
        st, x = c.call(lambda: self.sy.shunting_yard_postfix(
            Stream(c, self.toks, c.choose(len(self.toks))), self.t.ops, out, vis))
        c.check(st == "exc" and isinstance(x, Injected), "error-propagation", f"failing token stream: {st} {x!r}")
        self.prefix(list(out), "output before the failure")
        self.prefix(vis.out, "output events before the failure")

    def failing_visitor(self):
        c = self.c
        vis = make_visitor(c, self.toks)
        out = deque()
        what = c.choose(3) if self.alg else c.choose(2)
        c.arm_callback(c.choose(2 * len(self.toks)))
        if what == 0:
            fn = lambda: self.sy.shunting_yard_postfix(iter(self.toks), self.t.ops, out, vis)
        elif what == 1:
            fn = lambda: self.sy.shunting_yard_ast(iter(self.toks), self.t.ops, vis)
        else:
            fn = lambda: self.sy.shunting_yard_compute(iter(self.toks), tokenize=False, vis=vis)
        st, x = c.call(fn)
        fired = c.disarm_callback()
        if st == "exc" and not isinstance(x, (Injected, ArithmeticError, ValueError, TypeError)):
            raise x
        self.prefix(vis.out, "output events before the failure")

    def failing_sink(self):
        c = self.c
        at = c.choose(len(self.rpn))

        class Sink:
            def __init__(self):
                self.got = []

            def append(self, a):
                if len(self.got) == at:
                    c.fault("sink")
                    raise c.injected("sink")
                self.got.append(a)
        s = Sink()
        st, x = c.call(lambda: self.sy.shunting_yard_postfix(iter(self.toks), self.t.ops, s))
        c.check(st == "exc" and isinstance(x, Injected), "error-propagation", f"failing sink: {st} {x!r}")
        c.eq(s.got, self.rpn[:at], "prefix", "sink of " + show(self.toks))

    def unbalanced(self):
        c = self.c
        toks = list(self.toks)
        par = [i for i, x in enumerate(toks) if x in ("(", ")")]
        if par and c.flag(0.5):
            del toks[c.pick(par)]
        elif c.flag(0.8) or not par:
            toks.insert(c.choose(len(toks) + 1), c.pick("()"))
        else:
            # balanced in number, not in order
            toks = [{"(": ")", ")": "("}.get(x, x) if isinstance(x, str) else x for x in toks]
        k = c.choose(3 if self.alg else 2)
        if k == 0:
            fn = lambda: self.sy.shunting_yard_postfix(iter(toks), self.t.ops)
        elif k == 1:
            fn = lambda: self.sy.shunting_yard_ast(iter(toks), self.t.ops)
        else:
            fn = lambda: self.sy.shunting_yard_compute(iter(toks), tokenize=False)
        st, x = c.call(fn)
        c.ev("unbalanced", show(toks), st)
        c.check(st == "exc" and isinstance(x, Exception), "unbalanced", f"{show(toks)} was accepted: {x!r}")

    def aborted(self):
        st, _ = guarded(self.c, self.good, 400)
        return st


def history(c):
    exprs = [One(c, c.flag(0.45)) for _ in range(c.int(1, 4))]
    for x in exprs:
        c.ev("expr", "alg" if x.alg else sorted((k, tuple(v)) for k, v in x.t.ops.items()), show(x.toks))
    tables = [(x, dict(x.t.ops)) for x in exprs]
    for _ in range(c.int(2, 6)):
        x = c.pick(exprs)
        op = c.weighted([(8, "good"), (2, "failing_stream"), (2, "failing_visitor"), (1, "failing_sink"),
                         (2, "unbalanced"), (2, "aborted"), (2, "threads")])
        if op == "threads":
            s = Sched(c, c.pick([8, 30, 120]), 60)
            for _ in range(c.int(2, 3)):
                y = c.pick(exprs)
                s.spawn(c.pick([y.good, y.good, y.failing_stream]))
            for t in s.run():
                if t.exc is not None:
                    raise t.exc
            c.ev("threads")
        else:
            r = getattr(x, op)()
            c.ev(op, exprs.index(x), r)
        for y, ops in tables:
            c.eq(y.t.ops, ops, "input", "operator table")
    for x in exprs:
        x.postfix()
        x.ast()
        if x.alg:
            x.compute()


PATTERNS = ["[ab]", "a+", "ab|b", "\\d+", "a*", "(x|y)+z?", "\\s+", ".", "\u03b5+|a", "$", "\\b", "zzz"]


def tokens(c):
    """tokenize() partitions its input and hands over right spans, up to any failure"""
    tk = c.lib.tokenize
    pat = re.compile("|".join(c.sample(PATTERNS, c.int(1, 3))))
    texts = ["".join(c.pick("aabbx1 yz\u03b5") for _ in range(c.pick([0, 1, 3, 8, 20]))) for _ in range(c.int(1, 3))]
    c.ev("tokenize", pat.pattern, texts)

    def run(s, partial):
        pieces = []

        class Vis(tk.TokenizeVisitor):
            def on_unmatched(self, x, start, end, full):
                self.seen(False, x, start, end, full)

            def on_matched(self, x, start, end, full):
                self.seen(True, x, start, end, full)

            def seen(self, hit, x, start, end, full):
                c.check(full == s, "tokens", "original string")
                c.check(x != "", "tokens", "empty piece")
                c.eq(start, sum(len(p) for _, p in pieces), "tokens", f"start of {x!r} in {s!r}")
                c.eq(s[start:end], x, "tokens", f"span {start}:{end} of {s!r}")
                pieces.append((hit, x))
                c.cb("on_matched" if hit else "on_unmatched")
        tk.tokenize(pat, s, hollow(c, Vis()))
        c.eq("".join(x for _, x in pieces), s, "tokens", f"pieces of {s!r}")
        c.eq([x for h, x in pieces if h], [m.group(0) for m in pat.finditer(s) if m.group(0)], "tokens",
             f"matches of {pat.pattern!r} in {s!r}")

    def partial(s):
        c.arm_callback(c.choose(4))
        st, x = c.call(lambda: run(s, True))
        c.disarm_callback()
        if st == "exc" and not isinstance(x, Injected):
            raise x
    for _ in range(c.int(1, 4)):
        s = c.pick(texts)
        k = c.weighted([(4, "run"), (2, "partial"), (2, "threads"), (1, "abort"), (1, "novis")])
        c.ev(k, s)
        if k == "run":
            run(s, False)
        elif k == "partial":
            partial(s)
        elif k == "abort":
            guarded(c, lambda: run(s, True), 40)
        elif k == "novis":
            c.eq(tk.tokenize(pat, s), None, "tokens", "without visitor")
        else:
            sc = Sched(c, c.pick([4, 12]), 40)
            for _ in range(c.int(2, 3)):
                sc.spawn(lambda s=c.pick(texts): run(s, False))
            for t in sc.run():
                if t.exc is not None:
                    raise t.exc


RE_BIN = {"|": 1, ".": 2}


def regex_tree(c):
    """Regular-expression operator table: implicit concatenation made explicit, then the tree"""
    sy = c.lib.shunting_yard_postfix

    class T:
        # the standard reading, whatever numbers the library gives to the levels
        ops = {t: sy.Op(1, 4, sy.LEFT) for t in "*+?"} | {".": sy.Op(2, 2, sy.LEFT), "|": sy.Op(2, 1, sy.LEFT)}
        kind = {t: "bin" if o.cardinality == 2 else "post" for t, o in ops.items()}
        chain = True
        names = Table.names
    atoms = c.pick([["a", "b"], ["a", "b", "[ab]", "\\d"], ["a", "[^x]", "\\*", "{", "c"][:3]])
    toks = stream(c, T(), 0, lambda c: c.pick(atoms))
    text = "".join(x for x in toks if x != ".")
    c.ev("regex", text)
    want = parse(T(), toks, sy.RIGHT)
    for _ in range(c.int(1, 2)):
        got = list(sy.tokenizer_re(text))
        c.eq(got, toks, "tokens", text)
        ast, root = sy.shunting_yard_ast(got, sy.MAP_OPERATORS_RE)
        c.eq(tree_of(ast, root), want, "tree", text)
        c.eq(list(sy.shunting_yard_postfix(got, sy.MAP_OPERATORS_RE)), rpn(want), "postfix", text)
        e = ast.to_expr()
        st, r = c.call(lambda: parse(T(), re.findall(r"\\.|\[[^]]*\]|.", e), sy.RIGHT))
        c.check(st == "ok" and r == want, "render", f"{text} rendered as {e}")
        guarded(c, lambda: sy.shunting_yard_ast(sy.tokenizer_re(text), sy.MAP_OPERATORS_RE), 300)


SCENARIOS = [(8, "expressions", history), (2, "tokenize", tokens), (1, "regex-tree", regex_tree)]
