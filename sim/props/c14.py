"""C14: regular expressions compile to automata of exactly their language"""
import re
import string
from .c13 import reorder
from .common import pick_abort
from ..kernel import Sched, SimKeyboardInterrupt, SimMemoryError

RULE = ("One run = 1 to 4 random regular expressions (drawn as syntax trees, whose exact languages a position automaton "
        "gives) compiled to nondeterministic, deterministic, complete and minimal automata under "
        "simulator-chosen set orders, after rejected expressions, after compilations aborted at an arbitrary instant, "
        "or in concurrent simulated threads; deterministic results are compared exactly (product of both automata), "
        "nondeterministic ones on random words of the language and their neighbours.")
REAL = ["compile_nfa", "compile_dfa", "thompson_compile_nfa", "parse_bracket", "parse_escaped", "parse_repetition",
        "tokenizer_re", "shunting_yard_postfix", "moore_determination", "hopcroft_minimize", "Nfa", "Automaton"]
STUB = ["set iteration and pop order (decided by the simulator)"]
RUNS = {"quick": 6500, "thorough": 120000}
SPECIAL = set("+*?.|[](){}\\^$")
NAMED = {"\\d": re.compile("[0-9]"), "\\D": re.compile("[^0-9]"), "\\w": re.compile("[0-9A-Za-z]"),
         "\\W": re.compile("[^0-9A-Za-z]"), "\\s": re.compile("[ \t]"), "\\S": re.compile("[^ \t]")}
CTRL = {"\n": "\\n", "\t": "\\t", "\r": "\\r", "\x0b": "\\v", "\x0c": "\\f"}


def leaf(c, sigma):
    k = c.weighted([(10, "lit"), (4, "set"), (1, "neg"), (1, "range"), (1, "named"), (1, "mixed"), (2, "bracket")])
    if k == "set":
        s = sorted(set(c.pick(sigma) for _ in range(c.int(1, 3))))
        s = [x for x in s if x not in "[]\\^-" and x not in CTRL]
        if s:
            # a dash first or last is a literal
            dash = c.pick(["", "", "", "-"])
            return "[" + "".join(s) + dash + "]", frozenset(s) | set(dash)
    elif k == "neg":
        s = sorted(set(c.pick(sigma) for _ in range(c.int(1, 2))))
        s = [x for x in s if x not in "[]\\^-" and x not in CTRL]
        if s:
            return "[^" + "".join(s) + "]", ("not", frozenset(s))
    elif k == "range":
        lo, hi = c.pick(["ac", "ab", "bc", "az", "AZ", "09", "59", "δθ"])
        s = frozenset(chr(i) for i in range(ord(lo), ord(hi) + 1))
        extra = c.pick(["", "", "+", "_"])
        if c.flag(0.3):
            return f"[^{lo}-{hi}{extra}]", ("not", s | set(extra))
        return f"[{lo}-{hi}{extra}]", s | set(extra)
    elif k == "named":
        n = c.pick(sorted(NAMED))
        return n, ("named", n)
    elif k == "mixed":
        n = c.pick(["\\d", "\\w", "\\s"])
        x = c.pick("abc")
        return f"[{x}{n}]", ("or", ("named", n), frozenset(x))
    elif k == "bracket":
        # several parts: symbols, escaped symbols, classes and ranges, possibly bounded by escaped symbols
        text, parts = "", []
        for _ in range(c.int(1, 4)):
            q = c.weighted([(4, "sym"), (2, "esc"), (1, "cls"), (3, "rng"), (1, "escrng")])
            if q == "sym":
                x = c.pick(sigma + "abz_+,;")
                if x in "[]\\^-":
                    x = "a"
                t, v = x, frozenset(x)
            elif q == "esc":
                x = c.pick(sorted(SPECIAL))
                t, v = "\\" + x, frozenset(x)
                if c.flag(0.3):
                    x = c.pick(sorted(CTRL))
                    t, v = CTRL[x], frozenset(x)
            elif q == "cls":
                n = c.pick(["\\d", "\\w", "\\s", "\\W", "\\D"])
                t, v = n, ("named", n)
            else:
                lo, hi = c.pick(["ac", "AZ", "09", "\t\r", "+9", "*."] if q == "escrng" else ["ac", "bz", "AC", "09", " !", "αω"])
                v = frozenset(chr(i) for i in range(ord(lo), ord(hi) + 1))
                f = lambda x: CTRL.get(x) or ("\\" + x if x in SPECIAL else x)
                t = f"{f(lo)}-{f(hi)}"
            text += t
            parts.append(v)
        if c.flag(0.2):
            text, parts = (text + "-", parts + [frozenset("-")]) if c.flag(0.5) else ("-" + text, parts + [frozenset("-")])
        v = ("or", *parts)
        return ("[^" + text + "]", ("not", v)) if c.flag(0.25) else ("[" + text + "]", v)
    x = c.pick(sigma)
    if x in SPECIAL:
        return "\\" + x, frozenset(x)
    if x in CTRL and c.flag(0.7):
        return CTRL[x], frozenset(x)
    return x, frozenset(x)


def tree(c, sigma, depth):
    """(text, node, is_atom) or (text, node, False, "rep"), a repetition"""
    if depth == 0 or c.flag(0.15):
        t, s = leaf(c, sigma)
        return t, ("set", s), True
    k = c.weighted([(5, "cat"), (4, "alt"), (5, "rep"), (1, "grp")])
    if k == "cat":
        a, b = tree(c, sigma, depth - 1), tree(c, sigma, depth - 1)
        wrap = lambda x: f"({x[0]})" if x[1][0] == "alt" and not x[2] else x[0]
        return wrap(a) + wrap(b), ("cat", a[1], b[1]), False
    if k == "alt":
        a, b = tree(c, sigma, depth - 1), tree(c, sigma, depth - 1)
        t = a[0] + "|" + b[0]
        return (f"({t})", ("alt", a[1], b[1]), True) if c.flag(0.5) else (t, ("alt", a[1], b[1]), False)
    if k == "grp":
        a = tree(c, sigma, depth - 1)
        return f"({a[0]})", a[1], True
    a = tree(c, sigma, depth - 1)
    # a repetition may directly follow another one
    t = a[0] if a[2] or (a[3:] == ("rep",) and c.flag(0.7)) else f"({a[0]})"
    if c.flag(0.5):
        op = c.pick("*+?")
        lo, hi = {"*": (0, None), "+": (1, None), "?": (0, 1)}[op]
    else:
        lo = c.choose(4) if c.flag(0.85) else c.int(4, 14)
        hi = c.pick([lo, lo, None, lo + 1, lo + 2, max(lo, 1), lo + c.int(3, 16)])
        op = "{%d}" % lo if hi == lo and c.flag(0.8) else \
            "{%s,%s}" % ("" if lo == 0 and c.flag(0.5) else lo, "" if hi is None else hi)
    return t + op, ("rep", a[1], lo, hi), False, "rep"


def member(s, a, whole):
    """Whether the symbol belongs to the class, complements being relative to the whole alphabet"""
    if isinstance(s, tuple):
        if s[0] == "not":
            return a in whole and not member(s[1], a, whole)
        if s[0] == "named":
            return bool(NAMED[s[1]].fullmatch(a)) and (s[1][1].islower() or a in whole)
        return any(member(x, a, whole) for x in s[1:])
    return a in s


class Exact:
    """Position automaton of a syntax tree: the exact language, whatever the length of the words"""

    def __init__(self, n, whole):
        self.whole, self.sym, self.follow = whole, [], []
        self.memo = {}
        self.nullable, first, self.last = self.build(n)
        self.start = frozenset(first)
        # a set of positions stands for "about to read one of them"; END marks that the word may stop here
        if self.nullable:
            self.start |= {END}

    def build(self, n):
        if n[0] == "set":
            p = len(self.sym)
            self.sym.append(n[1])
            self.follow.append(set())
            return False, {p}, {p}
        if n[0] == "word":
            return self.seq([self.build(("set", frozenset(a))) for a in n[1]])
        if n[0] == "alt":
            a, b = self.build(n[1]), self.build(n[2])
            return a[0] or b[0], a[1] | b[1], a[2] | b[2]
        if n[0] == "cat":
            return self.seq([self.build(n[1]), self.build(n[2])])
        _, x, lo, hi = n
        parts = [self.build(x) for _ in range(max(lo, 1) if hi is None else hi)]
        for i, (nul, f, l) in enumerate(parts):
            if i >= lo:
                parts[i] = (True, f, l)
        if hi is None:
            nul, f, l = parts[-1]
            for q in l:
                self.follow[q] |= f
        return self.seq(parts)

    def seq(self, parts):
        nul, first, last = True, set(), set()
        for n2, f2, l2 in parts:
            for q in last:
                self.follow[q] |= f2
            if nul:
                first = first | f2
            last = last | l2 if n2 else set(l2)
            nul = nul and n2
        return nul, first, last

    def has(self, p, a):
        k = (p, a)
        if k not in self.memo:
            self.memo[k] = member(self.sym[p], a, self.whole)
        return self.memo[k]

    def step(self, P, a):
        out = set()
        for p in P:
            if p != END and self.has(p, a):
                out |= self.follow[p]
                if p in self.last:
                    out.add(END)
        return frozenset(out)

    def accepts(self, w):
        P = self.start
        for a in w:
            P = self.step(P, a)
        return END in P

    def walk(self, c, symbols, maxlen):
        """A word of the language (or, near maxlen, of its prefixes), drawn at random"""
        P, w = self.start, []
        while len(w) < maxlen:
            if END in P and c.flag(0.25):
                break
            ps = sorted(P - {END})
            if not ps:
                break
            p = c.pick(ps)
            opts = [a for a in symbols if self.has(p, a)]
            if not opts:
                break
            w.append(c.pick(opts))
            P = self.step(P, w[-1])
        return "".join(w)


END = -1
PRINTABLE = string.printable


def same_dfa(c, g, x, symbols, what):
    """Product of the library automaton and of the position automaton: exact equality over the symbols"""
    seen, todo = set(), [(g.initial(), x.start, "")]
    while todo:
        q, P, w = todo.pop()
        if (q, P) in seen:
            continue
        seen.add((q, P))
        got = q is not None and bool(g.is_final(q))
        c.check(got == (END in P), "language", f"{what}: {w!r} accepted={got}, expected {END in P}")
        for a in symbols:
            r = None if q is None else g.delta(q, a)
            R = x.step(P, a)
            if r is not None or R:
                todo.append((r, R, w + a))


def size(n):
    if n[0] == "set":
        return 1
    if n[0] == "word":
        return len(n[1]) + 1
    if n[0] == "rep":
        return size(n[1]) * max(n[2], n[3] or 1, 1)
    return size(n[1]) + size(n[2])


def wide_leaf(n):
    """The leaf spans most of the default alphabet: the subset construction gets expensive"""
    if n[0] == "set":
        return isinstance(n[1], tuple) or len(n[1]) > 12
    return any(wide_leaf(x) for x in n[1:] if isinstance(x, tuple))


# no reading of these exists
BROKEN = ["(a", "a)", "((a)", "(a|b", "a|b)", "*", "+a", "(*a)", "a|*b", "a{3,1}", "(a|b){4,2}", "[b-a]", "[a", "a[^b",
          "\\q", "a\\", "[z-\\+]"]
BAD = BROKEN + ["(a", "a)", "[a", "a{3,1}", "(", "*", "a|", "a{1", "\\q", "[]", "((a)", "a||b", "{2}", "\\A"]


def draw(c):
    while True:
        sigma = "".join(c.sample("abc", c.int(1, 3)))
        if c.flag(0.4):
            sigma += "".join(c.sample("+.*(|7 Z-\n\t\\^$", c.int(1, 2)))
        if c.flag(0.2):
            # any character is a symbol, also those with which the library writes the empty word and the places of a class
            sigma += c.pick(["ε", "ε", "é", "\U0001F600", "\u0301", "\x00"])
        depth = c.int(1, 4)
        t, n, *_ = tree(c, sigma, depth)
        if size(n) <= (3 if wide_leaf(n) else 12 if c.flag(0.8) else 30):
            return t, n, sigma


def compilations(c):
    lib = c.lib
    R, T = lib.regexp, lib.thompson_compile_nfa

    def job():
        t, n, sigma = draw(c)
        if c.flag(0.08):
            # a word, literally
            sigma = "".join(c.sample("ab" + "".join(sorted(SPECIAL)), c.int(1, 4)))
            w = "".join(c.pick(sigma) for _ in range(c.choose(6)))
            t = lib.shunting_yard_postfix.re_escape(w)
            n = ("word", w)
        other = "x" if c.flag(0.3) else ""
        sig_all = sigma + other
        alphabet = None
        if c.flag(0.3):
            alphabet = sig_all
        form = c.pick(["nfa", "triple", "dfa", "complete", "minimal"])
        c.ev("expression", repr(t), form, alphabet)
        wide = alphabet is None
        whole = PRINTABLE if wide else alphabet
        x = Exact(n, set(whole))
        # the symbols that are tried at every position
        symbols = list(sig_all) + [c.pick(PRINTABLE)] + ["ε"] * c.flag(0.2)
        if c.flag(0.6 if wide_leaf(n) else 0.08):
            symbols = sorted(set(PRINTABLE) | set(sig_all) | set("\x07\u00e9ε"))

        def run():
            if form == "triple":
                return T.thompson_compile_nfa(t) if wide else T.thompson_compile_nfa(t, alphabet)
            if form == "nfa":
                return R.compile_nfa(t) if wide else T.thompson_compile_nfa(t, alphabet)[0]
            if wide and form != "minimal":
                return R.compile_dfa(t, complete=form == "complete") if form == "complete" or c_default else \
                    R.compile_dfa(t, False)
            nfa = T.thompson_compile_nfa(t, alphabet)[0] if not wide else R.compile_nfa(t)
            D = lib.incidence_automaton.IncidenceAutomaton
            d = lib.moore_determination.moore_determination(nfa, dfa=D(0), complete=form == "complete")
            return lib.hopcroft_minimize.hopcroft_minimize(d) if form == "minimal" else d

        c_default = c.flag(0.5)

        def verify(g):
            if form == "triple":
                g, q0, f = g
                c.eq((set(lib.nfa.initials(g)), set(lib.nfa.finals(g))), ({q0}, {f}), "shape",
                     f"{t!r}: the initial and final states, and those announced")
            if form in ("nfa", "triple"):
                for k in range(18):
                    w = x.walk(c, symbols, c.pick([3, 6, 16]))
                    if k >= 9 and w:
                        i = c.choose(len(w))
                        w = c.pick([w[:i] + c.pick(symbols) + w[i:], w[:i] + w[i + 1:], w[:i] + c.pick(symbols) + w[i + 1:]])
                    want = x.accepts(w)
                    c.check(bool(g.accepts(w)) == want, "language",
                            f"{t!r}: {w!r} accepted={not want}, expected {want} (nondeterministic)")
                if len(symbols) > 20 and w:
                    # every symbol at one place
                    i = c.choose(len(w))
                    for a in symbols:
                        v = w[:i] + a + w[i + 1:]
                        want = x.accepts(v)
                        c.check(bool(g.accepts(v)) == want, "language",
                                f"{t!r}: {v!r} accepted={not want}, expected {want} (nondeterministic)")
            else:
                same_dfa(c, g, x, symbols, f"{t!r} ({form})")
                for _ in range(3):
                    w = x.walk(c, symbols, c.pick([3, 6, 16]))
                    c.check(bool(g.accepts(w)) == x.accepts(w), "language", f"{t!r} ({form}): accepts({w!r}) is wrong")
        return run, verify, n
    budget = 12000000
    for _ in range(c.int(1, 3)):
        mode = c.weighted([(6, "plain"), (2, "rejected"), (3, "abort"), (3, "threads")])
        reorder(c)
        c.ev(mode)
        if mode == "threads":
            s = Sched(c, c.pick([30, 150, 600]), 80)
            vs = []
            for _ in range(2):
                run, verify, n = job()
                vs.append(verify)
                s.spawn(run)
            with c.limit(2 * budget, "concurrent compilations"):
                tasks = s.run()
            for x, v in zip(tasks, vs):
                if x.exc is not None:
                    raise x.exc
                v(x.result)
            continue
        if mode == "rejected":
            bad = c.pick(BAD)
            with c.limit(budget, "rejected expression"):
                r, x = c.call(R.compile_dfa, bad)
            c.fault("malformed-expression")
            c.ev("rejected", bad, r)
            c.check(bad not in BROKEN or r == "exc" and isinstance(x, Exception), "malformed",
                    f"{bad!r} has no reading, and compiled")
        run, verify, n = job()
        if mode == "abort":
            exc = pick_abort(c)
            c.arm_abort(c.int(1, 1200 * size(n)), exc)
            try:
                run()
            except (SimKeyboardInterrupt, SimMemoryError) as e:
                c.check(e is exc, "error-propagation", repr(e))
                c.fault("abort-" + type(e).__name__)
            c.disarm_abort()
        with c.limit(budget, "compilation"):
            g = run()
        verify(g)


MAX_STEPS = 30000000
SCENARIOS = [(1, "regexp", compilations)]
