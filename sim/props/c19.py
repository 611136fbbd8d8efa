"""C19: generated graph descriptions never leak style across graphs and calls"""
import json
import re
from copy import copy

from .common import hollow, pick_abort
from ..kernel import Injected, Sched, SimKeyboardInterrupt, SimMemoryError

RULE = ("One run = 5 to 14 operations in which clients export graphs, automata, views and bundled graphs with their own "
        "style dictionaries, property maps and vertex or edge subsets, reuse the same dictionaries for several graphs, "
        "change the library-wide style, mutate graphs, and suffer failing property maps and aborts, sequentially or as "
        "concurrent simulated threads; every description is parsed back and compared with a model of the effective "
        "style, and every object handed over is compared with its state before the call.")
REAL = ["to_dot", "GraphvizStyle", "GraphDp", "graphviz_escape_html", "Graph.to_dot", "Automaton.to_dot", "Nfa.to_dot",
        "NodeAutomaton.to_dot", "GraphView.to_dot", "BKTree.to_dot", "Ast.to_dot"]
STUB = ["caller-supplied property maps and vertex names (fault-injecting)"]
RUNS = {"quick": 13000, "thorough": 200000}
ASSUMPTIONS = ["the library-wide style is not changed while an export is in progress"]

ATTR = re.compile(r'(?s)\s*([^\s=\[\];,"<>]+)\s*=\s*(?:"((?:[^"\\]|\\.)*)"|<((?:[^<>]|<[^<>]*>)*)>|([^\s;,\]"<>]+))\s*[;,]?')
ESC = {"<": "&#60;", ">": "&#62;", "[": "&#91;", "]": "&#93;", "{": "&#123;", "}": "&#125;", "\n": "\\n", "\t": "\\t"}


def unquoted(s):
    return re.sub(r'\\(["\\])', r"\1", s)


def parse_attrs(s):
    d = {}
    i = 0
    s = s.strip()
    while i < len(s):
        m = ATTR.match(s, i)
        if not m:
            raise ValueError(f"attribute list {s!r} at {i}")
        d[m.group(1)] = unquoted(m.group(2)) if m.group(2) is not None else ("html", m.group(3)) if m.group(3) is not None else m.group(4)
        i = m.end()
    return d


def statements(body):
    """Splits the body at the semicolons that are outside of quotes, brackets and html labels"""
    out, cur, quote, depth = [], [], False, 0
    html = 0
    esc = False
    for a in body:
        if quote:
            quote = a != '"' or esc
            esc = a == "\\" and not esc
        elif html:
            html += {"<": 1, ">": -1}.get(a, 0)
        elif a == '"':
            quote = True
        elif a == "[":
            depth += 1
        elif a == "]":
            depth -= 1
        elif a == "<":
            html = 1
        elif a == ";" and depth == 0:
            out.append("".join(cur).strip())
            cur = []
            continue
        cur.append(a)
    last = "".join(cur).strip()
    if "" in out:
        raise ValueError("empty statement")
    return out + [last] if last else out


def parse(dot):
    m = re.fullmatch(r"\s*(digraph|graph)\s+G\s*\{(.*)\}\s*", dot, re.S)
    if not m:
        raise ValueError("not a graph description")
    st = {"graph": {}, "node": {}, "edge": {}}
    vs, es, extra = [], [], []
    op = "->" if m.group(1) == "digraph" else "--"
    for x in statements(m.group(2)):
        k = re.fullmatch(r"(graph|node|edge)\s*\[(.*)\]", x, re.S)
        if k:
            st[k.group(1)].update(parse_attrs(k.group(2)))
            continue
        k = re.fullmatch(r"(\w+)\s*%s\s*(\w+)\s*(?:\[(.*)\])?" % re.escape(op), x, re.S)
        if k:
            es.append((k.group(1), k.group(2), parse_attrs(k.group(3) or "")))
            continue
        k = re.fullmatch(r"(\d+|n\d+)\s*(?:\[(.*)\])?", x, re.S)
        if k:
            vs.append((k.group(1), parse_attrs(k.group(2) or "")))
            continue
        extra.append(x)
    return m.group(1), st, vs, es, extra


def html_label(s):
    if s in ("<i>\u03b5</i>", "<b>x</b>", "<br/>"):
        return ("html", s)
    return ("html", "".join(ESC.get(a, a) for a in s))


VALS = ["red", "", "a b", "1", 2, 1.5, "#00ff00", "x;y", "[z]", "\u03b5", "<tr>", "a\"b", "\"", "end\\", "\"; shape=\"x", "l\nm"]
LABELS = ["a", "x y", "<", "a>b", "[b]", "{c}", "\u03b5", "<b>x</b>", 3, "l\n2", "\t", "<foo>", "<br/>"]


class World:
    """Library-wide style as the model sees it"""

    def __init__(self, c):
        gi = c.lib.graphviz_impl
        self.c, self.gs = c, gi.GraphvizStyle
        self.style = {k: {a: str(b) for a, b in getattr(self.gs, k).items()} for k in ("graph", "node", "edge")}
        self.extra = list(self.gs.extra_style)
        c.eq(self.style, {"graph": {"fontcolor": "black", "bgcolor": "transparent", "rankdir": "LR"},
                          "node": {"color": "black", "fontcolor": "black", "fillcolor": "transparent", "shape": "circle"},
                          "edge": {"color": "black", "fontcolor": "black"}}, "default-style", "library-wide style")

    def snap(self):
        return {k: dict(v) for k, v in self.style.items()}, list(self.extra)

    def change(self):
        c = self.c
        k = c.choose(6)
        col = c.pick(["white", "red", "#123456", "x\"y"])
        gs = c.lib.graphviz_impl.GraphvizStyle() if c.flag(0.3) else self.gs
        if k == 0:
            gs.set_fg_color(col)
            self.style["graph"]["fontcolor"] = col
            for x in ("node", "edge"):
                self.style[x]["color"] = self.style[x]["fontcolor"] = col
        elif k == 1:
            gs.set_bg_color(col)
            self.style["graph"]["bgcolor"] = col
        elif k == 2:
            x = c.pick(["graph", "node", "edge"])
            getattr(self.gs, x)["penwidth"] = "2"
            self.style[x]["penwidth"] = "2"
        elif k == 3:
            x = c.pick(["graph", "node", "edge"])
            getattr(self.gs, x).pop("penwidth", None)
            self.style[x].pop("penwidth", None)
        elif k == 4:
            # no default at all for these items
            x = c.pick(["graph", "node", "edge"])
            if c.flag(0.5):
                getattr(self.gs, x).clear()
            else:
                setattr(self.gs, x, {})
            self.style[x] = {}
        else:
            e = c.pick(["splines=true", "ratio=1"])
            self.gs.extra_style.append(e)
            self.extra.append(e)
        c.ev("style", k, col)
        self.verify()

    def verify(self):
        for k, v in self.style.items():
            self.c.eq({a: str(b) for a, b in getattr(self.gs, k).items()}, v, "style-leak", f"library-wide {k} style")
        self.c.eq(list(self.gs.extra_style), self.extra, "style-leak", "library-wide extra style")


class Pool:
    """Dictionaries and property maps that the callers own and reuse"""

    def __init__(self, c):
        self.c = c
        pm = c.lib.property_map
        self.dicts = [{k: c.pick(VALS) for k in c.sample(["color", "shape", "rankdir", "fontcolor", "penwidth"], c.choose(4))}
                      for _ in range(3)]
        self.pms = []
        self.pool = []
        for _ in range(5):
            lab = c.flag(0.4)
            name = "label" if lab else c.pick(["color", "shape", "xlabel", "weight"])
            vals = [c.pick(LABELS if lab else VALS + [None]) for _ in range(4)]
            self.pool.append((name, vals))

        def fn(vals):
            def f(x):
                c.cb("pmap")
                return vals[self.index(x) % 4]
            return f
        # several dictionaries sharing the maps
        self.maps = []
        for _ in range(4):
            d, model = {}, {}
            for name, vals in c.sample(self.pool, c.choose(3)):
                if name not in d:
                    d[name] = pm.make_func_property_map(fn(vals))
                    model[name] = vals
            self.maps.append((d, model))
        self.before = ([dict(d) for d in self.dicts], [dict(d) for d, _ in self.maps])

    @staticmethod
    def index(x):
        return x if isinstance(x, int) else x.source + x.target

    def verify(self):
        now = ([dict(d) for d in self.dicts], [dict(d) for d, _ in self.maps])
        self.c.check(now == self.before and [list(d) for d in self.dicts] == [list(d) for d in self.before[0]],
                     "caller-data", "a dictionary given by the caller was altered")


class Item:
    """A graph of some kind with its own default attributes"""

    def __init__(self, c):
        lib = c.lib
        self.c = c
        self.kind = c.pick(["DirectedGraph", "UndirectedGraph", "IncidenceGraph", "Automaton", "Nfa", "NodeAutomaton", "BKTree",
                            "Ast", "IncidenceAutomaton"])
        n = c.int(0, 4) if self.kind not in ("Automaton", "Nfa", "NodeAutomaton", "IncidenceAutomaton") else c.int(1, 4)
        self.auto_v, self.auto_e = {}, {}
        self.raw = False
        if self.kind in ("DirectedGraph", "UndirectedGraph", "IncidenceGraph"):
            G = lib.incidence_graph.IncidenceGraph if self.kind == "IncidenceGraph" else getattr(lib.graph, self.kind)
            g = G(n)
            for _ in range(c.choose(5)):
                if n:
                    g.add_edge(c.choose(n), c.choose(n))
        elif self.kind in ("Automaton", "IncidenceAutomaton"):
            G = lib.automaton.Automaton if self.kind == "Automaton" else lib.incidence_automaton.IncidenceAutomaton
            g = G(n)
            for _ in range(c.choose(5)):
                g.add_edge(c.choose(n), c.choose(n), c.pick("ab<"))
            g.set_initial(0)
            g.set_final(c.choose(n))
            self.auto_v["shape"] = lambda u: "doublecircle" if g.is_final(u) else "circle"
            self.auto_e["label"] = g.label
        elif self.kind == "Nfa":
            g = lib.nfa.Nfa(n)
            for _ in range(c.choose(5)):
                g.add_edge(c.choose(n), c.choose(n), c.pick(["a", "b", g.epsilon]))
            g.set_initial(0)
            g.set_final(c.choose(n))
            self.auto_v["shape"] = lambda u: "doublecircle" if g.is_final(u) else "circle"
            self.auto_e["label"] = lambda e: "<i>\u03b5</i>" if g.label(e) == g.epsilon else g.label(e)
        elif self.kind == "NodeAutomaton":
            g = lib.node_automaton.NodeAutomaton()
            g.add_vertex(None)
            for _ in range(n - 1):
                g.add_vertex(c.pick("ab"))
            vs = list(g.vertices())
            for _ in range(c.choose(4)):
                u, v = c.pick(vs), c.pick(vs)
                if v != vs[0]:
                    g.add_edge(u, v)
            g.set_initial(vs[0])
            g.set_final(c.pick(vs))
            self.auto_v["shape"] = lambda u: "doublecircle" if g.is_final(u) else "circle"
            self.auto_e["label"] = g.label
            self.auto_v["label"] = lambda u: "^" if g.is_initial(u) else g.symbol(u)
        elif self.kind == "BKTree":
            g = lib.bk_tree.make_bk_tree([c.choose(9) for _ in range(n)], lambda x, y: abs(x - y))
            self.auto_v = {"label": g.element, "shape": lambda u: "doublecircle" if g.is_final(u) else "circle"}
            self.auto_e["label"] = g.label
        else:
            sy = lib.shunting_yard_postfix
            g, _ = sy.shunting_yard_ast(["a", "+", "b", "*", "c"][: 2 * c.choose(3) + 1], sy.MAP_OPERATORS_ALG)
            self.auto_v["label"] = lambda u: f"{u} {g.symbol(u)}"
        self.g = g
        self.directed = self.kind != "UndirectedGraph"

    def snap(self):
        g = self.g
        x = [list(g.vertices()), [(g.source(e), g.target(e), e.distinguisher) for e in g.edges()]]
        if self.kind in ("Automaton", "Nfa", "NodeAutomaton", "IncidenceAutomaton"):
            x.append(sorted(u for u in x[0] if g.is_final(u)))
        return x

    def mutate(self):
        c, g = self.c, self.g
        if self.kind in ("BKTree", "Ast"):
            return
        vs = list(g.vertices())
        if self.kind in ("DirectedGraph", "UndirectedGraph", "IncidenceGraph"):
            k = c.choose(3)
            if k == 0 or not vs:
                g.add_vertex()
            elif k == 1:
                g.remove_vertex(c.pick(vs))
            else:
                g.add_edge(c.pick(vs), c.pick(vs))
        else:
            g.set_final(c.pick(vs))
        c.ev("mutate", self.kind)


class Call:
    """One export with its expected outcome"""

    def __init__(self, c, world, pool, items, dps):
        lib = c.lib
        self.c, self.pool = c, pool
        self.item = it = c.pick(items)
        g = it.g
        ((style, extra), kw, model) = world.snap(), {}, {}
        self.style, self.extra = style, list(extra)
        vs, es = list(g.vertices()), list(g.edges())
        self.vmap, self.emap = {}, {}
        self.some = {}
        how = c.weighted([(5, "method"), (3, "function"), (3, "dp"), (2, "view")])
        self.how = how
        own = [None, None]
        for key, name in (("dg", "graph"), ("dv", "node"), ("de", "edge")):
            if c.flag(0.35):
                kw[key] = c.pick(pool.dicts)
                model[key] = kw[key]
        for i, key in enumerate(("dpv", "dpe")):
            if c.flag(0.5):
                kw[key], own[i] = c.pick(pool.maps)
        self.vertex_name = str
        if c.flag(0.15):
            self.vertex_name = lambda u: f"n{u}"

            def name(u):
                c.cb("vertex_to_str")
                return f"n{u}"
            kw["vertex_to_str"] = hollow(c, name)
        if c.flag(0.15):
            kw["extra_style"] = "concentrate=true"
            self.extra.append("concentrate=true")
        if c.flag(0.1) and how != "dp":
            kw["graphviz_style"] = c.pick(["", "graph [size=\"7\"]"])
            self.style = {"graph": {"size": "7"} if kw["graphviz_style"] else {}, "node": {}, "edge": {}}
            self.extra = [x for x in self.extra if x == "concentrate=true"]
        subset = how != "view" and c.flag(0.25)
        if subset:
            vs = [u for u in vs if c.flag(0.6)]
            es = [e for e in es if c.flag(0.6)]
        auto_v, auto_e = it.auto_v, it.auto_e
        if how == "function":
            auto_v, auto_e = {}, {}
            f = lib.graphviz.to_dot
        elif how == "method":
            f = lambda g, **kw: g.to_dot(**kw)
        elif how == "view":
            hide = {u for u in vs if c.flag(0.3)}
            vs = [u for u in vs if u not in hide]
            es = [e for e in es if g.source(e) not in hide and g.target(e) not in hide]
            pmv = hollow(c, lib.property_map.make_func_property_map(lambda u: u not in hide))
            view = lib.graph_view.GraphView(g, pmap_vrelevant=pmv)
            if c.flag(0.4):
                # subsets of the view, given as collections or one-shot iterators that belong to the caller
                self.some["vs"] = [u for u in c.shuffle(g.vertices()) if c.flag(0.6)]
                vs = [u for u in vs if u in self.some["vs"]]
            if c.flag(0.4):
                self.some["es"] = [e for e in c.shuffle(g.edges()) if c.flag(0.6)]
                es = [e for e in es if e in self.some["es"]]
            f = lambda g, **kw: view.to_dot(**kw)
        else:
            auto_v, auto_e = {}, {}
            # a bundle owns copies of the style in force when it was made
            if dps and c.flag(0.5):
                dp = c.pick(dps)
                self.item = it = dp["item"]
                g = it.g
                vs, es = list(g.vertices()), list(g.edges())
                if subset:
                    vs = [u for u in vs if c.flag(0.6)]
            else:
                dp = make_dp(c, world, pool, it)
                dps.append(dp)
            f = lambda g, **kw: dp["dp"].to_dot(**kw)
            own = [{**dp["dpv"], **(own[0] or {})}, {**dp["dpe"], **(own[1] or {})}]
            for key in ("dg", "dv", "de"):
                model[key] = {**dp[key], **model.get(key, {})}
            if dp["extra"] and "extra_style" not in kw:
                self.extra += dp["extra"]
        for key, name in (("dg", "graph"), ("dv", "node"), ("de", "edge")):
            self.style[name].update({a: str(b) for a, b in model.get(key, {}).items()})
        self.kw = kw
        self.args = (g, f)
        self.subset = subset
        self.vs, self.es = vs, es
        self.own, self.auto = [own[0] or {}, own[1] or {}], [auto_v, auto_e]
        self.before = it.snap()
        kinds = [c.pick([iter, iter, list, tuple, set] if how == "view" else [iter, iter, list, tuple]) for _ in range(2)]
        self.form = lambda l: kinds[l is self.es or l is self.some.get("es")](l)

    def attrs(self, i, x):
        out = {}
        for k, vals in self.own[i].items():
            out[k] = vals[Pool.index(x) % 4]
        for k, f in self.auto[i].items():
            if k not in out:
                out[k] = f(x)
        return {k: html_label(str(v)) if k == "label" else str(v) for k, v in out.items() if v is not None}

    def run(self):
        c = self.c
        g, f = self.args
        kw = dict(self.kw)
        if self.subset:
            kw["vs"], kw["es"] = self.form(self.vs), self.form(self.es)
        for k, l in self.some.items():
            kw[k] = self.form(l)
        passed = {k: copy(v) if isinstance(v, (set, list, tuple)) else v for k, v in kw.items()}
        dot = f(g, **kw)
        self.judge(dot)
        c.check(kw == passed, "caller-data", "keyword arguments")
        return dot

    def judge(self, dot):
        c = self.c
        g = self.item.g
        w = f"{self.how} on {self.item.kind}"
        try:
            typ, st, vs, es, extra = parse(dot)
        except ValueError as e:
            c.check(False, "unreadable", f"{w}: {e}: {dot!r}")
        c.eq(typ, "digraph" if self.item.directed else "graph", "type", w)
        c.eq(st, self.style, "style", w + ": " + dot)
        c.eq(extra, self.extra, "extra-style", w + ": " + dot)
        nm = self.vertex_name
        want = [(nm(u), self.attrs(0, u)) for u in self.vs]
        if self.how == "view":
            # a view lists sets
            vs, want = sorted(vs, key=repr), sorted(want, key=repr)
        c.eq(vs, want, "vertices", w)
        want = [(nm(g.source(e)), nm(g.target(e)), self.attrs(1, e)) for e in self.es]
        if self.how == "view":
            es, want = sorted(es, key=repr), sorted(want, key=repr)
        c.eq(es, want, "edges", w)
        c.eq(self.item.snap(), self.before, "graph-changed", w)


def make_dp(c, world, pool, it):
    lib = c.lib
    d = {"item": it}
    a = {}
    for key, name in (("dg", "graph"), ("dv", "node"), ("de", "edge")):
        if c.flag(0.4):
            a[key] = c.pick(pool.dicts)
        # an empty dictionary counts as none
        d[key] = dict(a[key]) if a.get(key) else dict(world.style[name])
    for key in ("dpv", "dpe"):
        d[key] = {}
        if c.flag(0.5):
            a[key], d[key] = c.pick(pool.maps)
    d["extra"] = list(world.extra)
    if c.flag(0.2):
        a["extra_style"] = ["nodesep=1", "ranksep=1"]
        d["extra"] = list(a["extra_style"])
    d["dp"] = lib.graph_dp.GraphDp(it.g, **a)
    c.eq((d["dp"].get_dg(), d["dp"].get_dv(), d["dp"].get_de()), (d["dg"], d["dv"], d["de"]), "bundle", "style of a new GraphDp")
    c.check(set(d["dp"].get_dpv()) == set(d["dpv"]) and set(d["dp"].get_dpe()) == set(d["dpe"]), "bundle", "property maps")
    return d


TEXT = ["a\"b", "back\\slash", "\\", "new\nline", "\t", "\u03b5", "</script>", 3, 0.5, True, "%s", "", "{}"]


def to_json(c, dps):
    """The JSON form: the same vertices, edges and attributes, whatever characters the values contain"""
    d = c.pick(dps)
    it = d["item"]
    g = it.g
    dp, dpv, dpe = d["dp"], d["dpv"], d["dpe"]
    if c.flag(0.5):
        pm = c.lib.property_map.make_func_property_map

        def own():
            vals = [c.pick(TEXT) for _ in range(4)]

            def read(x):
                c.cb("pmap")
                return vals[Pool.index(x) % 4]
            return vals, pm(read)
        keys = ["label", "color", "size", 'k"'] if c.flag(0.3) else ["label", "size"]
        mv, me = ({k: own() for k in c.sample(keys, c.choose(3))} for _ in range(2))
        dp = c.lib.graph_dp.GraphDp(g, dpv={k: m for k, (_, m) in mv.items()}, dpe={k: m for k, (_, m) in me.items()})
        dpv, dpe = {k: v for k, (v, _) in mv.items()}, {k: v for k, (v, _) in me.items()}
    vs, es, kw = list(g.vertices()), list(g.edges()), {}
    if c.flag(0.3):
        vs, es = c.sample(vs, c.choose(len(vs) + 1)), c.sample(es, c.choose(len(es) + 1))
        kw = {"vs": iter(vs) if c.flag(0.5) else vs, "es": iter(es) if c.flag(0.5) else es}
    if c.flag(0.2):
        c.arm_callback(c.choose(6))
    before = it.snap()
    st, x = c.call(lambda: dp.to_json(**kw))
    c.disarm_callback()
    c.ev("json", it.kind, st)
    c.eq(it.snap(), before, "graph-changed", "to_json")
    if st == "exc":
        if not isinstance(x, Injected):
            raise x
        return
    try:
        j = json.loads(x)
    except ValueError as e:
        c.check(False, "json", f"{it.kind}: {e}: {x!r}")
    c.eq(j["graph_type"], "digraph" if it.directed else "graph", "json", "type")
    at = lambda m, x: {k: str(v[Pool.index(x) % 4]) for k, v in m.items()}
    c.eq(j["vertices"], [{"id": u, **at(dpv, u)} for u in vs], "json", "vertices")
    c.eq(j["edges"], [{"source": g.source(e), "target": g.target(e), **at(dpe, e)} for e in es], "json", "edges")


def history(c):
    world, pool = World(c), Pool(c)
    items = [Item(c) for _ in range(c.int(1, 3))]
    dps = []
    c.ev("items", [i.kind for i in items])
    for _ in range(c.int(5, 14)):
        op = c.weighted([(8, "export"), (3, "failing"), (3, "threads"), (2, "abort"), (2, "style"), (2, "mutate"), (2, "json")])
        if op == "style":
            world.change()
            continue
        if op == "mutate":
            c.pick(items).mutate()
            continue
        if op == "json":
            if dps:
                to_json(c, dps)
            continue
        x = Call(c, world, pool, items, dps)
        if op == "export":
            d = x.run()
            c.ev("export", x.how, x.item.kind, len(d))
        elif op == "failing":
            c.arm_callback(c.choose(8))
            st, r = c.call(x.run)
            c.disarm_callback()
            c.ev("failing", x.how, x.item.kind, st)
            if st == "exc" and not isinstance(r, Injected):
                raise r
            c.eq(x.item.snap(), x.before, "graph-changed", "failed export")
        elif op == "abort":
            exc = pick_abort(c)
            c.arm_abort(c.int(1, 250), exc)
            try:
                x.run()
            except (SimKeyboardInterrupt, SimMemoryError):
                c.fault("abort-" + type(exc).__name__)
            c.disarm_abort()
            c.ev("abort", x.how, x.item.kind)
            c.eq(x.item.snap(), x.before, "graph-changed", "aborted export")
        else:
            s = Sched(c, c.pick([8, 30, 100]), 80)
            for y in [x] + [Call(c, world, pool, items, dps) for _ in range(c.int(1, 2))]:
                s.spawn(y.run)
            if c.flag(0.3):
                c.arm_callback(c.choose(20))
            ts = s.run()
            c.disarm_callback()
            for t in ts:
                if t.exc is not None and not isinstance(t.exc, Injected):
                    raise t.exc
            c.ev("threads")
        world.verify()
        pool.verify()
        for d in dps:
            for key in ("dg", "dv", "de"):
                c.eq(getattr(d["dp"], "get_" + key)(), d[key], "bundle", key + " of an existing GraphDp")


SCENARIOS = [(1, "exports", history)]
