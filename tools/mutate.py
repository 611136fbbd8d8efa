#!/usr/bin/env python3
"""Sensitivity campaign: systematic small changes of /repo in scratch copies.

mutate.py OUT.jsonl [--files a.py,b.py] [--jobs 8] [--secs 20] [--sample N]
For each mutant: the stable tests are run on a scratch copy; if they pass, the checks mapped to the file are run
(one worker, --secs seconds each) until one reports.  Results are appended to OUT.jsonl (already done ids skipped)."""
import argparse, ast, copy, hashlib, json, os, random, shutil, subprocess, sys, threading, queue, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {
    "graph": "C01 C07 C08 C10 C11 C21", "incidence_graph": "C01 C11 C07", "automaton": "C02 C12 C13 C19 C11",
    "incidence_automaton": "C02 C11 C13", "node_automaton": "C02 C12 C13 C19", "incidence_node_automaton": "C02 C13",
    "nfa": "C03 C13 C14 C19", "trie": "C04 C12", "trie_matching": "C04", "suffix_trie": "C04", "digital_sequence": "C04",
    "bk_tree": "C05 C19 C21", "heap": "C06 C09", "graph_view": "C07 C19", "breadth_first_search": "C08 C23",
    "depth_first_search": "C08 C10 C11 C23", "graph_traversal": "C08", "dijkstra_shortest_paths": "C09 C23 C21",
    "algebra": "C09 C21", "strong_components": "C10 C21", "topological_sort": "C10", "cut": "C10", "graph_copy": "C11",
    "automaton_copy": "C11", "graph_extract": "C11", "reverse": "C11", "prune_incidence_automaton": "C11",
    "parallel_breadth_first_search": "C12 C04", "product_mixin": "C12 C04", "deterministic_inclusion": "C12",
    "deterministic_intersection": "C12", "deterministic_union": "C12", "moore_determination": "C13 C14",
    "hopcroft_minimize": "C13 C14", "revuz_minimize": "C13", "thompson_compile_nfa": "C14", "regexp": "C14",
    "shunting_yard_postfix": "C15 C14", "tokenize": "C15", "graphviz_impl": "C19 C16 C17", "ipynb": "C17 C16",
    "graphviz": "C19 C18 C17 C16", "html": "C17 C16", "graph_dp": "C19 C18", "singleton": "C20",
    "aggregated_visitor": "C23", "levenshtein_distance": "C24 C05", "damerau_levenshtein_distance": "C24",
    "lcs_distance": "C24", "property_map": "C26 C08 C09 C07 C02 C19 C01 C11 C21", "color": "C19",
}
# doctests that fail on the unchanged tree
UNSTABLE = " and ".join("not " + x for x in (
    "make_assoc_property_map", "re_escape", "GraphvizStyle", "background_template_html", "display_svg",
    "dijkstra_shortest_paths"))
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq],
       ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.BitOr: ast.BitAnd, ast.BitAnd: ast.BitOr}
NAMES = {"min": "max", "max": "min", "any": "all", "all": "any", "append": "appendleft", "appendleft": "append",
         "pop": "popleft", "popleft": "pop", "source": "target", "target": "source", "add": "discard",
         "WHITE": "GRAY", "GRAY": "BLACK", "BLACK": "GRAY", "union": "intersection", "intersection": "union",
         "out_edges": "in_edges", "in_edges": "out_edges", "update": "copy", "deepcopy": "copy", "is_final": "is_initial",
         "is_initial": "is_final", "g1": "g2", "q1": "q2", "s1": "s2", "e1": "e2"}


def mutants(src):
    tree = ast.parse(src)
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant):
            doc.add(id(n.body[0])), doc.add(id(n.body[0].value))
    out = []
    ann = set()
    for n in ast.walk(tree):
        for a in (getattr(n, "annotation", None), getattr(n, "returns", None)):
            if a is not None:
                ann.update(id(x) for x in ast.walk(a))

    def emit(node, what, apply, undo):
        apply()
        try:
            t = ast.unparse(ast.fix_missing_locations(tree))
            out.append((getattr(node, "lineno", 0), what, t))
        finally:
            undo()

    def setter(n, f, v):
        old = getattr(n, f)
        return (lambda: setattr(n, f, v)), (lambda: setattr(n, f, old))
    parents = [(n, f, i, x) for n in ast.walk(tree) for f, l in ast.iter_fields(n) if isinstance(l, list)
               for i, x in enumerate(l) if isinstance(x, ast.AST)]
    for n, f, i, x in parents:
        l = getattr(n, f)
        if isinstance(x, ast.stmt) and id(x) not in doc and isinstance(
                x, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.Continue, ast.Break, ast.Return, ast.If, ast.Raise)):
            if isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant):
                continue

            def ap(l=l, i=i):
                l[i] = ast.Pass()

            def un(l=l, i=i, x=x):
                l[i] = x
            emit(x, "delete: " + ast.unparse(x)[:100], ap, un)
        if isinstance(x, ast.stmt) and i + 1 < len(l) and isinstance(l[i + 1], ast.stmt) and id(x) not in doc and \
                isinstance(x, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete)) and \
                isinstance(l[i + 1], (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete)):
            def ap(l=l, i=i):
                l[i], l[i + 1] = l[i + 1], l[i]
            emit(x, "swap: " + ast.unparse(x)[:60] + " / " + ast.unparse(l[i + 1])[:60], ap, ap)
    for n in ast.walk(tree):
        if id(n) in ann or id(n) in doc:
            continue
        if isinstance(n, ast.Compare):
            for j, op in enumerate(n.ops):
                for new in CMP.get(type(op), []):
                    def ap(n=n, j=j, new=new):
                        n.ops[j] = new()

                    def un(n=n, j=j, op=op):
                        n.ops[j] = op
                    emit(n, f"cmp {ast.unparse(n)[:80]} -> {new.__name__}", ap, un)
        if isinstance(n, ast.BoolOp):
            emit(n, "boolop " + ast.unparse(n)[:90], *setter(n, "op", ast.Or() if isinstance(n.op, ast.And) else ast.And()))
            for j, v in enumerate(n.values):
                if len(n.values) > 1:
                    def ap(n=n, j=j):
                        n.values = n.values[:j] + n.values[j + 1:]

                    def un(n=n, vs=n.values):
                        n.values = vs
                    emit(n, f"drop operand {j}: " + ast.unparse(n)[:90], ap, un)
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            emit(n, "if True: " + ast.unparse(n.test)[:80], *setter(n, "test", ast.Constant(True)))
            if not isinstance(n, ast.While):
                emit(n, "if False: " + ast.unparse(n.test)[:80], *setter(n, "test", ast.Constant(False)))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            def ap(n=n):
                n.op = ast.UAdd() if False else ast.Not()
            emit(n, "drop not: " + ast.unparse(n)[:80], *setter(n, "operand", ast.UnaryOp(ast.Not(), n.operand)))
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            emit(n, "binop " + ast.unparse(n)[:80], *setter(n, "op", BIN[type(n.op)]()))
        if isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            emit(n, "augop " + ast.unparse(n)[:80], *setter(n, "op", BIN[type(n.op)]()))
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                emit(n, f"const {n.value}", *setter(n, "value", not n.value))
            elif isinstance(n.value, int):
                emit(n, f"const {n.value}+1", *setter(n, "value", n.value + 1))
                emit(n, f"const {n.value}-1", *setter(n, "value", n.value - 1)) if n.value > 0 else None
            elif isinstance(n.value, str) and n.value:
                emit(n, f"str {n.value[:40]!r}", *setter(n, "value", ""))
        if isinstance(n, ast.Name) and n.id in NAMES and isinstance(n.ctx, ast.Load):
            emit(n, f"name {n.id}->{NAMES[n.id]}", *setter(n, "id", NAMES[n.id]))
        if isinstance(n, ast.Attribute) and n.attr in NAMES and isinstance(n.ctx, ast.Load):
            emit(n, f"attr {ast.unparse(n)}->{NAMES[n.attr]}", *setter(n, "attr", NAMES[n.attr]))
        if isinstance(n, ast.Call):
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                for j in range(len(n.args) - 1):
                    def sw(n=n, j=j):
                        n.args[j], n.args[j + 1] = n.args[j + 1], n.args[j]
                    emit(n, f"swap args {j}: " + ast.unparse(n)[:80], sw, sw)
            if isinstance(n.func, ast.Name) and n.func.id in ("set", "list", "dict", "sorted", "copy", "deepcopy", "tuple", "iter", "str") \
                    and len(n.args) == 1 and not n.keywords:
                # unwrap
                pass
            for j, k in enumerate(n.keywords):
                def ap(n=n, j=j):
                    n.keywords = n.keywords[:j] + n.keywords[j + 1:]

                def un(n=n, ks=n.keywords):
                    n.keywords = ks
                emit(n, f"drop kw {k.arg}: " + ast.unparse(n)[:80], ap, un)
        if isinstance(n, ast.Return) and n.value is not None:
            emit(n, "return None: " + ast.unparse(n)[:80], *setter(n, "value", ast.Constant(None)))
    # unwrap calls (a copy that is no longer made)
    class Un(ast.NodeTransformer):
        def __init__(self, k):
            self.k, self.i, self.line, self.what = k, -1, 0, None

        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, (ast.Name, ast.Attribute)) and len(n.args) == 1 and not n.keywords and \
                    (getattr(n.func, "id", None) or getattr(n.func, "attr", "")) in (
                    "set", "list", "dict", "sorted", "copy", "deepcopy", "tuple", "str", "defaultdict"):
                self.i += 1
                if self.i == self.k:
                    self.line, self.what = n.lineno, ast.unparse(n)
                    return n.args[0]
            return n
    k = 0
    while True:
        u = Un(k)
        t = u.visit(copy.deepcopy(tree))
        if u.what is None:
            break
        out.append((u.line, "unwrap " + u.what[:80], ast.unparse(ast.fix_missing_locations(t))))
        k += 1
    base = ast.unparse(tree)
    return [m for m in out if m[2] != base]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--files")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--secs", type=float, default=20)
    ap.add_argument("--sample", type=int, default=0)
    ap.add_argument("--seed", default="0")
    ap.add_argument("--alive", help="results of an earlier campaign: run its survivors again")
    a = ap.parse_args()
    done = set()
    if os.path.exists(a.out):
        done = {json.loads(x)["id"] for x in open(a.out)}
    again = {d["id"] for d in map(json.loads, open(a.alive)) if d["result"] == "alive"} if a.alive else None
    files = a.files.split(",") if a.files else sorted(MAP)
    todo = []
    for f in files:
        src = open(f"/repo/src/pybgl/{f}.py", encoding="utf-8").read()
        seen = set()
        for line, what, text in mutants(src):
            h = hashlib.sha1((f + text).encode()).hexdigest()[:12]
            if h in seen or h in done or (again is not None and h not in again):
                continue
            seen.add(h)
            todo.append((h, f, line, what, text))
    random.Random(a.seed).shuffle(todo)
    if a.sample:
        todo = todo[:a.sample]
    print(len(todo), "mutants", flush=True)
    q = queue.Queue()
    for t in todo:
        q.put(t)
    lock = threading.Lock()
    root = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    cnt = {"tests": 0, "killed": 0, "alive": 0, "build": 0, "error": 0}

    def work(w):
        d = os.path.join(root, str(w))
        shutil.copytree("/repo", d, ignore=shutil.ignore_patterns(".git", "__pycache__"))
        env = dict(os.environ, HOME="/root", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=d + "/src",
                   PYTHONPYCACHEPREFIX=os.path.join(root, f"pyc{w}"))
        pt = ["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-c", d + "/pyproject.toml", "--rootdir=" + d, "-p",
              "no:cacheprovider", "--timeout=20", "-o", "addopts=--doctest-modules"]
        cwd = os.path.join(root, f"cwd{w}")
        os.makedirs(cwd)
        while True:
            try:
                h, f, line, what, text = q.get_nowait()
            except queue.Empty:
                return
            path = f"{d}/src/pybgl/{f}.py"
            orig = open(path, encoding="utf-8").read()
            res = {"id": h, "file": f, "line": line, "what": what}
            try:
                with open(path, "w", encoding="utf-8") as fh:
                    fh.write(text)
                try:
                    r = subprocess.run(pt + ["tests"], cwd=d, env=env, capture_output=True, timeout=90).returncode
                    if r == 0:
                        r = subprocess.run(pt + ["-k", UNSTABLE, d + "/src"], cwd=cwd, env=env, capture_output=True, timeout=90).returncode
                except subprocess.TimeoutExpired:
                    r = 1
                if r:
                    res["result"] = "tests"
                else:
                    res["result"] = "alive"
                    e2 = dict(os.environ, SIM_REPO=d, SIM_WORKERS="1", SIM_DEADLINE=str(a.secs), VERIF_TIER="quick",
                              SIM_SCRATCH_OUT=os.path.join(root, f"o{w}"))
                    for p in MAP.get(f, "C21 C22").split():
                        try:
                            x = subprocess.run([sys.executable, "check.py", p], cwd=HERE, env=e2, capture_output=True,
                                               text=True, timeout=400)
                        except subprocess.TimeoutExpired:
                            res.setdefault("errors", []).append(p + " timeout")
                            continue
                        if x.returncode == 1 and f"VIOLATION property={p}" in x.stdout:
                            res["result"] = "killed"
                            res["by"] = p
                            res["msg"] = x.stdout.strip().splitlines()[-2][:200]
                            break
                        if x.returncode != 0:
                            res.setdefault("errors", []).append(p + ": " + x.stdout[-300:])
            finally:
                with open(path, "w", encoding="utf-8") as fh:
                    fh.write(orig)
            with lock:
                cnt[res["result"]] += 1
                with open(a.out, "a") as fo:
                    fo.write(json.dumps(res) + "\n")
                if sum(cnt.values()) % 50 == 0:
                    print(cnt, flush=True)
    ts = [threading.Thread(target=work, args=(w,)) for w in range(a.jobs)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    shutil.rmtree(root)
    print(cnt)


main()
