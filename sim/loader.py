"""Loads pybgl from /repo/src *source* (never byte code), once per process, and gives
every simulated run a fresh copy of all its modules so that no module-level state leaks
from one run to the next (replay would break otherwise)."""
import ast
import importlib
import importlib.abc
import importlib.util
import os
import sys
import types

from . import simsets
from .kernel import MON, step

REPO = os.environ.get("SIM_REPO", "/repo")
SRC = os.path.join(REPO, "src", "pybgl")


class _SetRewriter(ast.NodeTransformer):
    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(
            func=ast.Name(id="__sim_set__", ctx=ast.Load()),
            args=[ast.Tuple(elts=node.elts, ctx=ast.Load())], keywords=[]), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(
            func=ast.Name(id="__sim_set__", ctx=ast.Load()),
            args=[ast.GeneratorExp(elt=node.elt, generators=node.generators)],
            keywords=[]), node)


class _StepInserter(ast.NodeTransformer):
    """Inserts the simulator's clock tick before every statement of every function, in every lambda body,
    comprehension item, while test and secondary boolean operand.  (sys.monitoring LINE events are not
    used: CPython 3.12 repeats some of them depending on how far the adaptive interpreter has specialised
    the code, so that the clock would depend on what the process executed before.)"""

    def __init__(self):
        self.depth = 0

    @staticmethod
    def _tick(at):
        return ast.copy_location(ast.Call(func=ast.copy_location(ast.Name(id="__sim_step__", ctx=ast.Load()), at),
                                          args=[], keywords=[]), at)

    def _or(self, e):
        return ast.copy_location(ast.BoolOp(op=ast.Or(), values=[self._tick(e), e]), e)

    def _block(self, stmts, doc=False):
        out = []
        for i, s in enumerate(stmts):
            if not (doc and i == 0 and isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                out.append(ast.copy_location(ast.Expr(self._tick(s)), s))
            out.append(s)
        return out

    def visit_FunctionDef(self, n):
        self.depth += 1
        self.generic_visit(n)
        self.depth -= 1
        n.body = self._block(n.body, doc=True)
        return n

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        saved, self.depth = self.depth, 0
        self.generic_visit(n)
        self.depth = saved
        return n

    def generic_visit(self, n):
        super().generic_visit(n)
        if self.depth and isinstance(n, (ast.stmt, ast.ExceptHandler, ast.match_case)) and not isinstance(
                n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            for f in ("body", "orelse", "finalbody"):
                if getattr(n, f, None):
                    setattr(n, f, self._block(getattr(n, f)))
            if isinstance(n, ast.While):
                n.test = self._or(n.test)
        return n

    def visit_Lambda(self, n):
        self.depth += 1
        self.generic_visit(n)
        self.depth -= 1
        n.body = self._or(n.body)
        return n

    def visit_BoolOp(self, n):
        self.generic_visit(n)
        if self.depth:
            n.values = n.values[:1] + [
                self._or(v) if any(isinstance(x, (ast.Call, ast.Subscript)) for x in ast.walk(v)) else v
                for v in n.values[1:]]
        return n

    def _comp(self, n):
        self.generic_visit(n)
        if self.depth:
            g = n.generators[0]
            if g.ifs:
                g.ifs[0] = self._or(g.ifs[0])
            elif isinstance(n, ast.DictComp):
                n.key = self._or(n.key)
            else:
                n.elt = self._or(n.elt)
        return n

    visit_ListComp = visit_SetComp = visit_GeneratorExp = visit_DictComp = _comp


def _walk_code(code, out):
    out.append(code)
    for k in code.co_consts:
        if isinstance(k, types.CodeType):
            _walk_code(k, out)


class PybglFinder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self):
        self.codes = {}
        self.all_codes = []
        for root, dirs, files in os.walk(SRC):
            dirs[:] = sorted(d for d in dirs if d != "__pycache__")
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                path = os.path.join(root, f)
                rel = os.path.relpath(path, os.path.dirname(SRC))[:-3].split(os.sep)
                is_pkg = rel[-1] == "__init__"
                name = ".".join(rel[:-1] if is_pkg else rel)
                with open(path, encoding="utf-8") as fh:
                    tree = ast.parse(fh.read(), path)
                tree = ast.fix_missing_locations(_SetRewriter().visit(_StepInserter().visit(tree)))
                code = compile(tree, path, "exec", dont_inherit=True)
                self.codes[name] = (code, path, is_pkg)
                _walk_code(code, self.all_codes)

    def find_spec(self, name, path=None, target=None):
        if name in self.codes:
            _, origin, is_pkg = self.codes[name]
            return importlib.util.spec_from_loader(name, self, origin=origin, is_package=is_pkg)
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        d = module.__dict__
        d["__sim_set__"] = simsets.SimSet
        d["__sim_step__"] = step
        d["set"] = simsets.SimSet
        d["frozenset"] = simsets.SimFrozenSet
        d["__file__"] = self.codes[module.__name__][1]
        # no preemption and no abort while the interpreter's import locks are held
        saved, MON.active = MON.active, False
        try:
            exec(self.codes[module.__name__][0], d)
        finally:
            MON.active = saved

    def drop(self):
        for k in [k for k in sys.modules if k == "pybgl" or k.startswith("pybgl.")]:
            del sys.modules[k]


FINDER = None


def install():
    global FINDER
    sys.dont_write_bytecode = True
    if FINDER is None:
        FINDER = PybglFinder()
        sys.meta_path.insert(0, FINDER)
    return FINDER


class Lib:
    """Lazy access to the run's own copy of the library: lib.graph.DirectedGraph, lib.X"""

    def __init__(self):
        FINDER.drop()
        self._pkg = importlib.import_module("pybgl")

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        full = "pybgl." + name
        if full in FINDER.codes:
            return importlib.import_module(full)
        raise AttributeError(name)

    def __call__(self, dotted):
        mod, attr = dotted.split(".")
        return getattr(importlib.import_module("pybgl." + mod), attr)
