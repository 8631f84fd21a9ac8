"""Loads clubs from /repo's working tree.

load():                 the code as it is.
load(instrument=True):  the same code with ``__sim_yield__()`` called in front of every
                 statement of every function, so that a simulator can preempt or
                 abort it there.  The rewriting happens on the syntax tree at
                 load time; nothing in /repo is changed.
"""
import ast
import builtins
import importlib.abc
import importlib.util
import os
import sys

REPO = os.environ.get("SIM_REPO", "/repo")
_loaded = None


def _noop():
    return None


builtins.__sim_yield__ = _noop


def set_yield(func):
    builtins.__sim_yield__ = func if func is not None else _noop


class _Instrument(ast.NodeTransformer):
    def __init__(self):
        self.points = 0

    def _body(self, stmts, is_func):
        out = []
        for i, st in enumerate(stmts):
            doc = (
                is_func and i == 0 and isinstance(st, ast.Expr)
                and isinstance(st.value, (ast.Constant, ast.Str))
            )
            if not doc:
                call = ast.Expr(
                    ast.Call(ast.Name("__sim_yield__", ast.Load()), [], [])
                )
                out.append(ast.copy_location(call, st))
                self.points += 1
            out.append(st)
        return out

    def _visit_block(self, node, is_func=False):
        self.generic_visit(node)
        for field in ("body", "orelse", "finalbody"):
            stmts = getattr(node, field, None)
            if isinstance(stmts, list) and stmts:
                setattr(node, field, self._body(stmts, is_func and field == "body"))
        return node

    in_func = 0

    def visit_FunctionDef(self, node):
        self.in_func += 1
        self._visit_block(node, True)
        self.in_func -= 1
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def _stmt(self, node):
        if self.in_func:
            return self._visit_block(node)
        return self.generic_visit(node)

    visit_If = visit_For = visit_While = visit_With = visit_Try = _stmt
    visit_ExceptHandler = _stmt


class _Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, instrument):
        self.points = {}
        self.codes = {}
        self.instrument = instrument

    def find_spec(self, name, path=None, target=None):
        if name != "clubs" and not name.startswith("clubs."):
            return None
        rel = name.split(".")
        base = os.path.join(REPO, *rel)
        if os.path.isdir(base):
            fn = os.path.join(base, "__init__.py")
            if os.path.exists(fn):
                return importlib.util.spec_from_file_location(
                    name, fn, loader=self, submodule_search_locations=[base]
                )
        fn = base + ".py"
        if os.path.exists(fn):
            return importlib.util.spec_from_file_location(name, fn, loader=self)
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        fn = module.__spec__.origin
        module.__file__ = fn
        code = self.codes.get(fn)
        if code is None:
            with open(fn, encoding="utf-8") as f:
                tree = ast.parse(f.read(), fn)
            if self.instrument:
                inst = _Instrument()
                tree = ast.fix_missing_locations(inst.visit(tree))
                self.points[module.__name__] = inst.points
            code = self.codes[fn] = compile(tree, fn, "exec")
        exec(code, module.__dict__)


def load(instrument=False, web=False):
    """import clubs (once per process)"""
    global _loaded
    if _loaded is not None:
        return _loaded
    sys.dont_write_bytecode = True
    for name in list(sys.modules):
        if name == "clubs" or name.startswith("clubs."):
            del sys.modules[name]
    if web:
        from . import web as web_
        web_.install()
    sys.meta_path.insert(0, _Finder(instrument))
    sys.path.insert(0, REPO)
    import clubs  # noqa

    origin = os.path.realpath(clubs.__file__)
    if not origin.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError("clubs loaded from %s, not from %s" % (origin, REPO))
    _loaded = clubs
    return clubs


def fresh():
    """a second, pristine instance of clubs, whose modules share nothing with the
    loaded one (the loaded one stays in sys.modules)"""
    mine = {}
    for name in list(sys.modules):
        if name == "clubs" or name.startswith("clubs."):
            mine[name] = sys.modules.pop(name)
    try:
        import clubs as other
        return other
    finally:
        for name in list(sys.modules):
            if name == "clubs" or name.startswith("clubs."):
                del sys.modules[name]
        sys.modules.update(mine)


def in_sut(exc):
    """True if the exception's traceback passes through clubs code."""
    root = os.path.join(os.path.realpath(REPO), "clubs") + os.sep
    tb = exc.__traceback__
    while tb is not None:
        fn = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if fn.startswith(root):
            return True
        tb = tb.tb_next
    return False
