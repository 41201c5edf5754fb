"""Import hook: loads nappy (and the harness modules) from their current source,
with the AST instrumented so that proxies flow through it."""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

from . import hooks, core

REPO = os.environ.get("VERIF_REPO", "/repo")

SKIP_CALLS = {"super", "locals", "globals", "vars", "exec", "eval", "dir",
              "__import__"}


def N(name):
    return ast.Name(id=name, ctx=ast.Load())


class Instr(ast.NodeTransformer):
    def __init__(self, modname, track):
        self.mod = modname
        self.track = track
        self.stack = []

    # functions --------------------------------------------------------------
    def _func(self, node):
        self.stack.append(node.name)
        qn = "%s:%s" % (self.mod, ".".join(self.stack))
        decos = node.decorator_list
        node.decorator_list = []
        self.generic_visit(node)
        node.decorator_list = decos
        self.stack.pop()
        if self.track:
            stmt = ast.Expr(ast.Call(N("__sx_enter__"), [ast.Constant(qn)], []))
            i = 1 if (node.body and isinstance(node.body[0], ast.Expr) and
                      isinstance(node.body[0].value, ast.Constant)) else 0
            node.body.insert(i, stmt)
        return node

    visit_FunctionDef = _func

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node

    # expressions --------------------------------------------------------------
    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in SKIP_CALLS:
            if node.func.id in ("exec", "eval", "__import__"):
                self.generic_visit(node)
            return node
        self.generic_visit(node)
        return ast.Call(N("__sx_call__"), [node.func] + node.args, node.keywords)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.Call(N("__sx_mod__"), [node.left, node.right], [])
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            return ast.Assign([node.target], ast.Call(
                N("__sx_mod__"), [N(node.target.id), node.value], []))
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        special = {ast.In: "__sx_in__", ast.NotIn: "__sx_notin__",
                   ast.Is: "__sx_is__", ast.IsNot: "__sx_isnot__"}
        if len(node.ops) == 1 and type(node.ops[0]) in special:
            return ast.Call(N(special[type(node.ops[0])]),
                            [node.left, node.comparators[0]], [])
        c = node.comparators[0]
        if len(node.ops) == 1 and not (isinstance(c, ast.Constant) and isinstance(c.value, (str, bytes))):
            return ast.Call(N("__sx_cmp__"), [ast.Constant(type(node.ops[0]).__name__),
                                              node.left, node.comparators[0]], [])
        return node

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        args = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                args.append(v)
            else:
                spec = v.format_spec if v.format_spec is not None \
                    else ast.Constant("")
                args.append(ast.Tuple([v.value, ast.Constant(v.conversion),
                                       spec], ast.Load()))
        return ast.Call(N("__sx_fstr__"), args, [])

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.slice, ast.Slice):
            return node
        if isinstance(node.ctx, ast.Load):
            return ast.Call(N("__sx_getitem__"), [node.value, node.slice], [])
        if self.pure(node.value):
            node.slice = ast.Call(N("__sx_key__"),
                                  [self.copy_load(node.value), node.slice], [])
        return node

    @staticmethod
    def pure(e):
        while isinstance(e, ast.Attribute):
            e = e.value
        return isinstance(e, ast.Name)

    @staticmethod
    def copy_load(e):
        return ast.parse(ast.unparse(e), mode="eval").body

    # statements -----------------------------------------------------------------
    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        return node

    def visit_Try(self, node):
        self.generic_visit(node)
        out = []
        for h in node.handlers:
            if h.type is None or (isinstance(h.type, ast.Name) and
                                  h.type.id == "BaseException"):
                out.append(ast.ExceptHandler(
                    type=N("__sx_EngineExit__"), name=None,
                    body=[ast.Raise()]))
            out.append(h)
        node.handlers = out
        return node

    def visit_While(self, node):
        self.generic_visit(node)
        node.body.insert(0, ast.Expr(ast.Call(N("__sx_tick__"), [], [])))
        return node

    def visit_For(self, node):
        self.generic_visit(node)
        node.body.insert(0, ast.Expr(ast.Call(N("__sx_tick__"), [], [])))
        return node


GLOBALS = {
    "__sx_call__": hooks.call, "__sx_mod__": hooks.mod,
    "__sx_in__": hooks.contains, "__sx_notin__": hooks.notcontains,
    "__sx_is__": hooks.is_, "__sx_isnot__": hooks.isnot,
    "__sx_cmp__": hooks.cmp, "__sx_fstr__": hooks.fstr, "__sx_getitem__": hooks.getitem,
    "__sx_key__": hooks.key, "__sx_tick__": hooks.tick,
    "__sx_enter__": hooks.enter, "__sx_EngineExit__": core.EngineExit,
}


def instrument(src, filename, modname, track=True):
    t = ast.parse(src, filename)
    t = Instr(modname, track).visit(t)
    ast.fix_missing_locations(t)
    return compile(t, filename, "exec", dont_inherit=True)


class Loader(importlib.abc.Loader):
    def __init__(self, path, track):
        self.path = path
        self.track = track

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding="utf-8") as f:
            src = f.read()
        module.__dict__.update(GLOBALS)
        module.__dict__["__file__"] = self.path
        code = instrument(src, self.path, module.__name__, self.track)
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    """nappy.* from REPO, harness modules (props.*) from /verif."""

    def __init__(self, roots):
        self.roots = roots      # package -> (directory, track functions?)

    def find_spec(self, fullname, path=None, target=None):
        top = fullname.split(".")[0]
        if top not in self.roots:
            return None
        base, track = self.roots[top]
        rel = fullname.split(".")[1:]
        p = os.path.join(base, *rel)
        if os.path.isdir(p) and os.path.isfile(os.path.join(p, "__init__.py")):
            f = os.path.join(p, "__init__.py")
            return importlib.util.spec_from_file_location(
                fullname, f, loader=Loader(f, track),
                submodule_search_locations=[p])
        if os.path.isfile(p + ".py"):
            return importlib.util.spec_from_file_location(
                fullname, p + ".py", loader=Loader(p + ".py", track))
        return None


def install(verif_root):
    for k in list(sys.modules):
        if k == "nappy" or k.startswith("nappy."):
            raise RuntimeError("uninstrumented nappy already imported")
    sys.meta_path.insert(0, Finder({
        "nappy": (os.path.join(REPO, "nappy"), True),
        "props": (os.path.join(verif_root, "props"), False),
    }))
