"""
Instrumentation: /repo's current source is parsed, rewritten so that operations on symbolic values go through
symex.runtime, and compiled.  Nothing is cached: each run starts from the source on disk.
"""
import ast
import contextlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

from symex import iomodels, runtime

UNTOUCHED_CALLS = {"super", "locals", "globals", "vars", "eval", "exec", "_sx_call"}


def name(n, ctx=None):
    return ast.Name(id=n, ctx=ctx or ast.Load())


class Rewriter(ast.NodeTransformer):
    def __init__(self, module):
        self.module = module
        self.stack = []

    # functions -------------------------------------------------------------------------------
    def _function(self, node):
        self.stack.append(node.name)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [self.visit(d) if d is not None else None for d in node.args.kw_defaults]
        body = []
        for stmt in node.body:
            res = self.visit(stmt)
            body.extend(res if isinstance(res, list) else [res])
        qual = f"{self.module}:{'.'.join(self.stack)}"
        enter = ast.Expr(ast.Call(func=name("_sx_enter"), args=[ast.Constant(qual)], keywords=[]))
        has_doc = (isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant)
                   and isinstance(body[0].value.value, str))
        body.insert(1 if has_doc else 0, ast.copy_location(enter, node.body[0]))
        node.body = body
        if node.name == "__hash__":
            node.decorator_list.append(name("_sx_hash_wrap"))
        self.stack.pop()
        return node

    def visit_FunctionDef(self, node):
        return self._function(node)

    def visit_AsyncFunctionDef(self, node):
        return self._function(node)

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node

    def visit_AnnAssign(self, node):
        node.target = self.visit(node.target)
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_Lambda(self, node):
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.body = self.visit(node.body)
        return node

    # expressions -----------------------------------------------------------------------------
    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in UNTOUCHED_CALLS:
            self.generic_visit(node)
            return node
        self.generic_visit(node)
        return ast.copy_location(ast.Call(func=name("_sx_call"), args=[node.func] + node.args,
                                          keywords=node.keywords), node)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if not isinstance(node.ctx, ast.Load):
            return node
        index = node.slice
        if isinstance(index, ast.Tuple) and any(isinstance(e, (ast.Slice, ast.Starred)) for e in index.elts):
            return node
        if isinstance(index, ast.Slice):
            none = ast.Constant(None)
            index = ast.Call(func=name("slice"), args=[index.lower or none, index.upper or none, index.step or none],
                             keywords=[])
        return ast.copy_location(ast.Call(func=name("_sx_getitem"), args=[node.value, index], keywords=[]), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) != 1:
            return node
        op, left, right = node.ops[0], node.left, node.comparators[0]
        if isinstance(op, ast.In):
            call = ast.Call(func=name("_sx_contains"), args=[right, left], keywords=[])
        elif isinstance(op, ast.NotIn):
            call = ast.Call(func=name("_sx_not_contains"), args=[right, left], keywords=[])
        elif isinstance(op, ast.Is):
            call = ast.Call(func=name("_sx_is"), args=[left, right], keywords=[])
        elif isinstance(op, ast.IsNot):
            call = ast.Call(func=name("_sx_is_not"), args=[left, right], keywords=[])
        else:
            return node
        return ast.copy_location(call, node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Div):
            return ast.copy_location(ast.Call(func=name("_sx_div"), args=[node.left, node.right], keywords=[]), node)
        return node

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return ast.copy_location(ast.Call(func=name("_sx_not"), args=[node.operand], keywords=[]), node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for value in node.values:
            if isinstance(value, ast.Constant):
                parts.append(value)
            else:
                spec = self.visit(value.format_spec) if value.format_spec is not None else ast.Constant("")
                parts.append(ast.Call(func=name("_sx_fmt"),
                                      args=[self.visit(value.value), ast.Constant(value.conversion), spec],
                                      keywords=[]))
        return ast.copy_location(ast.Call(func=name("_sx_fstr"), args=parts, keywords=[]), node)

    def visit_Dict(self, node):
        self.generic_visit(node)
        pairs = []
        for key, value in zip(node.keys, node.values):
            elts = [value] if key is None else [key, value]
            pairs.append(ast.Tuple(elts=elts, ctx=ast.Load()))
        if len(pairs) > 200:
            return node
        return ast.copy_location(ast.Call(func=name("_sx_dict"), args=pairs, keywords=[]), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        gen = ast.GeneratorExp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()),
                               generators=node.generators)
        return ast.copy_location(ast.Call(func=name("_sx_dictcomp"), args=[gen], keywords=[]), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(func=name("_sx_set"),
                                          args=[ast.List(elts=node.elts, ctx=ast.Load())], keywords=[]), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        gen = ast.GeneratorExp(elt=node.elt, generators=node.generators)
        return ast.copy_location(ast.Call(func=name("_sx_set"), args=[gen], keywords=[]), node)

    def visit_Match(self, node):
        # patterns stay as they are, guards and bodies are rewritten
        node.subject = self.visit(node.subject)
        for case in node.cases:
            if case.guard is not None:
                case.guard = self.visit(case.guard)
            body = []
            for stmt in case.body:
                res = self.visit(stmt)
                body.extend(res if isinstance(res, list) else [res])
            case.body = body
        return node


def instrument(source, filename, module):
    tree = ast.parse(source, filename)
    tree = Rewriter(module).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


class Loader(importlib.machinery.SourceFileLoader):
    """ Compiles the instrumented source, never from bytecode caches. """

    def get_code(self, fullname):
        with open(self.path, encoding="utf-8") as stream:
            source = stream.read()
        return instrument(source, self.path, fullname)

    def exec_module(self, module):
        module.__dict__.update(runtime.namespace())
        with iomodels.MODULES.get(module.__name__, contextlib.nullcontext)():
            exec(self.get_code(module.__name__), module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    """ Instruments the given top-level packages. """

    def __init__(self, roots):
        self.roots = roots  # {package: directory that holds it}

    def find_spec(self, fullname, path=None, target=None):
        top = fullname.split(".")[0]
        if top not in self.roots:
            return None
        base = os.path.join(self.roots[top], *fullname.split("."))
        if os.path.isdir(base) and os.path.isfile(os.path.join(base, "__init__.py")):
            filename = os.path.join(base, "__init__.py")
            return importlib.util.spec_from_file_location(fullname, filename, loader=Loader(fullname, filename),
                                                          submodule_search_locations=[base])
        if os.path.isfile(base + ".py"):
            return importlib.util.spec_from_file_location(fullname, base + ".py", loader=Loader(fullname, base + ".py"))
        if os.path.isdir(base):  # namespace directory (dessia_common.datatools, say) without __init__
            spec = importlib.machinery.ModuleSpec(fullname, None, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        return None


def install(roots):
    for mod in list(sys.modules):
        if mod.split(".")[0] in roots:
            del sys.modules[mod]
    sys.meta_path.insert(0, Finder(roots))
