"""Loads `torchmps` from its source files on every run (never from cached bytecode).
`float(...)` and `int(...)` are C functions which cannot return a symbolic number, so
calls of them are redirected; on ordinary values the replacements are float and int."""
import ast
import builtins
import importlib.machinery as M
import sys

NAMES = {"float": "__sx_float__", "int": "__sx_int__"}


class Redirect(ast.NodeTransformer):
    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in NAMES:
            node.func = ast.copy_location(ast.Name(NAMES[node.func.id], ast.Load()), node.func)
        return node


class Loader(M.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        tree = ast.parse(self.get_data(path), path)
        own = {n.id for n in ast.walk(tree) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        if not own & set(NAMES):
            tree = Redirect().visit(tree)
        return compile(tree, path, "exec", dont_inherit=True)


class Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name != "torchmps" and not name.startswith("torchmps."):
            return None
        spec = M.PathFinder.find_spec(name, path, target)
        if spec is not None and isinstance(spec.loader, M.SourceFileLoader):
            spec.loader = Loader(spec.loader.name, spec.loader.path)
        return spec


def install():
    from . import symt

    def sx_float(*a):
        x = a[0] if a else 0.0
        if isinstance(x, symt.SymTensor):
            x = x.item()
        if isinstance(x, symt.SymNum):
            return symt.SymNum(x.term, False)
        return float(*a)

    def sx_int(*a, **kw):
        x = a[0] if a else 0
        if isinstance(x, symt.SymTensor):
            x = x.item()
        if isinstance(x, symt.SymNum):
            return x.trunc()
        return int(*a, **kw)

    builtins.__sx_float__ = sx_float
    builtins.__sx_int__ = sx_int
    if not any(f is Finder for f in sys.meta_path):
        sys.meta_path.insert(0, Finder)
