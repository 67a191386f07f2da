"""Mechanical extraction: the functions are read from the source files of /repo on every run."""
import ast
import importlib
import inspect
import os
import sys

REPO = os.environ.get('PYVC_REPO', '/repo')
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)


class Repo:
    def __init__(self, package='pdfsyntax'):
        self.package = package
        self.mods = {}

    def module(self, name):
        if name not in self.mods:
            path = os.path.join(REPO, self.package, name + '.py')
            with open(path) as f:
                src = f.read()
            tree = ast.parse(src, path)
            py = importlib.import_module(f'{self.package}.{name}')
            funcs, classes = {}, {}
            for n in tree.body:
                if isinstance(n, ast.FunctionDef):
                    funcs[n.name] = n
                elif isinstance(n, ast.ClassDef):
                    classes[n.name] = n
            self.mods[name] = (tree, py, funcs, classes, src)
        return self.mods[name]

    def function(self, qual):
        """qual: 'module.func', 'module.Class.method' or 'module.func.inner'."""
        parts = qual.split('.')
        tree, py, funcs, classes, src = self.module(parts[0])
        if len(parts) == 2:
            if parts[1] not in funcs:
                return None
            return funcs[parts[1]]
        if parts[1] in classes:
            for n in classes[parts[1]].body:
                if isinstance(n, ast.FunctionDef) and n.name == parts[2]:
                    return n
            return None
        if parts[1] in funcs:
            for n in ast.walk(funcs[parts[1]]):
                if isinstance(n, ast.FunctionDef) and n.name == parts[2]:
                    return n
        return None

    def lookup(self, module, name):
        """-> ('func', module, node) | ('class', pyclass) | ('const', value) | None, by Python's own import rules."""
        tree, py, funcs, classes, src = self.module(module)
        if not hasattr(py, name):
            return None
        v = getattr(py, name)
        if inspect.isfunction(v) and v.__module__.startswith(self.package + '.'):
            m = v.__module__.split('.', 1)[1]
            node = self.function(f'{m}.{v.__name__}')
            if node is None:
                return ('opaque', v)
            return ('func', m, node)
        if inspect.isfunction(v):
            return ('opaque', v)
        if inspect.isclass(v):
            return ('class', v)
        if inspect.ismodule(v):
            return ('module', v.__name__)
        if callable(v) and not isinstance(v, type):
            return ('opaque', v)
        return ('const', v)
