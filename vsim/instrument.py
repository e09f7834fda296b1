"""
Preemption inside the library: chosen modules are loaded with a call before every statement of every function, at
which the simulator may let another thread go on. (Python's own tracing holds a lock over the interpreter here.)
"""
import __builtin__
import ast
import imp
import os
import sys

__builtin__.__vsim_point__ = lambda: None


class _Points(ast.NodeTransformer):
    def _body(self, body):
        out = []
        for s in body:
            call = ast.parse("__vsim_point__()").body[0]
            call.lineno = s.lineno
            out += [call, s]
        return out

    def visit_FunctionDef(self, node):
        self.generic_visit(node)
        node.body = self._stmts(node.body)
        return node

    def _stmts(self, body):
        for s in body:
            for f in ("body", "orelse", "finalbody"):
                b = getattr(s, f, None)
                if isinstance(b, list) and b and not isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
                    setattr(s, f, self._stmts(b))
            for h in getattr(s, "handlers", []):
                h.body = self._stmts(h.body)
        return self._body(body)


class Finder(object):
    def __init__(self, names):
        self.names = names

    def find_module(self, name, path=None):
        return self if name in self.names else None

    def load_module(self, name):
        if name in sys.modules:
            return sys.modules[name]
        for d in sys.path:
            f = os.path.join(d, *name.split(".")) + ".py"
            if os.path.exists(f):
                break
        else:
            raise ImportError(name)
        tree = _Points().visit(ast.parse(open(f).read(), f))
        m = imp.new_module(name)
        m.__file__, m.__package__ = f, name.rsplit(".", 1)[0]
        sys.modules[name] = m
        try:
            exec compile(tree, f, "exec") in m.__dict__
        except Exception:
            del sys.modules[name]
            raise
        return m


def install(names):
    sys.meta_path.insert(0, Finder(names))
