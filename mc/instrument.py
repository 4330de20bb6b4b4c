"""Import hook: inserts a scheduling point before every statement of the code under test.

Attribute and subscript stores are split into evaluate / point / store, so that a
read-modify-write in one statement can be interrupted like it can in a real thread.
The source of the repository is read from its working tree on every run.
"""
import ast
import importlib.abc
import importlib.machinery
import os
import sys

from . import core

SITES = ["?"]  # site number -> "module:line"


def mc_point(mod, site):
    s = core.S
    if s is not None:
        s.step(mod, site)


SEEN = set()
COVERAGE = os.environ.get("MC_COVERAGE")  # a file that gets every statement that was executed


def mc_point_seen(mod, site):
    if site not in SEEN:
        SEEN.add(site)
        with open(COVERAGE, "a") as f:
            f.write(SITES[site] + "\n")
    mc_point(mod, site)


def _is_log(node):
    return (isinstance(node, ast.Expr) and isinstance(node.value, ast.Call)
            and isinstance(node.value.func, ast.Attribute)
            and isinstance(node.value.func.value, ast.Name)
            and node.value.func.value.id in ("log", "logger", "logging"))


def _may_share(s, global_names=()):
    """Can this statement (its header, for a compound one) touch shared state at all?

    A statement without attribute, subscript, call or comparison chain through one
    only moves local values: interrupting before it is the same as before the next.
    """
    if _is_log(s):
        return False
    if isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom, ast.FunctionDef, ast.Try,
                      ast.Break, ast.Continue)):
        return False
    if isinstance(s, (ast.If, ast.While)):
        heads = [s.test]
    elif isinstance(s, ast.For):
        heads = [s.iter]
    elif isinstance(s, ast.With):
        heads = [i.context_expr for i in s.items]
    else:
        heads = [s]
    for h in heads:
        for n in ast.walk(h):
            if isinstance(n, (ast.Attribute, ast.Subscript, ast.Call, ast.Yield)):
                return True
            if isinstance(n, ast.Name) and n.id in global_names:
                return True
    return False


class _Transform(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.depth = 0
        self.n = 0
        self.globals = set()

    def visit_Module(self, node):
        for n in ast.walk(node):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                self.globals.update(n.names)
        node.body = [self.visit(n) if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.If, ast.Try))
                     else n for n in node.body]
        return node

    def _site(self, node):
        SITES.append("%s:%d" % (self.mod, getattr(node, "lineno", 0)))
        return len(SITES) - 1

    def _call(self, node, shared=True):
        c = ast.Expr(ast.Call(
            func=ast.Name(id="_mc_point_", ctx=ast.Load()),
            args=[ast.Constant(value=self.mod if shared else ""), ast.Constant(value=self._site(node))],
            keywords=[]))
        for sub in ast.walk(c):
            ast.copy_location(sub, node)
        return c

    def _tmp(self):
        self.n += 1
        return "_mc_t%d_" % self.n

    def visit_FunctionDef(self, node):
        self.depth += 1
        doc = []
        body = node.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) \
                and isinstance(body[0].value.value, str):
            doc, body = body[:1], body[1:]
        node.body = doc + self._block(body)
        if not node.body:
            node.body = [ast.copy_location(ast.Pass(), node)]
        self.depth -= 1
        return node

    def visit_ClassDef(self, node):
        d, self.depth = self.depth, 0
        node.body = [self.visit(n) for n in node.body]
        self.depth = d
        return node

    def _block(self, stmts):
        out = []
        for s in stmts:
            if isinstance(s, (ast.Global, ast.Nonlocal)):
                out.append(s)
                continue
            out.append(self._call(s, _may_share(s, self.globals)))
            new = self._stmt(s)
            out.extend(new if isinstance(new, list) else [new])
        return out

    def _stmt(self, s):
        loc = lambda n: ast.copy_location(n, s)
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(
                s.targets[0], (ast.Attribute, ast.Subscript)):
            t = self._tmp()
            return [
                loc(ast.Assign(targets=[loc(ast.Name(id=t, ctx=ast.Store()))], value=s.value)),
                self._call(s),
                loc(ast.Assign(targets=s.targets, value=loc(ast.Name(id=t, ctx=ast.Load())))),
            ]
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Attribute):
            o, v = self._tmp(), self._tmp()
            name = lambda i, c: loc(ast.Name(id=i, ctx=c))
            return [
                loc(ast.Assign(targets=[name(o, ast.Store())], value=s.target.value)),
                loc(ast.Assign(targets=[name(v, ast.Store())], value=loc(ast.Attribute(
                    value=name(o, ast.Load()), attr=s.target.attr, ctx=ast.Load())))),
                loc(ast.AugAssign(target=name(v, ast.Store()), op=s.op, value=s.value)),
                self._call(s),
                loc(ast.Assign(targets=[loc(ast.Attribute(
                    value=name(o, ast.Load()), attr=s.target.attr, ctx=ast.Store()))],
                    value=name(v, ast.Load()))),
            ]
        for field in ("body", "orelse", "finalbody"):
            b = getattr(s, field, None)
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                break
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(s, field, self._block(b))
        if isinstance(s, ast.Try):
            for h in s.handlers:
                h.body = self._block(h.body)
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return self.visit(s)
        return s

    def visit_If(self, node):  # module level if / try: functions inside
        self.generic_visit(node)
        return node

    visit_Try = visit_If


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        data = self.get_data(path)
        tree = ast.parse(data, path)
        tree = _Transform(fullname).visit(tree)
        ast.fix_missing_locations(tree)
        return compile(tree, path, "exec", dont_inherit=True)

    def exec_module(self, module):
        module.__dict__["_mc_point_"] = mc_point_seen if COVERAGE else mc_point
        super(Loader, self).exec_module(module)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, roots):
        self.roots = roots  # package name -> list of path entries

    def find_spec(self, fullname, path, target=None):
        top = fullname.split(".")[0]
        if top not in self.roots:
            return None
        if path is None:
            path = self.roots[top]
        spec = importlib.machinery.PathFinder.find_spec(fullname, path, target)
        if spec is None or not isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            return spec
        spec.loader = Loader(spec.loader.name, spec.loader.path)
        return spec


def install(roots):
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, Finder(roots))
