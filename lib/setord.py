"""Controlled iteration order of sets and of directory listings in the code under test.

install() makes every module imported from the repository's scripts directory use a set type whose iteration order is
chosen by the controller (set() calls, set displays and comprehensions are redirected when the module is imported), and
wraps os.listdir / os.scandir.  Every iteration over two or more elements is a choice point; run(deviations) fixes the
choice at given points, all others are in sorted order."""
import ast
import importlib.abc
import importlib.machinery
import itertools
import os
import sys

CTL = {"dev": {}, "n": 0, "log": [], "on": False, "default": "sorted"}


def perms(n):
    """The alternative orders explored for n elements."""
    if n <= 3:
        return [p for p in itertools.permutations(range(n))][1:]
    idx = list(range(n))
    return [tuple(reversed(idx)), tuple(idx[1:] + idx[:1]), tuple(idx[-1:] + idx[:-1]), tuple([1, 0] + idx[2:])]


def order(items, what):
    items = sorted(items, key=lambda x: (type(x).__name__, str(x)))
    if not CTL["on"] or len(items) < 2:
        return items
    i = CTL["n"]
    CTL["n"] += 1
    CTL["log"].append((what, len(items)))
    k = CTL["dev"].get(i)
    if k is None:
        return items[::-1] if CTL["default"] == "reverse" else items
    ps = perms(len(items))
    return [items[j] for j in ps[k]] if k < len(ps) else items


class OSet(set):
    def __iter__(self):
        f = sys._getframe(1)
        return iter(order(set.__iter__(self), "%s:%d" % (os.path.basename(f.f_code.co_filename), f.f_lineno)))

    def pop(self):
        for x in self:
            set.remove(self, x)
            return x
        raise KeyError("pop from an empty set")

    def copy(self):
        return OSet(set.copy(self))
    __hash__ = None


def _wrap(name):
    f = getattr(set, name)

    def m(self, *a):
        r = f(self, *a)
        return OSet(r) if isinstance(r, set) and r is not self else r
    m.__name__ = name
    setattr(OSet, name, m)


for _n in ("union", "intersection", "difference", "symmetric_difference", "__or__", "__and__", "__sub__", "__xor__",
           "__ror__", "__rand__", "__rsub__", "__rxor__"):
    _wrap(_n)


class Tr(ast.NodeTransformer):
    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(ast.Name("__mc_oset__", ast.Load()), [ast.List(node.elts, ast.Load())], []), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(ast.Name("__mc_oset__", ast.Load()),
                                          [ast.ListComp(node.elt, node.generators)], []), node)

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in ("set", "frozenset"):
            node.func = ast.copy_location(ast.Name("__mc_oset__", ast.Load()), node.func)
        return node


class Loader(importlib.machinery.SourceFileLoader):
    def source_to_code(self, data, path, *, _optimize=-1):
        t = Tr().visit(ast.parse(data, path))
        ast.fix_missing_locations(t)
        return compile(t, path, "exec", dont_inherit=True, optimize=_optimize)

    def get_code(self, fullname):
        p = self.get_filename(fullname)
        return self.source_to_code(self.get_data(p), p)

    def exec_module(self, module):
        module.__dict__["__mc_oset__"] = OSet
        super().exec_module(module)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, top):
        self.top = os.path.realpath(top) + os.sep

    def find_spec(self, name, path, target=None):
        spec = importlib.machinery.PathFinder.find_spec(name, path, target)
        if spec and spec.origin and os.path.realpath(spec.origin).startswith(self.top) and \
                isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            spec.loader = Loader(spec.name, spec.origin)
        return spec


class ScanIter:
    def __init__(self, real):
        with real:
            self.items = {e.name: e for e in real}
        self.it = iter([self.items[n] for n in order(self.items, "scandir")])

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def install(top):
    sys.meta_path.insert(0, Finder(top))
    rl, rs = os.listdir, os.scandir
    os.listdir = lambda p=".": order(rl(p), "listdir")
    os.scandir = lambda p=".": ScanIter(rs(p)) if CTL["on"] else rs(p)


def start(dev=None, default="sorted"):
    CTL.update(dev=dict(dev or {}), n=0, log=[], on=True, default=default)


def stop():
    CTL["on"] = False
    return CTL["log"]
