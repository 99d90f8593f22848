"""Control over the one source of nondeterminism of the code under test: the order in which sets are iterated.

Installed before the code under test is imported, an import hook compiles its modules with `set` (the name, set
displays and set comprehensions) meaning OrderedChoice: a set whose iterations ask the running exploration for the
order. An exploration runs an operation once with the canonical order, counts the iterations over two or more
elements, and then runs it again once for each other order of each of them."""
import ast
import importlib.abc
import importlib.machinery
import itertools
import sys


class Run(object):
    """choices of one execution: {index of iteration: index of order}, or every iteration reversed"""

    def __init__(self, choices=None, every=None):
        self.choices = choices or {}
        self.every = every
        self.points = []        # (place, number of elements)

    def order(self, place, items):
        k = len(self.points)
        self.points.append((place, len(items)))
        if self.every:
            return self.every(items)
        c = self.choices.get(k, 0)
        return items if not c else orders(items)[c]


def orders(items):
    """the orders in which a set may be iterated: all of up to three elements, some of more"""
    if len(items) <= 3:
        return list(map(list, itertools.permutations(items)))
    return [items, items[::-1], items[1:] + items[:1], items[-1:] + items[:-1], [items[1], items[0]] + items[2:], items[:-2] + [items[-1], items[-2]]]


def alternatives(n):
    return len(orders(list(range(n))))


RUN = None


def place():
    f = sys._getframe(2)
    return '%s:%d' % (f.f_code.co_filename.split('pyverilog/')[-1], f.f_lineno)


def plain(x):
    """values whose hash is the same in every process"""
    return isinstance(x, int) or isinstance(x, tuple) and all(map(plain, x))


class OrderedChoice(set):
    """a set whose order of iteration is chosen by the exploration"""

    def _arranged(self, where):
        items = list(set.__iter__(self))
        if len(items) < 2 or all(map(plain, items)):
            return items
        items.sort(key=lambda x: (type(x).__name__, repr(x)))
        return items if RUN is None else RUN.order(where, items)

    def __iter__(self):
        return iter(self._arranged(place()))

    def pop(self):
        items = self._arranged(place())
        if not items:
            raise KeyError('pop from an empty set')
        self.remove(items[0])
        return items[0]

    def __repr__(self):
        return 'set([%s])' % ', '.join(map(repr, self._arranged(place()))) if self else 'set()'

    __str__ = __repr__

    def copy(self):
        return OrderedChoice(self)

    __hash__ = None


def _kept(name):
    base = getattr(set, name)

    def f(self, *args):
        r = base(self, *args)
        return r if r is NotImplemented else OrderedChoice(r)
    return f


for _n in ('__or__', '__and__', '__sub__', '__xor__', '__ror__', '__rand__', '__rsub__', '__rxor__', 'union', 'intersection', 'difference', 'symmetric_difference'):
    setattr(OrderedChoice, _n, _kept(_n))


class Sets(ast.NodeTransformer):
    def visit_Set(self, n):
        self.generic_visit(n)
        return ast.copy_location(ast.Call(ast.Name('set', ast.Load()), [ast.List(n.elts, ast.Load())], []), n)

    def visit_SetComp(self, n):
        self.generic_visit(n)
        return ast.copy_location(ast.Call(ast.Name('set', ast.Load()), [ast.GeneratorExp(n.elt, n.generators)], []), n)


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, name):
        path = self.get_filename(name)
        tree = Sets().visit(ast.parse(self.get_data(path), path))
        return compile(ast.fix_missing_locations(tree), path, 'exec', dont_inherit=True)

    def exec_module(self, module):
        module.__dict__['set'] = OrderedChoice
        super().exec_module(module)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != 'pyverilog' and not name.startswith('pyverilog.'):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path, target)
        if spec is not None and isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            spec.loader = Loader(spec.loader.name, spec.loader.path)
        return spec


def install():
    if any(m == 'pyverilog' or m.startswith('pyverilog.') for m in sys.modules):
        raise RuntimeError('the code under test is already imported')
    sys.meta_path.insert(0, Finder())


def run(fn, choices=None, every=None):
    """(result of fn(), iterations met)"""
    global RUN
    RUN = Run(choices, every)
    try:
        return fn(), RUN.points
    finally:
        RUN = None
