"""Give every simulated process its own set iteration order.

Real MPI jobs start one interpreter per rank, each with its own string hash
seed unless PYTHONHASHSEED is pinned, so `for x in set(...)` may visit elements
in a different order on each rank.  This import hook rewrites set displays,
set comprehensions and calls of `set`/`frozenset` in the modules under test so
that they build SimSet, whose iteration order is a function of the elements'
stable keys and of the salt of the running task.
"""
import ast
import hashlib
import importlib.abc
import importlib.util
import os
import sys
import threading

_salt = {}           # thread ident -> salt
_default_salt = [0]
_cache = {}
perms = [0]          # how often an iteration order was decided


def set_salt(s):
    """Salt of the calling thread (one thread is one simulated process)."""
    _salt[threading.get_ident()] = s


def reset():
    _salt.clear()
    _cache.clear()
    _default_salt[0] = 0


def _stable(x):
    if isinstance(x, str):
        return 's' + x
    if isinstance(x, (int, float, bool)) or x is None:
        return 'n%r' % (x,)
    if isinstance(x, (tuple, frozenset)):
        return 't' + '|'.join(_stable(y) for y in x)
    p = getattr(x, 'pathname', None)
    if isinstance(p, str):
        return 'p%s:%s' % (type(x).__name__, p)
    n = getattr(x, '__qualname__', None)
    if n:
        return 'q%s' % n
    return 'o%s' % type(x).__name__


def _key(salt, x):
    st = _stable(x)
    k = (salt, st)
    v = _cache.get(k)
    if v is None:
        v = _cache[k] = hashlib.md5(('%s/%s' % (salt, st)).encode('utf8', 'replace')).digest()
    return v


_set = set
_frozenset = frozenset


def _order(s, raw):
    salt = _salt.get(threading.get_ident(), _default_salt[0])
    perms[0] += 1
    # small ints hash to themselves in CPython: their order is not salted
    if all(type(x) is int for x in raw):
        return sorted(raw)
    return sorted(raw, key=lambda x: _key(salt, x))


class SimSet(_set):
    __slots__ = ()

    def __iter__(self):
        raw = list(_set.__iter__(self))
        if len(raw) < 2:
            return iter(raw)
        return iter(_order(self, raw))

    def pop(self):
        for x in self:
            self.remove(x)
            return x
        raise KeyError('pop from an empty set')

    def copy(self):
        return SimSet(self)

    __copy__ = copy

    def __reduce__(self):
        return (SimSet, (list(self),))

    def __repr__(self):
        return 'set(%r)' % (list(self),)


class SimFrozenSet(_frozenset):
    __slots__ = ()

    def __iter__(self):
        raw = list(_frozenset.__iter__(self))
        if len(raw) < 2:
            return iter(raw)
        return iter(_order(self, raw))

    def __reduce__(self):
        return (SimFrozenSet, (list(self),))


def _wrap(cls, name):
    f = getattr(cls.__mro__[1], name)

    def g(self, *a):
        r = f(self, *a)
        if type(r) is _set:
            return SimSet(r)
        if type(r) is _frozenset:
            return SimFrozenSet(r)
        return r
    g.__name__ = name
    setattr(cls, name, g)


for _n in ('__or__ __and__ __sub__ __xor__ __ror__ __rand__ __rsub__ __rxor__ union intersection '
           'difference symmetric_difference').split():
    _wrap(SimSet, _n)
    _wrap(SimFrozenSet, _n)


class _X(ast.NodeTransformer):
    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load) and n.id in ('set', 'frozenset'):
            n.id = '__simset__' if n.id == 'set' else '__simfrozenset__'
        return n

    def visit_Set(self, n):
        self.generic_visit(n)
        return ast.copy_location(ast.Call(
            ast.copy_location(ast.Name('__simset__', ast.Load()), n),
            [ast.copy_location(ast.Tuple(n.elts, ast.Load()), n)], []), n)

    def visit_SetComp(self, n):
        self.generic_visit(n)
        g = ast.copy_location(ast.GeneratorExp(n.elt, n.generators), n)
        return ast.copy_location(ast.Call(
            ast.copy_location(ast.Name('__simset__', ast.Load()), n), [g], []), n)


class _Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, mod):
        with open(self.path, 'rb') as f:
            src = f.read()
        tree = ast.parse(src, self.path)
        tree = ast.fix_missing_locations(_X().visit(tree))
        code = compile(tree, self.path, 'exec', dont_inherit=True)
        mod.__dict__['__simset__'] = SimSet
        mod.__dict__['__simfrozenset__'] = SimFrozenSet
        exec(code, mod.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, roots):
        self.roots = roots

    def find_spec(self, name, path, target=None):
        top = name.split('.')[0]
        if top not in self.roots:
            return None
        parts = name.split('.')
        for base in (path or sys.path):
            p = os.path.join(base or '.', parts[-1])
            if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
                f = os.path.join(p, '__init__.py')
                return importlib.util.spec_from_file_location(
                    name, f, loader=_Loader(f), submodule_search_locations=[p])
            if os.path.exists(p + '.py'):
                return importlib.util.spec_from_file_location(
                    name, p + '.py', loader=_Loader(p + '.py'))
        return None


def install(roots=('openmdao', 'networkx')):
    # networkx < 2 uses exec'd decorators; only its graph algorithms matter
    sys.meta_path.insert(0, _Finder(_set(roots)))
