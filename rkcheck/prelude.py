"""Library helpers given to the analyser as source, so that they are interpreted like the program's own code."""
from __future__ import annotations
import ast

SRC = '''
import numpy as np

class partial:
    def __init__(self, func, *args, **keywords):
        self.func = func
        self.args = args
        self.keywords = keywords
    def __call__(self, *args, **keywords):
        return self.func(*self.args, *args, **{**self.keywords, **keywords})

class SimpleNamespace:
    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)

class itemgetter:
    def __init__(self, *keys):
        self.keys = keys
    def __call__(self, x):
        if len(self.keys) == 1:
            return x[self.keys[0]]
        return tuple([x[k] for k in self.keys])

class attrgetter:
    def __init__(self, *names):
        self.names = names
    def __call__(self, x):
        if len(self.names) == 1:
            return getattr(x, self.names[0])
        return tuple([getattr(x, k) for k in self.names])

class methodcaller:
    def __init__(self, name, *args, **kw):
        self.name, self.args, self.kw = name, args, kw
    def __call__(self, x):
        return getattr(x, self.name)(*self.args, **self.kw)

def reduce(f, xs, *init):
    xs = list(xs)
    if init:
        r = init[0]
    elif len(xs) == 0:
        raise TypeError
    else:
        r = xs[0]
        xs = xs[1:]
    for x in xs:
        r = f(r, x)
    return r

class deque:
    def __init__(self, items=(), maxlen=None):
        self._d = []
        self.maxlen = maxlen
        for x in items:
            self.append(x)
    def append(self, x):
        self._d.append(x)
        if self.maxlen is not None and len(self._d) > self.maxlen:
            self._d.pop(0)
    def appendleft(self, x):
        self._d.insert(0, x)
        if self.maxlen is not None and len(self._d) > self.maxlen:
            self._d.pop()
    def extend(self, xs):
        for x in xs:
            self.append(x)
    def pop(self):
        return self._d.pop()
    def popleft(self):
        return self._d.pop(0)
    def clear(self):
        self._d = []
    def __len__(self):
        return len(self._d)
    def __iter__(self):
        return iter(self._d)
    def __getitem__(self, i):
        return self._d[i]
    def __setitem__(self, i, v):
        self._d[i] = v
    def __bool__(self):
        return len(self._d) > 0

class count:
    def __init__(self, start=0, step=1):
        self.now = start
        self.step = step
    def __iter__(self):
        return self
    def __next__(self):
        r = self.now
        self.now = self.now + self.step
        return r

def lru_cache(maxsize=128, typed=False):
    if callable(maxsize):
        return memo(maxsize)
    return memo

def memo(f):
    table = {}
    def call(*args, **kw):
        key = (args, tuple(kw.items()))
        if key in table:
            return table[key]
        r = f(*args, **kw)
        table[key] = r
        return r
    return call

def add_reduce(a, axis=0, **kw):
    return np.sum(a, axis=axis)

def maximum_reduce(a, axis=0):
    return np.max(a, axis=axis)

def minimum_reduce(a, axis=0):
    return np.min(a, axis=axis)

def logical_or_reduce(a, axis=0):
    return np.any(a, axis=axis)

def logical_and_reduce(a, axis=0):
    return np.all(a, axis=axis)

def np_ndim(a):
    return np.asarray(a).ndim

def np_shape(a):
    return np.asarray(a).shape

def diff(a, n=1, axis=-1):
    if n == 1 and axis in (-1, a.ndim - 1):
        return a[..., 1:] - a[..., :-1]
    return np.rk_unknown(a, n, axis)

def polyval(p, x):
    r = np.zeros_like(x)
    for c in p:
        r = r * x + c
    return r

def polyval_up(x, c, tensor=True):
    r = 0 * x
    for a in list(c)[::-1]:
        r = r * x + a
    return r

def select(conds, choices, default=0):
    r = default
    for c, v in list(zip(conds, choices))[::-1]:
        r = np.where(c, v, r)
    return r

def var(a, axis=None):
    if axis is not None:
        return np.rk_unknown(a)
    return np.mean(np.abs(a - np.mean(a)) ** 2)

def std(a, axis=None):
    return np.sqrt(np.var(a, axis))

def fftshift(x, axes=None):
    return np.roll(x, len(x) // 2)

def ifftshift(x, axes=None):
    return np.roll(x, -(len(x) // 2))

def triu(a, k=0):
    a = np.asarray(a)
    i = np.arange(a.shape[0]).reshape(-1, 1)
    j = np.arange(a.shape[1]).reshape(1, -1)
    return np.where(j - i >= k, a, 0)

def tril(a, k=0):
    a = np.asarray(a)
    i = np.arange(a.shape[0]).reshape(-1, 1)
    j = np.arange(a.shape[1]).reshape(1, -1)
    return np.where(j - i <= k, a, 0)

def tri(n, m=None, k=0):
    m = n if m is None else m
    i = np.arange(n).reshape(-1, 1)
    j = np.arange(m).reshape(1, -1)
    return np.where(j - i <= k, 1.0, 0.0)

def delete(a, i, axis=None):
    if isinstance(i, int) and a.ndim == 1:
        if i == -1:
            return a[:-1].copy()
        if i == 0:
            return a[1:].copy()
        return np.concatenate((a[:i], a[i + 1:]))
    if isinstance(i, (list, tuple)) and a.ndim == 1 and tuple(i) in ((0, -1), (-1, 0)):
        return a[1:-1].copy()
    return np.rk_unknown(a, i)

def fromiter(it, dtype=None, count=-1):
    return np.array(list(it), dtype=dtype)

def tensordot(a, b, axes=2):
    if axes != 1 and axes != 2 and (axes == ([0], [0]) or axes == (0, 0) or axes == [0, 0] or axes == ((0,), (0,)) or axes == [[0], [0]]) and np.ndim(a) == 1:
        return np.sum(a.reshape((-1,) + (1,) * (np.ndim(b) - 1)) * b, axis=0)
    if axes == 1 and np.ndim(a) == 1 and np.ndim(b) == 3:
        return np.sum(a.reshape((-1, 1, 1)) * b, axis=0)
    if axes == 1:
        return np.dot(a, b)
    return np.rk_unknown(a, b)

def hypot(a, b):
    return np.sqrt(np.abs(a) ** 2 + np.abs(b) ** 2)

def isscalar(a):
    return isinstance(a, (int, float, complex, str))

def diag_indices(n, ndim=2):
    return (np.arange(n),) * ndim

def diag_indices_from(a):
    return (np.arange(a.shape[0]),) * a.ndim

def ix_(*arrays):
    k = len(arrays)
    return tuple([np.asarray(a).reshape((1,) * i + (-1,) + (1,) * (k - 1 - i)) for i, a in enumerate(arrays)])

def result_type(*a):
    return np.rk_unknown(*a)
'''

CLASSES = {"functools.partial": "partial", "types.SimpleNamespace": "SimpleNamespace", "operator.itemgetter": "itemgetter", "operator.attrgetter": "attrgetter",
           "operator.methodcaller": "methodcaller", "collections.deque": "deque", "itertools.count": "count"}
FUNCTIONS = {"functools.reduce": "reduce", "functools.lru_cache": "lru_cache", "functools.cache": "memo", "numpy.add.reduce": "add_reduce", "numpy.maximum.reduce": "maximum_reduce",
             "numpy.minimum.reduce": "minimum_reduce", "numpy.logical_or.reduce": "logical_or_reduce", "numpy.logical_and.reduce": "logical_and_reduce",
             "numpy.ndim": "np_ndim", "numpy.shape": "np_shape", "numpy.diff": "diff", "numpy.polyval": "polyval", "numpy.polynomial.polynomial.polyval": "polyval_up",
             "numpy.select": "select", "numpy.var": "var", "numpy.std": "std", "numpy.fft.fftshift": "fftshift", "numpy.fft.ifftshift": "ifftshift",
             "numpy.triu": "triu", "numpy.tril": "tril", "numpy.tri": "tri", "numpy.delete": "delete", "numpy.fromiter": "fromiter", "numpy.tensordot": "tensordot",
             "numpy.hypot": "hypot", "math.hypot": "hypot", "numpy.isscalar": "isscalar", "numpy.diag_indices": "diag_indices", "numpy.diag_indices_from": "diag_indices_from", "numpy.ix_": "ix_"}
_tree = None


def install(I):
    global _tree
    if _tree is None:
        _tree = ast.parse(SRC)
    m = I.load_tree("rk.prelude", _tree, SRC)
    env = I.st0.heap[m.env].vars
    for p, n in CLASSES.items():
        I.exts[p] = env[n]
    for p, n in FUNCTIONS.items():
        I.handlers[p] = (lambda f: lambda I, st, args, kw, node: I.call(st, f, args, kw, node))(env[n])
    I.stats["functions"].clear()
