"""Abstract values and heap objects of the interpreter."""
from __future__ import annotations
from dataclasses import dataclass, field, replace
from typing import Any
from .terms import *
from .terms import P


class V:
    __slots__ = ()


@dataclass(frozen=True)
class Num(V):
    p: Poly
    ty: str = "float"  # int float complex any

    def __repr__(self):
        return "%r" % (self.p,)


@dataclass(frozen=True)
class Bool(V):
    c: Cond


@dataclass(frozen=True)
class Str(V):
    s: Any  # python str, or a unique object for an unknown text
    parts: tuple = ()

    @property
    def known(self):
        return isinstance(self.s, str)


@dataclass(frozen=True)
class NoneV(V):
    pass


NONE = NoneV()


@dataclass(frozen=True)
class Tup(V):
    items: tuple
    cls: Any = field(default=None, compare=False)  # the class of a named tuple


@dataclass(frozen=True)
class Ref(V):
    oid: int


@dataclass(frozen=True, eq=False)
class Func(V):
    node: Any
    mod: Any
    env: Any  # oid of enclosing function scope or None
    cls: Any  # class for super()/mangling
    defaults: tuple
    kwdefaults: tuple
    name: str
    isgen: bool = False
    ctx: bool = False  # a generator wrapped by contextlib.contextmanager


@dataclass(frozen=True)
class Bound(V):
    func: V
    self: V


@dataclass(frozen=True, eq=False)
class Cls(V):
    name: str
    mod: Any
    node: Any
    bases: tuple
    attrs: dict
    extra: dict = field(default_factory=dict)

    def mro(self):
        out = []
        # C3 is not needed for the single inheritance used; keep left-to-right depth-first, last duplicates win
        def walk(c):
            out.append(c)
            if isinstance(c, Cls):
                for b in c.bases:
                    walk(b)
        walk(self)
        res = []
        for i, c in enumerate(out):
            if c not in out[i + 1:]:
                res.append(c)
        return res


@dataclass(frozen=True)
class Mod(V):
    name: str


@dataclass(frozen=True)
class Ext(V):
    path: str


@dataclass(frozen=True)
class IteV(V):
    c: Cond
    a: V
    b: V


@dataclass(frozen=True)
class Opaque(V):
    label: Any


@dataclass(frozen=True)
class Prop(V):
    fget: Any
    fset: Any = None


@dataclass(frozen=True)
class StaticM(V):
    f: V


@dataclass(frozen=True)
class ClassM(V):
    f: V


@dataclass(frozen=True)
class Super(V):
    cls: Any
    self: V


@dataclass(frozen=True)
class SliceV(V):
    lo: V
    hi: V
    step: V


@dataclass(frozen=True)
class EllipsisV(V):
    pass


@dataclass(frozen=True)
class RangeV(V):
    lo: Poly
    hi: Poly
    step: Poly


@dataclass(frozen=True)
class Seq(V):
    """a sequence of symbolic length: element value as a function of the index atom"""
    elem: V
    idx: Atom
    n: Poly


@dataclass(frozen=True)
class IndexOf(V):
    """integer positions selected by an elementwise mask (np.where(mask)[0], np.flatnonzero, ...)"""
    lam: Lam


@dataclass(frozen=True)
class BytesV(V):
    """the bytes of an array: its elements in order, and the shape they were taken in"""
    lam: Lam
    dtype: str


# ---------------------------------------------------------------------------------------------- heap objects
@dataclass(frozen=True, eq=False)
class Inst:
    cls: Any
    f: dict

    def key(self):
        return ("inst", id(self.cls), tuple(sorted(self.f.items(), key=lambda t: t[0])))


@dataclass(frozen=True, eq=False)
class ListO:
    items: tuple
    prefix: Any = None  # opaque label of unknown leading part
    sym: Any = None  # a Seq when the list was filled by a loop of symbolic length
    kind: str = "list"


@dataclass(frozen=True, eq=False)
class DictO:
    d: dict


@dataclass(frozen=True, eq=False)
class EnvO:
    vars: dict
    parent: Any
    globals_: tuple = ()
    nonlocals: tuple = ()


@dataclass(frozen=True, eq=False)
class Arr:
    content: Any  # Poly, or Cond for boolean arrays
    axes: tuple  # ((len Poly, mask Cond or None), ...)
    dtype: str  # bool int float any complex
    rep: str = "idx"  # idx | op | S | Sinv
    space: Any = None  # None | 'phys' | 'eig'
    owner: str = "internal"
    base: Any = None  # oid of the array this may share memory with
    origins: frozenset = frozenset()

    @property
    def ndim(self):
        return len(self.axes)


def objs_equal(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, Inst):
        return a.cls is b.cls and a.f == b.f
    if isinstance(a, ListO):
        return a.items == b.items and a.prefix == b.prefix and a.sym == b.sym
    if isinstance(a, DictO):
        return a.d == b.d
    if isinstance(a, EnvO):
        return a.vars == b.vars and a.parent == b.parent
    if isinstance(a, Arr):
        return (a.content is b.content and a.axes == b.axes and a.dtype == b.dtype and a.rep == b.rep and a.space == b.space)
    return False


def idx(p):
    return Atom("idx", p)


def num(x, ty=None):
    if ty is None:
        ty = "int" if isinstance(x, int) else "complex" if isinstance(x, complex) else "float"
    return Num(P(x), ty)


def promote(*ts):
    order = ["bool", "int", "float", "any", "complex"]
    return max(ts, key=order.index)
