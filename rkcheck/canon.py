"""Renaming inside heaps, and signatures of object graphs up to the names of history symbols."""
from __future__ import annotations
from .terms import *
from .terms import P
from . import terms as T
from .values import *
from .interp import CondItem, UNSET


class Renamer(T.Subst):
    """replaces atoms, and Lam bodies that are one of the given terms"""

    def __init__(self, mapping, bodies=None):
        super().__init__(mapping)
        self.bodies = bodies or {}
        d = set()
        for b in self.bodies:
            d |= b.deps
        self.keys = frozenset(self.keys | d)

    def __call__(self, x):
        if isinstance(x, Lam) and isinstance(x.body, Poly) and x.body in self.bodies:
            return Lam(self.bodies[x.body], x.axes, x.tag)
        return super().__call__(x)

    def content(self, c):
        if isinstance(c, Poly) and c in self.bodies:
            return self.bodies[c]
        return self(c)


def rename_val(r, v):
    if isinstance(v, Num):
        p = r(v.p)
        return v if p is v.p else Num(p, v.ty)
    if isinstance(v, Bool):
        c = r(v.c)
        return v if c is v.c else Bool(c)
    if isinstance(v, Tup):
        it = tuple(rename_val(r, x) for x in v.items)
        return v if all(a is b for a, b in zip(it, v.items)) else Tup(it)
    if isinstance(v, IteV):
        c, a, b = r(v.c), rename_val(r, v.a), rename_val(r, v.b)
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        return v if c is v.c and a is v.a and b is v.b else IteV(c, a, b)
    if isinstance(v, Seq):
        return Seq(rename_val(r, v.elem), v.idx, r(v.n))
    if isinstance(v, Bound):
        return v
    if isinstance(v, CondItem):
        return CondItem(r(v.c), tuple(rename_val(r, x) for x in v.items))
    return v


def rename_obj(r, o):
    if isinstance(o, Arr):
        c = r.content(o.content)
        ax = tuple((r(n), None if m is None else r(m)) for n, m in o.axes)
        if c is o.content and all(a[0] is b[0] and a[1] is b[1] for a, b in zip(ax, o.axes)):
            return o
        return replace(o, content=c, axes=ax)
    if isinstance(o, Inst):
        return _fields(r, o, "f")
    if isinstance(o, EnvO):
        return _fields(r, o, "vars")
    if isinstance(o, DictO):
        return _fields(r, o, "d")
    if isinstance(o, ListO):
        it = tuple(rename_val(r, x) if isinstance(x, (V, CondItem)) else x for x in o.items)
        sm = rename_val(r, o.sym) if o.sym is not None else None
        if sm is o.sym and all(a is b for a, b in zip(it, o.items)):
            return o
        return replace(o, items=it, sym=sm)
    return o


def _fields(r, o, name):
    d = getattr(o, name)
    new = {k: rename_val(r, v) if isinstance(v, V) else v for k, v in d.items()}
    if all(new[k] is d[k] for k in d):
        return o
    return replace(o, **{name: new})


def rename_state(st, r):
    st.heap = {k: rename_obj(r, o) for k, o in st.heap.items()}
    st.path = tuple(x for x in (r(c) for c in st.path) if x is not TRUE)


# ------------------------------------------------------------------------------------------ object graphs
def skip(o):
    return isinstance(o, Inst) and isinstance(o.cls, Ext) and o.cls.path.startswith("logging.")


def graph(st, root):
    """oids reachable from root in a deterministic order"""
    order, seen, todo = [], set(), [root]

    def push(v):
        if isinstance(v, Ref):
            todo.append(v)
        elif isinstance(v, (Tup,)):
            for x in v.items:
                push(x)
        elif isinstance(v, IteV):
            push(v.a)
            push(v.b)
        elif isinstance(v, Bound):
            push(v.self)
        elif isinstance(v, Seq):
            push(v.elem)
        elif isinstance(v, CondItem):
            for x in v.items:
                push(x)
    while todo:
        r = todo.pop(0)
        if r.oid in seen:
            continue
        seen.add(r.oid)
        o = st.heap.get(r.oid)
        if o is None or skip(o):
            continue
        order.append(r.oid)
        if isinstance(o, Inst):
            for k in sorted(o.f, key=str):
                push(o.f[k])
        elif isinstance(o, DictO):
            for k in sorted(o.d, key=repr):
                push(o.d[k])
        elif isinstance(o, ListO):
            for x in o.items:
                push(x)
            if o.sym is not None:
                push(o.sym)
        elif isinstance(o, Arr):
            b = o.base[0] if isinstance(o.base, tuple) else o.base
            if isinstance(b, int):
                push(Ref(b))
    return order


def atoms_of(st, oids):
    out = set()

    def val(v):
        if isinstance(v, Num):
            out.update(v.p.deps)
        elif isinstance(v, Bool):
            out.update(v.c.deps)
        elif isinstance(v, Tup):
            for x in v.items:
                val(x)
        elif isinstance(v, IteV):
            out.update(v.c.deps)
            val(v.a)
            val(v.b)
        elif isinstance(v, Seq):
            val(v.elem)
    for i in oids:
        o = st.heap[i]
        if isinstance(o, Arr):
            out.update(o.content.deps)
        elif isinstance(o, Inst):
            for v in o.f.values():
                val(v)
        elif isinstance(o, DictO):
            for v in o.d.values():
                val(v)
        elif isinstance(o, ListO):
            for v in o.items:
                val(v)
    return out


def signature(st, root, r, drop=(), extra=None):
    """the object graph with renamed terms; equal signatures mean equal graphs up to the renaming"""
    ids = {o: i for i, o in enumerate(graph(st, root))}

    def val(v):
        if isinstance(v, Ref):
            return ("ref", ids.get(v.oid, "ext"))
        if isinstance(v, Num):
            return ("num", r(v.p))
        if isinstance(v, Bool):
            return ("bool", r(v.c))
        if isinstance(v, Tup):
            return ("tup",) + tuple(val(x) for x in v.items)
        if isinstance(v, IteV):
            return ("ite", r(v.c), val(v.a), val(v.b))
        if isinstance(v, Bound):
            return ("bound", id(v.func), val(v.self))
        if isinstance(v, CondItem):
            return ("cond", r(v.c)) + tuple(val(x) for x in v.items)
        if isinstance(v, V):
            return ("v", v)
        return ("py", v)
    out = []
    for oid in ids:
        o = st.heap[oid]
        if isinstance(o, Arr):
            b = o.base[0] if isinstance(o.base, tuple) else o.base
            out.append(("arr", r.content(o.content), o.dtype, o.rep, o.space, ids.get(b)) + ((extra(oid),) if extra else ()))
        elif isinstance(o, Inst):
            out.append(("inst", id(o.cls)) + tuple((k, val(o.f[k])) for k in sorted(o.f, key=str) if k not in drop))
        elif isinstance(o, DictO):
            out.append(("dict",) + tuple((repr(k), val(o.d[k])) for k in sorted(o.d, key=repr)))
        elif isinstance(o, ListO):
            out.append(("list",) + tuple(val(x) if isinstance(x, (V, CondItem)) else x for x in o.items))
        else:
            out.append(("obj", id(o)))
    return tuple(out)
