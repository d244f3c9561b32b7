"""Methods of lists, dicts, strings, tuples."""
from __future__ import annotations
from .terms import *
from .terms import P
from . import terms as T
from .values import *
from .ops import compare, getitem, setitem, list_extend
from . import npmodel as N


def lst(I, st, ref):
    return st.heap[ref.oid]


def append_h(I, st, args, kw, node):
    ref, v = args
    o = st.heap[ref.oid]
    st.heap[ref.oid] = replace(o, items=o.items + (v,))
    I.ev(st, "append", node, obj=ref, val=v)
    return NONE


def extend_h(I, st, args, kw, node):
    list_extend(I, st, args[0], args[1], node)
    return NONE


def clear_h(I, st, args, kw, node):
    o = st.heap[args[0].oid]
    st.heap[args[0].oid] = ListO((), None, None, o.kind) if isinstance(o, ListO) else DictO({})
    I.ev(st, "clear", node, obj=args[0])
    return NONE


def pop_h(I, st, args, kw, node):
    o = st.heap[args[0].oid]
    if isinstance(o, DictO):
        for kk in list(o.d):
            r = compare(I, st, "Eq", kk, args[1], node)
            if I.decide(st, r.c) is True:
                d = dict(o.d)
                v = d.pop(kk)
                st.heap[args[0].oid] = DictO(d)
                return v
        if len(args) > 2:
            return args[2]
        I.exc(st, "KeyError", None, node)
    I.ev(st, "list-del", node, obj=args[0])
    from .interp import CondItem
    if o.prefix is None and o.sym is None and not any(isinstance(x, CondItem) for x in o.items):
        k = -1
        if len(args) > 1:
            k = args[1].p.const() if isinstance(args[1], Num) else None
        if not o.items:
            I.exc(st, "IndexError", None, node)
        if k is not None:
            its = list(o.items)
            v = its.pop(int(k))
            st.heap[args[0].oid] = replace(o, items=tuple(its))
            return v
    if o.items and len(args) == 1 and not isinstance(o.items[-1], CondItem):
        st.heap[args[0].oid] = replace(o, items=o.items[:-1])
        return o.items[-1]
    st.heap[args[0].oid] = ListO((), ("popped", next(T._fresh)), None, o.kind)
    return I.opaque_value("popped")


def insert_h(I, st, args, kw, node):
    o = st.heap[args[0].oid]
    k = args[1].p.const() if isinstance(args[1], Num) else None
    if o.prefix is None and o.sym is None and k is not None:
        its = list(o.items)
        its.insert(int(k), args[2])
        st.heap[args[0].oid] = replace(o, items=tuple(its))
    else:
        I.ev(st, "list-del", node, obj=args[0])
        st.heap[args[0].oid] = ListO((), ("inserted", next(T._fresh)), None, o.kind)
    return NONE


def lopaque_h(nm):
    def h(I, st, args, kw, node):
        o = st.heap[args[0].oid]
        I.ev(st, "list-del", node, obj=args[0])
        if nm == "reverse" and o.prefix is None and o.sym is None:
            st.heap[args[0].oid] = replace(o, items=tuple(reversed(o.items)))
            return NONE
        st.heap[args[0].oid] = ListO((), (nm, next(T._fresh)), None, o.kind)
        return NONE
    return h


def lcopy_h(I, st, args, kw, node):
    return I.new(st, st.heap[args[0].oid])


def index_h(I, st, args, kw, node):
    its = I.iter_items(st, args[0], node)
    if its is not None:
        for i, x in enumerate(its):
            d = I.decide(st, compare(I, st, "Eq", x, args[1], node).c)
            if d is True:
                return num(i)
            if d is None:
                return Num(I.opq("index"), "int")
        I.exc(st, "ValueError", None, node)
    return Num(I.opq("index"), "int")


def add_h(I, st, args, kw, node):
    o = st.heap[args[0].oid]
    if args[1] not in o.items:
        st.heap[args[0].oid] = replace(o, items=o.items + (args[1],))
    return NONE


def dget_h(I, st, args, kw, node):
    o = st.heap[args[0].oid]
    r = args[2] if len(args) > 2 else kw.get("default", NONE)
    from .ops import dict_cases
    cs, rest = dict_cases(I, st, o, args[1], node)
    if rest is FALSE and cs:
        r = cs[-1][1]
        cs = cs[:-1]
    for c, v in reversed(cs):
        r = I.mval(c, v, r)
    return r


def dsetdefault_h(I, st, args, kw, node):
    o = st.heap[args[0].oid]
    from .ops import dict_cases
    cs, rest = dict_cases(I, st, o, args[1], node)
    v = args[2] if len(args) > 2 else NONE
    if rest is FALSE and cs:
        v = cs[-1][1]
        cs = cs[:-1]
    for c, x in reversed(cs):
        v = I.mval(c, x, v)
    setitem(I, st, args[0], args[1], v, node)
    return v


def dupdate_h(I, st, args, kw, node):
    if len(args) > 1:
        v = I.pick(st, args[1])
        if isinstance(v, Ref) and isinstance(st.heap[v.oid], DictO):
            for k, x in st.heap[v.oid].d.items():
                setitem(I, st, args[0], k, x, node)
        else:
            st.heap[args[0].oid] = DictO({})
            I.opaque_value("update")
    for k, x in kw.items():
        setitem(I, st, args[0], Str(k), x, node)
    return NONE


def dlist_h(which):
    def h(I, st, args, kw, node):
        o = st.heap[args[0].oid]
        f = {"keys": lambda k, v: k, "values": lambda k, v: v, "items": lambda k, v: Tup((k, v))}[which]
        return I.new(st, ListO(tuple(f(k, v) for k, v in o.d.items())))
    return h


def sfn(name):
    def h(I, st, args, kw, node):
        s = args[0]
        if s.known and all(isinstance(a, Str) and a.known for a in args[1:]) and not kw:
            r = getattr(s.s, name)(*[a.s for a in args[1:]])
            if isinstance(r, bool):
                return Bool(TRUE if r else FALSE)
            if isinstance(r, str):
                return Str(r)
            if isinstance(r, int):
                return num(r)
            if isinstance(r, list):
                return I.new(st, ListO(tuple(Str(x) for x in r)))
        if name in ("startswith", "endswith", "isdigit", "isidentifier", "isalpha"):
            return Bool(T.Cond("app", "str." + name, (P(T.fresh("s")),)))
        if not s.known and name in ("upper", "lower", "strip", "title"):
            return Str((name, s.s))
        return Str((name, next(T._fresh)), tuple(args))
    return h


def sformat_h(I, st, args, kw, node):
    s = args[0]
    I.ev(st, "format", node, style="format", spec=s.s if s.known else None, val=Tup(tuple(args[1:])), conv=-1, kw=kw)
    return Str(("format", next(T._fresh)), tuple(args))


def join_h(I, st, args, kw, node):
    its = I.iter_items(st, I.pick(st, args[1]), node)
    if its is not None and args[0].known and all(isinstance(x, Str) and x.known for x in its):
        return Str(args[0].s.join(x.s for x in its))
    return Str(("join", next(T._fresh)))


def is_integer_h(I, st, args, kw, node):
    p = args[0].p
    from .ops import is_int_poly
    if is_int_poly(p):
        return Bool(TRUE)
    c = p.const()
    if c is not None:
        return Bool(TRUE if c.denominator == 1 else FALSE)
    return Bool(T.Cond("app", "is_integer", (p,)))


def install(I):
    R = lambda names, h: N.reg(I, names, h, lift=False)
    R("list.append", append_h)
    R("list.extend", extend_h)
    R("list.clear dict.clear set.clear", clear_h)
    R("list.pop dict.pop", pop_h)
    R("list.insert", insert_h)
    for n in ("remove", "reverse", "sort"):
        R("list." + n, lopaque_h(n))
    R("list.copy dict.copy set.copy", lcopy_h)
    R("list.index tuple.index", index_h)
    R("set.add", add_h)
    R("dict.get", dget_h)
    R("dict.setdefault", dsetdefault_h)
    R("dict.update", dupdate_h)
    for w in ("keys", "values", "items"):
        R("dict." + w, dlist_h(w))
    for n in ("upper", "lower", "strip", "title", "capitalize", "replace", "split", "startswith", "endswith", "lstrip", "rstrip", "isdigit", "count", "find", "casefold", "partition", "zfill"):
        R("str." + n, sfn(n))
    R("str.format", sformat_h)
    R("str.join", join_h)
    R("number.is_integer", is_integer_h)
    R("number.item number.copy number.__float__ number.__int__", lambda I, st, a, k, n: a[0])
    R("number.astype", lambda I, st, a, k, n: N.cast(I, st, a[0], N.created(I, st, a[1], n), n))
    R("number.reshape", lambda I, st, a, k, n: I.call_ext(st, "numpy.reshape", a, k, n))
    R("number.any number.all number.sum number.max number.min", lambda I, st, a, k, n: a[0])
