"""Builtins, containers, math, typing and friends."""
from __future__ import annotations
from .terms import *
from .terms import P, Fraction
from . import terms as T
from .values import *
from .arrays import *
from .arrays import ew, put, as_arr, write, numify, range_len
from .ops import compare, floor_p, ceil_p, is_int_poly, condify, binop, getitem, setitem, identical
from . import npmodel as N


def typename(v, st):
    """set of builtin type names the value is an instance of; None if unknown"""
    if isinstance(v, Bool):
        return {"bool", "int"}
    if isinstance(v, Num):
        if v.ty == "any":
            return None
        return {v.ty}
    if isinstance(v, Str):
        return {"str"}
    if isinstance(v, NoneV):
        return {"NoneType"}
    if isinstance(v, Tup):
        return {"tuple"}
    if isinstance(v, Ref):
        o = st.heap[v.oid]
        if isinstance(o, Arr):
            return {"ndarray"}
        if isinstance(o, ListO):
            return {o.kind}
        if isinstance(o, DictO):
            return {"dict"}
        if isinstance(o, Inst):
            return None
    if isinstance(v, (Func, Bound)):
        return {"function"}
    if isinstance(v, Cls):
        return {"type"}
    if isinstance(v, RangeV):
        return {"range"}
    if isinstance(v, IndexOf):
        return {"ndarray"}
    if isinstance(v, Ext):
        return {"ext"}
    return None


NUMERIC_ABC = {"Number": {"int", "float", "complex", "bool"}, "Real": {"int", "float", "bool"}, "Integral": {"int", "bool"}, "Complex": {"int", "float", "complex", "bool"},
               "Sequence": {"list", "tuple", "str", "range"}, "Iterable": {"list", "tuple", "str", "dict", "set", "range", "ndarray"}, "Callable": {"function"}, "Mapping": {"dict"},
               "number": set(), "integer": set(), "floating": set(), "complexfloating": set(), "generic": set()}


def isinst(I, st, v, k, node):
    k = I.pick(st, k)
    if isinstance(k, Tup):
        return mk_or(*[isinst(I, st, v, x, node) for x in k.items]) if k.items else FALSE
    v = I.pick(st, v)
    if isinstance(v, IteV):
        a, b = isinst(I, st, v.a, k, node), isinst(I, st, v.b, k, node)
        return mk_or(mk_and(v.c, a), mk_and(mk_not(v.c), b))
    if isinstance(v, Ref) and isinstance(st.heap[v.oid], Inst):
        c = st.heap[v.oid].cls
        if isinstance(k, Cls):
            return TRUE if isinstance(c, Cls) and k in c.mro() else FALSE
        if isinstance(k, Ext):
            if k.path == "builtins.object":
                return TRUE
            names = I.exc_names(c)
            n = k.path.split(".")[-1]
            if n in ("Enum", "Logger", "Handler", "ABC") or n in names:
                if isinstance(c, Ext):
                    return TRUE if c.path.split(".")[-1] == n or n in names else FALSE
                return TRUE if any(isinstance(x, Ext) and x.path.split(".")[-1] == n for x in c.mro()) or n in names else FALSE
            if n == "Callable":
                return TRUE if I.find_attr(c, "__call__") is not None else FALSE
            return FALSE
    if isinstance(v, Opaque) or isinstance(k, Opaque):
        return T.Cond("app", "isinstance", (P(T.fresh("v")),))
    tn = typename(v, st)
    if isinstance(v, Tup) and v.cls is not None and isinstance(k, Cls):
        return TRUE if k in v.cls.mro() else FALSE
    if isinstance(k, Cls):
        return FALSE
    if isinstance(k, Ext):
        n = k.path.split(".")[-1]
        if k.path == "builtins.object":
            return TRUE
        if tn is None:
            if isinstance(v, Num):
                return T.Cond("app", "isinstance", (v.p, P(T.sym("type:" + n))))
            return T.Cond("app", "isinstance", (P(T.fresh("v")),))
        if tn == {"ext"}:
            return FALSE
        if n in NUMERIC_ABC:
            return TRUE if tn & NUMERIC_ABC[n] else FALSE
        if n == "bool_":
            return FALSE
        n2 = {"FunctionType": "function", "MethodType": "function"}.get(n, n)
        return TRUE if n2 in tn else FALSE
    if isinstance(k, (NoneV, Num, Str)):
        I.exc(st, "TypeError", None, node)
    return T.Cond("app", "isinstance", (P(T.fresh("v")),))


def isinstance_h(I, st, args, kw, node):
    c = isinst(I, st, args[0], args[1], node)
    I.ev(st, "isinstance", node, val=args[0], cls=args[1], res=c)
    return Bool(c)


def issub(I, c, k):
    if isinstance(k, Tup):
        return any(issub(I, c, x) for x in k.items)
    if isinstance(c, Cls):
        return k in c.mro() or any(isinstance(x, Ext) and isinstance(k, Ext) and x.path == k.path for x in c.mro())
    return c == k


def issubclass_h(I, st, args, kw, node):
    return Bool(TRUE if issub(I, args[0], args[1]) else FALSE)


def type_h(I, st, args, kw, node):
    v = I.pick(st, args[0])
    if isinstance(v, Ref) and isinstance(st.heap[v.oid], Inst):
        return st.heap[v.oid].cls
    if isinstance(v, Tup) and v.cls is not None:
        return v.cls
    tn = typename(v, st)
    if tn is None or tn == {"ext"}:
        return I.opaque_value("type")
    n = "bool" if "bool" in tn else next(iter(tn))
    return Ext(("numpy." if n == "ndarray" else "builtins.") + n)


def narrow_h(name, h):
    def f(I, st, args, kw, node):
        I.stats["narrow"].add((I.site(node), name))
        return h(I, st, args, kw, node)
    return f


def number_h(ty, strict=False):
    def h(I, st, args, kw, node):
        if not args:
            return num(0) if ty != "float" else Num(ZERO, "float")
        v = I.pick(st, args[0])
        if isinstance(v, Str) and v.known:
            s = v.s.strip().lower()
            if ty == "float":
                if s in ("inf", "+inf", "infinity"):
                    return Num(P(T.INF_), "float")
                if s == "-inf":
                    return Num(-P(T.INF_), "float")
                if s == "nan":
                    return Num(P(T.NAN_), "float")
            try:
                return Num(P({"float": float, "int": int, "complex": complex}[ty](v.s)), ty)
            except ValueError:
                I.exc(st, "ValueError", None, node)
        if isinstance(v, Str):
            return I.opaque_value("parsed")
        if isinstance(v, (NoneV, Tup, Func, Cls)) or isinstance(v, Ref) and isinstance(st.heap[v.oid], (ListO, DictO)):
            I.exc(st, "TypeError", None, node)
        a = as_arr(I, st, v, node)
        if isinstance(a, Arr):
            if all(x[0].const() == 1 for x in a.axes):
                a = I.arr_scalar(a)
            else:
                I.exc(st, "TypeError", None, node)
        if a is None:
            return I.opaque_value(ty)
        if isinstance(a, Bool):
            return Num(numify(a.c), ty)
        if ty == "complex":
            p = a.p
            if len(args) > 1:
                p = p + IMAG * args[1].p
            return Num(p, "complex")
        if a.ty == "complex":
            I.exc(st, "TypeError", None, node)
        if ty == "int":
            if strict and I.strict_math and a.ty != "int":
                c = not_finite(a.p)
                if c is not FALSE and I.decide(st, c) is not False:
                    I.may_raise(st, "ValueError", c, node)
            if T.INF_ in a.p.deps or T.NAN_ in a.p.deps:
                I.exc(st, "OverflowError", None, node)
            return Num(N.trunc_p(I, st, a.p) if a.ty != "int" else a.p, "int")
        p = a.p
        if a.ty == "any":
            I.ev(st, "float-of-any", node, val=a)
            p = T.real_part(p)
        return Num(p, "float")
    return h


def bool_h(I, st, args, kw, node):
    if not args:
        return Bool(FALSE)
    return Bool(I.truth(st, I.pick(st, args[0]), node))


def str_h(I, st, args, kw, node):
    if not args:
        return Str("")
    v = I.pick(st, args[0])
    if isinstance(v, Str):
        return v
    if isinstance(v, Num) and v.ty == "int" and v.p.const() is not None:
        return Str(str(int(v.p.const())))
    if isinstance(v, NoneV):
        return Str("None")
    if isinstance(v, Ref) and isinstance(st.heap[v.oid], Inst):
        c = st.heap[v.oid].cls
        m = I.find_attr(c, "__str__") if isinstance(c, Cls) else None
        if m is not None:
            return I.call(st, Bound(m, v), [], {}, node)
    I.ev(st, "format", node, style="str", spec="", val=v, conv=-1)
    return Str(("str", next(T._fresh)), (v,))


def range_h(I, st, args, kw, node):
    vs = [as_arr(I, st, a, node) for a in args]
    for v in vs:
        if isinstance(v, Num) and v.ty in ("float", "complex"):
            I.exc(st, "TypeError", Str("float in range"), node)
        if not isinstance(v, (Num, Bool)):
            if v is None:
                return I.opaque_value("range")
            I.exc(st, "TypeError", None, node)
    ps = [v.p if isinstance(v, Num) else numify(v.c) for v in vs]
    if len(ps) == 1:
        return RangeV(ZERO, ps[0], ONE)
    return RangeV(ps[0], ps[1], ps[2] if len(ps) > 2 else ONE)


def container_h(kind):
    def h(I, st, args, kw, node):
        if not args:
            return I.new(st, ListO((), None, None, kind)) if kind != "tuple" else Tup(())
        v = I.pick(st, args[0])
        its = I.iter_items(st, v, node)
        if its is None:
            if isinstance(v, Tup):
                return v
            if isinstance(v, Ref) and isinstance(st.heap[v.oid], ListO):
                return I.new(st, replace(st.heap[v.oid], kind=kind if kind != "tuple" else "list"))
            from . import loops
            k, n, e = loops.sym_iter(I, st, v, node)
            if k is not None:
                return I.new(st, ListO((), None, Seq(e, k, n)))
            if kind == "tuple":
                return I.opaque_value("tuple")
            return I.new(st, ListO((), ("list", next(T._fresh)), None, kind))
        if kind == "tuple":
            return Tup(tuple(its))
        if kind in ("set", "frozenset"):
            out = []
            for x in its:
                if x not in out:
                    out.append(x)
            its = out
        return I.new(st, ListO(tuple(its), None, None, kind))
    return h


def dict_h(I, st, args, kw, node):
    d = {}
    if args:
        v = I.pick(st, args[0])
        if isinstance(v, Ref) and isinstance(st.heap[v.oid], DictO):
            d.update(st.heap[v.oid].d)
        else:
            its = I.iter_items(st, v, node)
            if its is None:
                return I.opaque_value("dict")
            for x in its:
                k, y = I.iter_items(st, x, node)
                d[k] = y
    for k, x in kw.items():
        d[Str(k)] = x
    return I.new(st, DictO(d))


def zip_h(I, st, args, kw, node):
    ls = [I.iter_items(st, I.pick(st, a), node) for a in args]
    if all(l is not None for l in ls):
        return I.new(st, ListO(tuple(Tup(t) for t in zip(*ls))))
    return Opaque(("zip", tuple(args)))


def enumerate_h(I, st, args, kw, node):
    its = I.iter_items(st, I.pick(st, args[0]), node)
    s = args[1] if len(args) > 1 else kw.get("start", num(0))
    if its is not None and isinstance(s, Num):
        return I.new(st, ListO(tuple(Tup((Num(s.p + P(i), "int"), x)) for i, x in enumerate(its))))
    return Opaque(("enumerate", args[0], s))


def map_h(I, st, args, kw, node):
    ls = [I.iter_items(st, I.pick(st, a), node) for a in args[1:]]
    if all(l is not None for l in ls):
        return I.new(st, ListO(tuple(I.call(st, args[0], list(t), {}, node) for t in zip(*ls))))
    return I.opaque_value("map")


def filter_h(I, st, args, kw, node):
    return I.opaque_value("filter")


def reversed_h(I, st, args, kw, node):
    its = I.iter_items(st, I.pick(st, args[0]), node)
    if its is not None:
        return I.new(st, ListO(tuple(reversed(its))))
    return I.opaque_value("reversed")


def sorted_h(I, st, args, kw, node):
    its = I.iter_items(st, I.pick(st, args[0]), node)
    if its is not None and not kw:
        if all(isinstance(x, Num) and x.p.const() is not None for x in its):
            return I.new(st, ListO(tuple(sorted(its, key=lambda x: x.p.const()))))
        if all(isinstance(x, Str) and x.known for x in its):
            return I.new(st, ListO(tuple(sorted(its, key=lambda x: x.s))))
    if its is not None and len(its) <= 1:
        return I.new(st, ListO(tuple(its)))
    return I.opaque_value("sorted")


def getattr_h(I, st, args, kw, node):
    if not isinstance(args[1], Str) or not args[1].known:
        o = I.pick(st, args[0])
        if isinstance(o, Ext) and o.path == "logging" and len(args) > 2:
            # an attribute of the logging module: one of the level numbers, or something else
            return level_lookup(I, st, args[1], args[2])
        return I.opaque_value("getattr")
    d = args[2] if len(args) > 2 else None
    o = I.pick(st, args[0])
    if isinstance(o, Ext) and o.path == "logging" and d is not None:
        import logging
        x = getattr(logging, args[1].s, None)
        if x is None:
            return d
        if isinstance(x, int):
            return num(x)
        if isinstance(x, str):
            return Str(x)
        return Ext("logging." + args[1].s)  # a class, function, module or table
    if d is not None and lacks(I, st, o, args[1].s):
        return d
    return I.getattr(st, o, args[1].s, node, d)


def level_lookup(I, st, s, d):
    c = T.Cond("app", "haslevel", (P(T.sym("text%s" % (s.s,))),))
    return IteV(c, Num(P(T.sym("level%s" % (s.s,), int=True, real=True)), "int"), d)


def setattr_h(I, st, args, kw, node):
    if isinstance(args[1], Str) and args[1].known:
        I.setattr(st, I.pick(st, args[0]), args[1].s, args[2], node)
        return NONE
    I.undecided("setattr with unknown name", node)


def obj_setattr_h(I, st, args, kw, node):
    if isinstance(args[1], Str) and args[1].known:
        I.setattr(st, I.pick(st, args[0]), args[1].s, args[2], node, raw=True)
        return NONE
    I.undecided("object.__setattr__ with unknown name", node)


def delattr_h(I, st, args, kw, node):
    o = I.pick(st, args[0])
    h = st.heap[o.oid]
    f = dict(h.f)
    f[args[1].s] = Opaque("unset")
    from .interp import UNSET
    f[args[1].s] = UNSET
    st.heap[o.oid] = Inst(h.cls, f)
    return NONE


def py_class(st, o):
    """the Python type of a value of a plain built-in kind"""
    if isinstance(o, NoneV):
        return type(None)
    if isinstance(o, Bool):
        return bool
    if isinstance(o, Num):
        return {"int": int, "float": float, "complex": complex}.get(o.ty)
    if isinstance(o, Str):
        return str
    if isinstance(o, Tup):
        return tuple
    if isinstance(o, RangeV):
        return range
    if isinstance(o, Func):
        return type(py_class)
    if isinstance(o, Ref):
        h = st.heap[o.oid]
        if isinstance(h, ListO):
            return {"list": list, "set": set, "tuple": tuple}.get(h.kind)
        if isinstance(h, DictO):
            return dict
    return None


ARRAY_ATTRS = frozenset(("T all any argmax argmin argpartition argsort as_integer_ratio astype base byteswap choose clip compress conj conjugate copy ctypes cumprod "
    "cumsum data device diagonal dot dtype dump dumps fill flags flat flatten fromhex getfield hex imag is_integer item itemsize mT max mean min nbytes ndim nonzero "
    "partition prod put ravel real repeat reshape resize round searchsorted setfield setflags shape size sort squeeze std strides sum swapaxes take to_device tobytes "
    "tofile tolist trace transpose var view").split()) | frozenset(dir(list)) - {"append", "extend", "insert", "pop", "remove", "clear", "reverse", "index", "count"}


def lacks(I, st, o, name):
    """whether a value of a builtin or array type certainly has no such attribute"""
    if isinstance(o, Ref) and isinstance(st.heap[o.oid], Arr):
        return name not in ARRAY_ATTRS and not name.startswith("__")
    k = py_class(st, o)
    if k is None or isinstance(o, Func):
        return isinstance(o, NoneV) and not hasattr(None, name)
    if k in (int, float, complex, bool) and (name in ARRAY_ATTRS or name.startswith("__")):
        return False  # may be a numpy scalar
    return not hasattr(k, name)


def hasattr_h(I, st, args, kw, node):
    if not isinstance(args[1], Str) or not args[1].known:
        return Bool(T.Cond("app", "hasattr", (P(T.fresh("v")),)))
    o, n = I.pick(st, args[0]), args[1].s
    if isinstance(o, Ref) and isinstance(st.heap[o.oid], Inst):
        h = st.heap[o.oid]
        from .interp import UNSET, has_unset
        if isinstance(h.cls, Cls) and I.find_attr(h.cls, n) is not None:
            return Bool(TRUE)
        v = h.f.get(n, UNSET)

        def g(v):
            if isinstance(v, IteV):
                return mk_or(mk_and(v.c, g(v.a)), mk_and(mk_not(v.c), g(v.b)))
            return FALSE if v is UNSET else TRUE
        return Bool(g(v))
    if isinstance(o, Cls):
        return Bool(TRUE if I.find_attr(o, n) is not None else FALSE)
    if isinstance(o, Ref) and isinstance(st.heap[o.oid], Arr):
        return Bool(FALSE if lacks(I, st, o, n) else TRUE)
    if isinstance(o, (NoneV,)):
        return Bool(FALSE)
    k = py_class(st, o)
    if k is not None:
        return Bool(TRUE if hasattr(k, n) else FALSE)
    return Bool(T.Cond("app", "hasattr", (P(T.fresh("v")),)))


def callable_h(I, st, args, kw, node):
    v = I.pick(st, args[0])
    if isinstance(v, (Func, Bound, Cls, Ext)):
        return Bool(TRUE)
    if isinstance(v, (Num, Bool, Str, NoneV, Tup)):
        return Bool(FALSE)
    if isinstance(v, Ref):
        o = st.heap[v.oid]
        if isinstance(o, Inst):
            return Bool(TRUE if isinstance(o.cls, Cls) and I.find_attr(o.cls, "__call__") is not None else FALSE)
        return Bool(FALSE)
    return Bool(T.Cond("app", "callable", (P(T.fresh("v")),)))


def sum_h(I, st, args, kw, node):
    its = I.iter_items(st, I.pick(st, args[0]), node)
    if its is None:
        v = I.pick(st, args[0])
        if isinstance(v, Ref) and isinstance(st.heap[v.oid], ListO) and st.heap[v.oid].sym is not None and not st.heap[v.oid].items and st.heap[v.oid].prefix is None:
            s = st.heap[v.oid].sym
            e = as_arr(I, st, s.elem, node)
            from . import loops
            r = loops.sum_seq(I, st, e, s, node)
            if r is not None:
                return r
        return I.call_ext(st, "numpy.sum", args[:1], {"axis": num(0)}, node) if isinstance(v, Ref) and isinstance(st.heap[v.oid], Arr) else I.opaque_value("sum")
    r = args[1] if len(args) > 1 else kw.get("start", num(0))
    for x in its:
        r = binop(I, st, "Add", r, x, node)
    return r


def round_h(I, st, args, kw, node):
    v = as_arr(I, st, args[0], node)
    if isinstance(v, Num) and len(args) == 1:
        from .np_elem import e_round
        return Num(e_round(v.p), "int")
    if isinstance(v, Num):
        return Num(P(Atom("app", "roundto", (v.p, args[1].p))), v.ty)
    return I.opaque_value("round")


LOGS = ("log", "log10", "log2")


def not_finite(p):
    """condition under which a term is NaN or infinite, in terms of the values it is computed from"""
    if not T.maybe_nan(p) and not any(a.kind == "app" and a.args[0] in LOGS for a in p.deps):
        return FALSE
    t = list(p.t.items()) if hasattr(p, "t") else []
    if len(t) == 1 and len(t[0][0]) == 1:
        a, e = t[0][0][0]
        if e == 1 and a.kind == "app" and a.args[0] in ("floor", "ceil", "trunc", "round", "roundto", "fl", "abs", "real"):
            return not_finite(a.args[1][0])
        if e == 1 and a.kind == "app" and a.args[0] in LOGS:
            x = a.args[1][0]
            return mk_or(not_finite(x), mk_cmp("le", x, ZERO))
    return mk_or(T.mk_capp("isnan", p), T.mk_capp("isinf", p))


def domain(name, h):
    """math functions raise outside their domain"""
    def f(I, st, args, kw, node):
        if I.strict_math and args:
            v = as_arr(I, st, args[0], node)
            if isinstance(v, Num) and v.ty != "complex":
                c = mk_cmp("le" if name != "sqrt" else "lt", v.p, ZERO)
                if I.decide(st, c) is not False:
                    I.may_raise(st, "ValueError", c, node)
        return h(I, st, args, kw, node)
    return f


def intfn(fn):
    def h(I, st, args, kw, node):
        v = as_arr(I, st, args[0], node)
        if not isinstance(v, Num):
            return I.opaque_value("int fn")
        I.ev(st, "to-int", node, val=v)
        if I.strict_math and v.ty != "int":
            c = not_finite(v.p)
            if c is not FALSE and I.decide(st, c) is not False:
                I.may_raise(st, "ValueError", c, node)
        if v.p.atom() is T.INF_:
            I.exc(st, "OverflowError", None, node)
        if is_int_poly(v.p):
            return Num(v.p, "int")
        return Num(fn(I, st, v.p), "int")
    return h


def divmod_h(I, st, args, kw, node):
    return Tup((binop(I, st, "FloorDiv", args[0], args[1], node), binop(I, st, "Mod", args[0], args[1], node)))


def identity_h(I, st, args, kw, node):
    return args[0] if args else NONE


def none_h(I, st, args, kw, node):
    return NONE


def prop_h(I, st, args, kw, node):
    return Prop(args[0] if args else None, args[1] if len(args) > 1 else kw.get("fset"))


def prop_set_h(I, st, args, kw, node):
    return Prop(args[0].fget, args[1])


def prop_get_h(I, st, args, kw, node):
    return Prop(args[1], args[0].fset)


def partial_h(I, st, args, kw, node):
    return I.new(st, Inst(Ext("functools.partial"), {"f": args[0], "a": Tup(tuple(args[1:])), "k": I.new(st, DictO({Str(k): v for k, v in kw.items()}))}))


def wraps_h(I, st, args, kw, node):
    return Ext("rk.identity")


def opaque_ctx(label):
    return lambda I, st, args, kw, node: Opaque(label)


def id_h(I, st, args, kw, node):
    v = I.pick(st, args[0])
    if isinstance(v, Ref):
        return Num(P(T.sym("id:%d" % v.oid, int=True, real=True)), "int")
    return Num(P(T.fresh("id", int=True, real=True)), "int")


def field_h(I, st, args, kw, node):
    if "default_factory" in kw:
        return Opaque(("field", kw["default_factory"]))
    return kw.get("default", Opaque("field"))


def vars_h(I, st, args, kw, node):
    v = I.pick(st, args[0])
    if isinstance(v, Ref) and isinstance(st.heap[v.oid], Inst):
        return Opaque(("__dict__", v))
    return I.opaque_value("vars")


def iter_h(I, st, args, kw, node):
    v = I.pick(st, args[0])
    if len(args) > 1:
        return I.opaque_value("iter")
    if isinstance(v, Opaque) and isinstance(v.label, tuple) and v.label[0] == "__dict__":
        return inst_dict(I, st, v.label[1], lambda t: iter_h(I, st, [t], {}, node), node)
    if isinstance(v, Ref) and isinstance(st.heap[v.oid], Inst) and isinstance(st.heap[v.oid].cls, Cls):
        f = I.find_attr(st.heap[v.oid].cls, "__iter__")
        if f is not None:
            return I.call(st, Bound(f, v), [], {}, node)
    its = I.iter_items(st, v, node)
    return v if its is None else I.new(st, ListO(tuple(its)))


def next_h(I, st, args, kw, node):
    v = I.pick(st, args[0])
    if isinstance(v, Ref) and isinstance(st.heap[v.oid], Inst) and isinstance(st.heap[v.oid].cls, Cls):
        f = I.find_attr(st.heap[v.oid].cls, "__next__")
        if f is not None and len(args) == 1:
            return I.call(st, Bound(f, v), [], {}, node)
    if isinstance(v, Ref) and isinstance(st.heap[v.oid], ListO):
        o = st.heap[v.oid]
        if o.prefix is None and o.sym is None:
            from .interp import CondItem
            if not o.items:
                if len(args) > 1:
                    return args[1]
                I.exc(st, "StopIteration", None, node)
            if not isinstance(o.items[0], CondItem):
                st.heap[v.oid] = replace(o, items=o.items[1:])
                return o.items[0]
    I.undecided("next", node)


def object_new_h(I, st, args, kw, node):
    c = I.pick(st, args[0])
    if isinstance(c, Cls):
        return I.new(st, Inst(c, {}))
    I.undecided("object.__new__", node)


def namedtuple_h(I, st, args, kw, node):
    """collections.namedtuple(name, fields) and typing.NamedTuple(name, [(field, type), ...])"""
    f = I.pick(st, args[1]) if len(args) > 1 else kw.get("field_names", kw.get("fields"))
    typed = False
    if isinstance(f, Str) and f.known:
        names = f.s.replace(",", " ").split()
    else:
        its = I.iter_items(st, f, node) if f is not None else None
        names = [x.s if isinstance(x, Str) and x.known else x.items[0].s if isinstance(x, Tup) and isinstance(x.items[0], Str) else None for x in its or [None]]
    if None in names or not isinstance(args[0], Str):
        I.undecided("namedtuple", node)
    attrs = {}
    if "defaults" in kw:
        ds = I.iter_items(st, I.pick(st, kw["defaults"]), node)
        if ds is None:
            I.undecided("namedtuple", node)
        attrs = dict(zip(names[len(names) - len(ds):], ds))
    m = I.modules["rk.prelude"]
    import ast
    return Cls(args[0].s if args[0].known else "namedtuple", m, ast.parse("class A: pass").body[0], (Ext("typing.NamedTuple"),), attrs, {"names": names})


def nt_replace_h(I, st, args, kw, node):
    v = args[0]
    names = I.tuple_fields(v.cls)
    if any(k not in names for k in kw):
        I.exc(st, "ValueError", None, node)
    return Tup(tuple(kw.get(k, x) for k, x in zip(names, v.items)), v.cls)


def nt_asdict_h(I, st, args, kw, node):
    return I.new(st, DictO({Str(k): x for k, x in zip(I.tuple_fields(args[0].cls), args[0].items)}))


def inst_dict(I, st, ref, fn, node):
    """apply an operation to the attributes of an instance as a dictionary, and store them back"""
    from .interp import UNSET
    f = st.heap[ref.oid].f
    tmp = I.new(st, DictO({Str(k): x for k, x in f.items() if x is not UNSET}))
    r = fn(tmp)
    d = st.heap[tmp.oid].d
    for k, x in d.items():
        if not (isinstance(k, Str) and k.known):
            I.undecided("__dict__ key", node)
        if f.get(k.s) is not x:
            h = st.heap[ref.oid]
            st.heap[ref.oid] = Inst(h.cls, {**h.f, k.s: x})
            I.ev(st, "setattr", node, obj=ref, name=k.s, val=x)
    gone = [k for k in f if Str(k) not in d and f[k] is not UNSET]
    if gone:
        h = st.heap[ref.oid]
        st.heap[ref.oid] = Inst(h.cls, {k: (UNSET if k in gone else x) for k, x in h.f.items()})
    return r


def instdict_h(name):
    def h(I, st, args, kw, node):
        return inst_dict(I, st, args[0], lambda t: I.call_ext(st, "dict." + name, [t] + list(args[1:]), kw, node), node)
    return h


def dataclass_replace_h(I, st, args, kw, node):
    v = I.pick(st, args[0])
    o = st.heap[v.oid]
    from .interp import UNSET
    names = []
    for k in reversed(o.cls.mro()):
        if isinstance(k, Cls):
            names += [s.target.id for s in k.node.body if isinstance(s, __import__("ast").AnnAssign) and s.target.id not in names]
    f = {k: x for k, x in o.f.items() if k in names and x is not UNSET}
    f.update(kw)
    return I.construct(st, o.cls, [], f, node)


def comb_h(fn, n):
    def h(I, st, args, kw, node):
        import math
        ps = [a.p.const() if isinstance(a, Num) else None for a in args]
        if len(ps) == n and None not in ps and all(p == int(p) and p >= 0 for p in ps):
            return num(getattr(math, fn)(*[int(p) for p in ps]))
        return I.opaque_value(fn)
    return h


def slice_h(I, st, args, kw, node):
    a = [NONE] * 3
    if len(args) == 1:
        a[1] = args[0]
    else:
        a[:len(args)] = args
    return SliceV(*a)


def install(I):
    R = lambda names, h: N.reg(I, names, h)
    R0 = lambda names, h: N.reg(I, names, h, lift=False)
    R0("builtins.isinstance", isinstance_h)
    R0("builtins.issubclass", issubclass_h)
    R("builtins.type", type_h)
    for t in ("float", "int", "complex"):
        R("builtins." + t, number_h(t, True))
    R("numpy.float64 numpy.double", number_h("float"))
    R("numpy.complex128 numpy.cdouble", number_h("complex"))
    for t, k in (("float16", "float"), ("float32", "float"), ("single", "float"), ("half", "float"), ("complex64", "complex"), ("csingle", "complex")):
        R("numpy." + t, narrow_h(t, number_h(k)))
    R("numpy.int64 numpy.int32 numpy.intp", number_h("int"))
    R("builtins.bool numpy.bool_", bool_h)
    R("builtins.str builtins.repr", str_h)
    R("builtins.range", range_h)
    for k in ("list", "tuple", "set", "frozenset"):
        R("builtins." + k, container_h(k))
    R("builtins.iter", iter_h)
    R("builtins.next", next_h)
    R0("builtins.object.__new__", object_new_h)
    R0("collections.namedtuple typing.NamedTuple", namedtuple_h)
    R0("namedtuple._replace", nt_replace_h)
    R0("namedtuple._asdict", nt_asdict_h)
    for k in ("get", "items", "keys", "values", "update", "pop", "setdefault"):
        R0("instdict." + k, instdict_h(k))
    R("dataclasses.replace", dataclass_replace_h)
    R("builtins.slice", slice_h)
    R("math.factorial scipy.special.factorial", comb_h("factorial", 1))
    R("math.comb scipy.special.comb", comb_h("comb", 2))
    R("builtins.dict", dict_h)
    R("builtins.zip", zip_h)
    R("builtins.enumerate", enumerate_h)
    R("builtins.map", map_h)
    R("builtins.filter", filter_h)
    R("builtins.reversed", reversed_h)
    R("builtins.sorted", sorted_h)
    R("builtins.getattr", getattr_h)
    R("builtins.setattr", setattr_h)
    R("builtins.delattr", delattr_h)
    R("builtins.hasattr", hasattr_h)
    R("object.__setattr__ builtins.object.__setattr__", obj_setattr_h)
    R("builtins.callable", callable_h)
    R("builtins.sum math.fsum", sum_h)
    R("builtins.round numpy.round", round_h)
    R("math.ceil", intfn(ceil_p))
    R("math.floor math.trunc", intfn(floor_p))
    R("builtins.divmod", divmod_h)
    R0("builtins.print builtins.object.__init__ builtins.object.__init_subclass__ warnings.warn warnings.simplefilter warnings.filterwarnings numpy.seterr sys.stdout.write sys.stdout.flush", none_h)
    R0("builtins.property functools.cached_property", prop_h)
    R0("property.setter", prop_set_h)
    R0("property.getter", prop_get_h)
    R0("property.deleter", lambda I, st, a, k, n: a[0])
    R0("builtins.staticmethod", lambda I, st, a, k, n: StaticM(a[0]))
    R0("builtins.classmethod", lambda I, st, a, k, n: ClassM(a[0]))
    R0("abc.abstractmethod typing.overload typing.final functools.lru_cache functools.cache rk.identity numpy.real_if_close", identity_h)
    R0("typing.cast", lambda I, st, a, k, n: a[1])
    R0("functools.wraps", wraps_h)
    R0("builtins.id", id_h)
    R0("dataclasses.field", field_h)
    R0("dataclasses.dataclass", opaque_ctx("dataclass"))
    R("builtins.vars", vars_h)
    for n in ("numpy.errstate", "warnings.catch_warnings", "contextlib.nullcontext", "numpy.printoptions"):
        R0(n, opaque_ctx("context"))
    R0("contextlib.suppress", lambda I, st, a, k, n: Opaque(("suppress", Tup(tuple(a)))))
    R0("contextlib.contextmanager", lambda I, st, a, k, n: replace(a[0], ctx=True) if isinstance(a[0], Func) and a[0].isgen else Opaque("contextmanager"))
    R0("typing.TypeVar typing.NewType", opaque_ctx("typing"))
    for n in ("time.time", "time.perf_counter", "time.monotonic"):
        R0(n, lambda I, st, a, k, nd: Num(P(T.fresh("clock", real=True)), "float"))
    for k, v in {"numpy.pi": Num(PI, "float"), "math.pi": Num(PI, "float"), "numpy.inf": Num(P(T.INF_), "float"), "math.inf": Num(P(T.INF_), "float"),
                 "numpy.nan": Num(P(T.NAN_), "float"), "math.nan": Num(P(T.NAN_), "float"), "numpy.newaxis": NONE,
                 "numpy.e": Num(T.exp(ONE), "float"), "math.e": Num(T.exp(ONE), "float"), "typing.TYPE_CHECKING": Bool(FALSE),
                 "numpy.Inf": Num(P(T.INF_), "float"), "numpy.NaN": Num(P(T.NAN_), "float")}.items():
        I.exts[k] = v
    from fractions import Fraction as Fr
    eps = Num(P(Fr(1, 2 ** 52)), "float")
    I.handlers["numpy.finfo"] = lambda I, st, a, k, n: I.new(st, Inst(Ext("numpy.finfo"), {"eps": eps, "max": Num(P(T.sym("float.max", real=True, pos=True)), "float"), "tiny": Num(P(T.sym("float.tiny", real=True, pos=True)), "float")}))
    I.exts["sys.float_info.epsilon"] = eps
    I.exts["enum.auto"] = None
    del I.exts["enum.auto"]
    I.handlers["enum.auto"] = lambda I, st, a, k, n: Opaque(("enum.auto", next(T._fresh)))
    from . import containers
    containers.install(I)
