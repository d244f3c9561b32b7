"""Elementwise numpy/math functions."""
from __future__ import annotations
from .terms import *
from .terms import P, Fraction
from . import terms as T
from .values import *
from .arrays import *
from .arrays import ew, put, as_arr, write, numify
from .ops import divide, power_p, floor_p, ceil_p, mod_p, condify, is_int_poly, arith, compare, cmpx, unop
from . import npmodel as N

HALF = P(Fraction(1, 2))


def app1(name):
    return lambda p: T.mk_app(name, (p,))


def e_exp(p):
    return T.exp(p)


def e_cosh(p):
    return (T.exp(p) + T.exp(-p)) * HALF


def e_sinh(p):
    return (T.exp(p) - T.exp(-p)) * HALF


def e_tanh(p):
    return divide(T.exp(p) - T.exp(-p), T.exp(p) + T.exp(-p))


def e_cos(p):
    return (T.exp(IMAG * p) + T.exp(-IMAG * p)) * HALF


def e_sin(p):
    return (T.exp(IMAG * p) - T.exp(-IMAG * p)) * HALF * (-IMAG)


def e_tan(p):
    return divide(e_sin(p), e_cos(p))


def e_expm1(p):
    return T.exp(p) - ONE


def e_sqrt(p):
    return T.power(p, Fraction(1, 2))


def e_log(p):
    c = p.const()
    if c == 1:
        return ZERO
    s = p.single()
    if s is not None and s[0] == 1 and not s[1][0] and s[1][1] is not None and T.is_real(s[1][1]):
        return s[1][1]
    return P(Atom("app", "log", (p,)))


def e_log1p(p):
    return e_log(ONE + p)


def e_sign(p):
    c = p.const()
    if c is not None:
        return P((c > 0) - (c < 0))
    return P(Atom("app", "sign", (p,)))


def e_floor(p):
    return floor_p(None, None, p)


def e_ceil(p):
    return ceil_p(None, None, p)


def e_trunc(p):
    c = p.const()
    if c is not None:
        return P(int(c))
    return p if is_int_poly(p) else P(Atom("app", "trunc", (p,)))


def e_round(p):
    c = p.const()
    if c is not None:
        return P(round(c))
    return p if is_int_poly(p) else P(Atom("app", "round", (p,)))


def e_angle(p):
    return P(Atom("app", "angle", (p,)))


UNARY = {
    "exp": (e_exp, None, None), "expm1": (e_expm1, None, None), "sqrt": (e_sqrt, "float+", None),
    "cosh": (e_cosh, None, None), "sinh": (e_sinh, None, None), "tanh": (e_tanh, None, None),
    "cos": (e_cos, None, None), "sin": (e_sin, None, None), "tan": (e_tan, None, None),
    "log": (e_log, "float+", None), "log1p": (e_log1p, "float+", None), "log2": (app1("log2"), "float+", None), "log10": (app1("log10"), "float+", None),
    "abs": (T.absval, "abs", None), "absolute": (T.absval, "abs", None), "fabs": (T.absval, "abs", None),
    "conj": (T.conj, None, None), "conjugate": (T.conj, None, None),
    "real": (T.real_part, "float", None), "imag": (T.imag_part, "float", None), "angle": (e_angle, "float", None),
    "sign": (e_sign, None, None), "floor": (e_floor, None, None), "ceil": (e_ceil, None, None), "trunc": (e_trunc, None, None),
    "rint": (e_round, None, None), "fix": (e_trunc, None, None), "square": (lambda p: p * p, None, None),
    "reciprocal": (lambda p: divide(ONE, p), "float+", None), "negative": (lambda p: -p, None, "neg"), "positive": (lambda p: p, None, "neg"),
    "arctan": (app1("arctan"), "float+", None), "sinc": (app1("sinc"), "float+", None), "cbrt": (lambda p: T.power(p, Fraction(1, 3)), "float+", None),
    "deg2rad": (lambda p: p * PI / P(180), "float+", None), "radians": (lambda p: p * PI / P(180), "float+", None),
}
NAMES = {"absolute": "abs", "fabs": "abs", "conjugate": "conj"}


def out_where(I, st, r, kw, node, prev_default=True):
    """out= and where= of a ufunc"""
    out = kw.get("out")
    wh = kw.get("where")
    if isinstance(out, Tup) and len(out.items) == 1:
        out = out.items[0]
    if out is None or isinstance(out, NoneV):
        if wh is not None and not (isinstance(wh, Bool) and wh.c is TRUE):
            w = as_arr(I, st, wh, node)
            un = Num(I.opq("uninitialised"), "float")
            x = ew(I, st, "where", lambda c, a, b: T.ite(condify(c), numify(a), numify(b)), [w, as_arr(I, st, r, node), un], node, boolean="in")
            return put(I, st, x)
        return r
    out = I.pick(st, out)
    if isinstance(out, IteV):
        return I.lift(st, out, lambda s, x: out_where(I, s, r, {**kw, "out": x}, node))
    if wh is not None and not (isinstance(wh, Bool) and wh.c is TRUE):
        o = st.heap[out.oid]
        x = ew(I, st, "where", lambda c, a, b: T.ite(condify(c), numify(a), numify(b)), [as_arr(I, st, wh, node), as_arr(I, st, r, node), o], node, boolean="in")
        r = put(I, st, x)
    from .ops import setitem
    setitem(I, st, out, EllipsisV(), r, node)
    return out


def want_dtype(I, st, r, kw, node):
    d = kw.get("dtype")
    if d is None or isinstance(d, NoneV):
        return r
    n = N.created(I, st, d, node)
    a = as_arr(I, st, r, node)
    if n is None or a is None:
        return r
    return put(I, st, N.cast(I, st, a, n, node))


def unary(name):
    fn, ty, linear = UNARY[name]
    nm = NAMES.get(name, name)

    def h(I, st, args, kw, node):
        a = as_arr(I, st, args[0], node)
        if a is None:
            return I.opaque_value(("elementwise", name))
        dt = a.ty if isinstance(a, Num) else "int" if isinstance(a, Bool) else a.dtype
        t = ty
        if ty == "float+":
            t = "float" if dt in ("int", "bool") else dt
        elif ty == "abs":
            t = dt if dt in ("int", "float") else "float"
        elif ty is None and name in ("exp", "expm1", "cosh", "sinh", "tanh", "cos", "sin", "tan") and dt in ("int", "bool"):
            t = "float"
        if name in ("floor", "ceil", "trunc", "rint", "fix") and dt in ("complex", "any") and isinstance(a, Num):
            t = "float"
        if isinstance(a, Arr) and a.rep == "op" and name in ("exp", "sqrt") and False:
            pass
        if isinstance(a, Arr) and a.rep in ("op",) and linear is None and name not in ("conj",):
            pass
        if len(args) > 1:
            kw = {**kw, "out": args[1]}
        if name == "reciprocal":
            I.ev(st, "div", node, num=num(1), den=a)
        r = ew(I, st, nm, fn, [a], node, ty=t, linear=linear)
        if t is None and isinstance(r, Arr):
            r = replace(r, dtype=dt)
        return want_dtype(I, st, out_where(I, st, put(I, st, r), kw, node), kw, node)
    return h


def binary(op):
    def h(I, st, args, kw, node):
        x, y = as_arr(I, st, args[0], node), as_arr(I, st, args[1], node)
        if x is None or y is None:
            return I.opaque_value(("elementwise", op))
        if len(args) > 2:
            kw = {**kw, "out": args[2]}
        if op == "Div":
            # numpy division never raises
            if isinstance(y, Num) and y.p.const() == 0:
                y = Num(y.p, "float")
                r = put(I, st, ew(I, st, "div", divide, [x, y], node, ty=None))
                return out_where(I, st, r, kw, node)
        r = put(I, st, arith(I, st, op, x, y, node))
        return want_dtype(I, st, out_where(I, st, r, kw, node), kw, node)
    return h


def cmp_h(op):
    def h(I, st, args, kw, node):
        r = compare(I, st, op, args[0], args[1], node)
        return out_where(I, st, r, kw, node)
    return h


def test_h(name):
    def f(p):
        p = numify(p)
        if name == "isfinite":
            return mk_and(mk_not(T.mk_capp("isnan", p)), mk_not(T.mk_capp("isinf", p)))
        if name == "isnan" or name == "isinf":
            return T.mk_capp(name, p)
        return T.mk_capp(name, p)

    def h(I, st, args, kw, node):
        a = as_arr(I, st, args[0], node)
        if a is None:
            if isinstance(args[0], (NoneV, Str)):
                I.exc(st, "TypeError", None, node)
            return Bool(T.Cond("app", name, (P(T.fresh("v")),)))
        if isinstance(a, Arr) and a.rep != "idx":
            return I.new(st, Arr(T.Cond("app", "mat" + name, (Lam(a.content, a.axes),)), a.axes, "bool"))
        return put(I, st, ew(I, st, name, f, [a], node, boolean=True))
    return h


def logical_h(name):
    def h(I, st, args, kw, node):
        xs = [as_arr(I, st, a, node) for a in args[:1 if name == "not" else 2]]
        if any(x is None for x in xs):
            return I.opaque_value(("logical", name))
        cs = {"and": lambda p, q: mk_and(condify(p), condify(q)), "or": lambda p, q: mk_or(condify(p), condify(q)),
              "xor": lambda p, q: mk_or(mk_and(condify(p), mk_not(condify(q))), mk_and(mk_not(condify(p)), condify(q))),
              "not": lambda p: mk_not(condify(p))}[name]
        if len(args) > len(xs):
            kw = {**kw, "out": args[len(xs)]}
        return out_where(I, st, put(I, st, ew(I, st, "logical", cs, xs, node, boolean="in")), kw, node)
    return h


def where_h(I, st, args, kw, node):
    c = as_arr(I, st, args[0], node)
    if len(args) == 1:
        if isinstance(c, Arr) and len(c.axes) == 1:
            return Tup((IndexOf(Lam(condify(c.content), c.axes)),))
        return I.opaque_value("where")
    a, b = as_arr(I, st, args[1], node), as_arr(I, st, args[2], node)
    if c is None or a is None or b is None:
        return I.opaque_value("where")
    if any(isinstance(x, Arr) and x.rep not in ("idx",) for x in (a, b, c)):
        return I.new(st, Arr(bad(I, "where on a matrix"), next(x.axes for x in (a, b, c) if isinstance(x, Arr)), "any"))
    dt = promote(*[x.ty if isinstance(x, Num) else "bool" if isinstance(x, Bool) else x.dtype for x in (a, b)])
    if isinstance(c, (Num, Bool)) and isinstance(a, (Num, Bool)) and isinstance(b, (Num, Bool)):
        cc = c.c if isinstance(c, Bool) else condify(c.p)
        if isinstance(a, Bool) and isinstance(b, Bool):
            return Bool(mk_or(mk_and(cc, a.c), mk_and(mk_not(cc), b.c)))
        return Num(T.ite(cc, numify(a.c) if isinstance(a, Bool) else a.p, numify(b.c) if isinstance(b, Bool) else b.p), dt if dt != "bool" else "int")

    def f(p, x, y):
        p = condify(p)
        if isinstance(x, Cond) and isinstance(y, Cond):
            return mk_or(mk_and(p, x), mk_and(mk_not(p), y))
        return T.ite(p, numify(x), numify(y))
    r = ew(I, st, "where", f, [c, a, b], node, ty=dt, boolean="in")
    return put(I, st, r)


def minmax2(ismax, nan):
    def f2(I, st, p, q):
        return pick_extreme(I, st, p, q, ismax, "np" if nan else None)

    def h(I, st, args, kw, node):
        x, y = as_arr(I, st, args[0], node), as_arr(I, st, args[1], node)
        if x is None or y is None:
            return I.opaque_value("maximum")
        if len(args) > 2:
            kw = {**kw, "out": args[2]}
        return out_where(I, st, put(I, st, ew(I, st, "maximum", lambda p, q: f2(I, st, p, q), [x, y], node)), kw, node)
    return h


def pick_extreme(I, st, p, q, ismax, mode):
    """mode None: first argument kept when the comparison is false (python semantics); 'np': NaN propagates"""
    if p is q:
        return p
    if mode == "np":
        if T.maybe_nan(p) or T.maybe_nan(q):
            a, b = sorted((p, q), key=lambda t: repr(t))
            return P(Atom("app", "npmax" if ismax else "npmin", (a, b)))
    c = mk_cmp("lt", p, q) if ismax else mk_cmp("lt", q, p)
    return T.ite(c, q, p)


def clip_h(I, st, args, kw, node):
    if isinstance(args[0], Ref) or True:
        a = args[0]
        lo = args[1] if len(args) > 1 else kw.get("a_min", kw.get("min", NONE))
        hi = args[2] if len(args) > 2 else kw.get("a_max", kw.get("max", NONE))
        r = a
        if not isinstance(lo, NoneV):
            r = I.call_ext(st, "numpy.maximum", [r, lo], {}, node)
        if not isinstance(hi, NoneV):
            r = I.call_ext(st, "numpy.minimum", [r, hi], {}, node)
        return out_where(I, st, r, kw, node)


def heaviside_h(I, st, args, kw, node):
    return I.opaque_value("heaviside")


def close_scalars(I, st, args, kw, names, defaults, both):
    """|p - q| within the tolerance, for scalars with known tolerances"""
    if len(args) < 2 or not all(isinstance(a, Num) for a in args[:2]) or set(kw) - set(names):
        return None
    tol = []
    for i, (n, d) in enumerate(zip(names, defaults)):
        v = kw.get(n, args[2 + i] if len(args) > 2 + i else None)
        if v is None:
            tol.append(P(d))
        elif isinstance(v, Num):
            tol.append(v.p)
        else:
            return None
    p, q = args[0].p, args[1].p
    d = T.absval(p - q)
    if both:
        near = mk_or(mk_cmp("le", d, tol[0] * T.absval(p)), mk_cmp("le", d, tol[0] * T.absval(q)), mk_cmp("le", d, tol[1]))
    else:
        near = mk_cmp("le", d, tol[1] + tol[0] * T.absval(q))
    fin = [mk_not(T.mk_capp("isinf", x)) for x in (p, q)]
    return Bool(mk_or(mk_cmp("eq", p, q), mk_and(near, *fin)))


def mathclose_h(I, st, args, kw, node):
    r = close_scalars(I, st, args, kw, ("rel_tol", "abs_tol"), (Fraction(1, 10 ** 9), Fraction(0)), True)
    return r if r is not None else I.opaque_value("isclose")


def isclose_h(I, st, args, kw, node):
    r = close_scalars(I, st, args, kw, ("rtol", "atol"), (Fraction(1, 10 ** 5), Fraction(1, 10 ** 8)), False)
    if r is not None:
        return r
    x, y = as_arr(I, st, args[0], node), as_arr(I, st, args[1], node)
    if x is None or y is None:
        return I.opaque_value("isclose")
    tol = tuple(sorted((k, repr(v)) for k, v in kw.items()))
    def f(p, q):
        if p is q and not T.maybe_nan(p):
            return TRUE
        return T.Cond("app", "isclose", (p, q, P(T.sym("tol%s" % (tol,)))))
    return put(I, st, ew(I, st, "compare", f, [x, y], node, boolean=True))


def allclose_h(I, st, args, kw, node):
    r = isclose_h(I, st, args, kw, node)
    return I.call_ext(st, "numpy.all", [r], {}, node)


def array_equal_h(I, st, args, kw, node):
    x, y = as_arr(I, st, args[0], node), as_arr(I, st, args[1], node)
    if not isinstance(x, Arr) or not isinstance(y, Arr) or kw:
        return I.opaque_value("array_equal")
    if len(x.axes) != len(y.axes):
        return Bool(FALSE)
    same = mk_and(*[mk_cmp("eq", p[0], q[0]) for p, q in zip(x.axes, y.axes)])
    if same is FALSE:
        return Bool(FALSE)
    if same is not TRUE:
        return I.opaque_value("array_equal")
    return I.call_ext(st, "numpy.all", [I.call_ext(st, "numpy.equal", [args[0], args[1]], {}, node)], {}, node)


def iscomplexobj_h(I, st, args, kw, node):
    a = as_arr(I, st, args[0], node)
    if a is None:
        return Bool(FALSE) if not isinstance(args[0], Opaque) else Bool(T.Cond("app", "iscomplex", (P(T.fresh("v")),)))
    dt = a.ty if isinstance(a, Num) else "int" if isinstance(a, Bool) else a.dtype
    if dt == "any":
        return Bool(T.Cond("app", "iscomplexobj", (Lam(a.content, a.axes) if isinstance(a, Arr) else a.p,)))
    return Bool(TRUE if dt == "complex" else FALSE)


def imag_test_h(neg):
    """iscomplex: the imaginary part is not zero; isreal: it is"""
    def h(I, st, args, kw, node):
        a = as_arr(I, st, args[0], node)
        if a is None:
            return I.opaque_value("iscomplex")
        dt = a.ty if isinstance(a, Num) else "int" if isinstance(a, Bool) else a.dtype

        def f(p):
            if dt in ("bool", "int", "float"):
                c = FALSE
            else:
                q = T.imag_part(p)
                c = mk_not(mk_cmp("eq", q, ZERO)) if q is not None else T.Cond("app", "iscomplex", (p,))
            return mk_not(c) if neg else c
        return put(I, st, ew(I, st, "compare", f, [a], node, boolean=True))
    return h


ABSTRACT = {"generic": {"bool", "int", "float", "complex"}, "number": {"int", "float", "complex"}, "integer": {"int"}, "signedinteger": {"int"},
            "inexact": {"float", "complex"}, "floating": {"float"}, "complexfloating": {"complex"}, "bool_": {"bool"}}


def issubdtype_h(I, st, args, kw, node):
    d = N.dtype_name(I, st, args[0])
    t = I.pick(st, args[1])
    n = t.path.split(".")[-1] if isinstance(t, Ext) else None
    want = ABSTRACT.get(n)
    if want is None:
        t = N.dtype_name(I, st, t)
        want = {t} if t else None
    if d is None or want is None:
        return Bool(T.Cond("app", "opq", (P(T.fresh("dtype")),)))
    if d == "any":
        return Bool(TRUE if want >= {"float", "complex"} and "int" in want else T.Cond("app", "isdtype", (P(T.sym("dt:any")), P(T.sym("dt:%s" % n)))))
    return Bool(TRUE if d in want else FALSE)


def ops_getitem(*a):
    from .ops import getitem
    return getitem(*a)


def install(I):
    R = lambda names, h: N.reg(I, names, h)
    for n in UNARY:
        R("numpy." + n, unary(n))
        if n not in ("abs",):
            h = N.lifted(unary(n))
            if n in ("log", "log10", "log2", "sqrt"):
                from .pymodel import domain
                h = domain(n, h)
            I.handlers.setdefault("math." + n, h)
    for n in ("exp", "sqrt", "cos", "sin", "cosh", "sinh", "tanh", "log"):
        R("cmath." + n, unary(n))
    R("math.fabs builtins.abs operator.abs number.__abs__", unary("abs"))
    R("number.conjugate number.conj ndarray.conj ndarray.conjugate", unary("conj"))
    for op, ns in {"Add": "add", "Sub": "subtract", "Mult": "multiply", "Div": "divide true_divide", "Pow": "power float_power", "FloorDiv": "floor_divide", "Mod": "mod remainder"}.items():
        for n in ns.split():
            R("numpy." + n, binary(op))
    R("operator.add", binary("Add"))
    R("operator.sub", binary("Sub"))
    R("operator.mul", binary("Mult"))
    R("operator.truediv", binary("Div"))
    R("math.pow builtins.pow operator.pow", binary("Pow"))
    R("math.fmod", binary("Mod"))
    for op, n in {"Lt": "less", "LtE": "less_equal", "Gt": "greater", "GtE": "greater_equal", "Eq": "equal", "NotEq": "not_equal"}.items():
        R("numpy." + n, cmp_h(op))
        o2 = {"Lt": "lt", "LtE": "le", "Gt": "gt", "GtE": "ge", "Eq": "eq", "NotEq": "ne"}[op]
        R("operator.%s operator.__%s__" % (o2, o2), cmp_h(op))
    R("operator.not_", lambda I, st, args, kw, node: Bool(mk_not(I.truth(st, args[0], node))))
    R("operator.truth", lambda I, st, args, kw, node: Bool(I.truth(st, args[0], node)))
    R("operator.is_", lambda I, st, args, kw, node: compare(I, st, "Is", args[0], args[1], node))
    R("operator.is_not", lambda I, st, args, kw, node: compare(I, st, "IsNot", args[0], args[1], node))
    R("operator.getitem", lambda I, st, args, kw, node: ops_getitem(I, st, args[0], args[1], node))
    for n in ("isnan", "isinf", "isfinite"):
        R("numpy.%s math.%s" % (n, n), test_h(n))
    for n in ("and", "or", "xor", "not"):
        R("numpy.logical_" + n, logical_h(n))
    R("numpy.bitwise_and", logical_h("and"))
    R("numpy.bitwise_or", logical_h("or"))
    R("numpy.invert numpy.bitwise_not", logical_h("not"))
    R("numpy.where", where_h)
    R("numpy.maximum", minmax2(True, True))
    R("numpy.minimum", minmax2(False, True))
    R("numpy.fmax", minmax2(True, True))
    R("numpy.fmin", minmax2(False, True))
    R("numpy.clip ndarray.clip", clip_h)
    R("numpy.isclose", isclose_h)
    R("math.isclose", mathclose_h)
    R("numpy.allclose", allclose_h)
    R("numpy.array_equal", array_equal_h)
    R("numpy.issubdtype", issubdtype_h)
    R("numpy.iscomplexobj", iscomplexobj_h)
    R("numpy.iscomplex", imag_test_h(False))
    R("numpy.isreal", imag_test_h(True))
    R("numpy.isrealobj", lambda I, st, a, k, n: Bool(mk_not(iscomplexobj_h(I, st, a, k, n).c)))
