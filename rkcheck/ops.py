"""Operators, comparison, indexing, attribute access of arrays."""
from __future__ import annotations
from .terms import *
from .terms import P, Fraction
from . import terms as T
from .values import *
from .arrays import *
from .arrays import ew, put, as_arr, write

OPN = {"Add": "add", "Sub": "add", "Mult": "mul", "Div": "div", "Pow": "pow", "FloorDiv": "floordiv", "Mod": "mod", "MatMult": "matmul"}


def tymul(a, b):
    return promote(a, b)


def floor_p(I, st, p):
    c = p.const()
    if c is not None:
        return P(c.numerator // c.denominator)
    q, r = int_part(p)
    if q is not None:
        return q + floor_p(I, st, r)
    return P(Atom("app", "floor", (p,)))


def int_part(p):
    """(integer-valued monomials, rest) when both the split is proper and the rest is not"""
    q = Poly({m: c for m, c in p.t.items() if m != T.EMPTY and is_int_poly(Poly({m: c}))})
    return (q, p - q) if q.t else (None, p)


def ceil_p(I, st, p):
    c = p.const()
    if c is not None:
        return P(-((-c.numerator) // c.denominator))
    q, r = int_part(p)
    if q is not None:
        return q + ceil_p(I, st, r)
    return P(Atom("app", "ceil", (p,)))


def is_int_poly(p):
    for (pw, ex), c in p.t.items():
        if c.denominator != 1 or ex is not None:
            return False
        for a, e in pw:
            if e.denominator != 1 or e < 0 or not is_int_atom(a):
                return False
    return True


def is_int_atom(a):
    if a.kind == "sym":
        return T.SYMATTR.get(a.args[0], {}).get("int", False)
    if a.kind == "idx":
        return True
    if a.kind == "app":
        return a.args[0] in ("floor", "ceil", "count", "len", "rangelen", "round") or a.args[0] in T.BITS or a.args[0] == "mod" and all(is_int_poly(x) for x in a.args[1])
    if a.kind == "ite":
        return is_int_poly(a.args[1]) and is_int_poly(a.args[2])
    return False


def mod_p(I, st, a, b):
    ca, cb = a.const(), b.const()
    if ca is not None and cb is not None and cb != 0:
        return P(ca - cb * ((ca / cb).numerator // (ca / cb).denominator))
    if cb is not None and cb != 0 and is_int_poly(a):
        # drop multiples
        d = {}
        for m, c in a.t.items():
            r = c - cb * ((c / cb).numerator // (c / cb).denominator)
            if r:
                d[m] = r
        a = Poly(d)
        if a.const() is not None:
            return a
    return P(Atom("app", "mod", (a, b)))


def power_p(a, b):
    """a**b elementwise"""
    c = b.const()
    if c is not None:
        return T.power(a, c)
    ca = a.const()
    if ca == -1 and is_int_poly(b):
        return T.exp(IMAG * PI * b)
    if ca is not None and ca == 1:
        return ONE
    s = a.single()
    # (c*x)^n with positive pieces stays a symbolic power; products are split so that equal powers meet
    if s is not None and is_int_poly(b):
        out = ONE
        cf, (pw, ex) = s
        if cf != 1:
            out = out * (T.exp(IMAG * PI * b) if cf == -1 else P(Atom("app", "pow", (P(cf), b))))
        for at, e in pw:
            out = out * P(Atom("app", "pow", (P(at), b * e)))
        if ex is not None:
            out = out * T.exp(ex * b)
        return out
    return P(Atom("app", "pow", (a, b)))


def binop(I, st, op, a, b, node):
    a, b = I.pick(st, a), I.pick(st, b)
    if isinstance(a, IteV) or isinstance(b, IteV):
        aa, bb = as_arr(I, st, a, node), as_arr(I, st, b, node)
        if aa is None or bb is None or (isinstance(a, IteV) and not (isinstance(aa, (Num, Bool, Arr)))):
            if isinstance(a, IteV):
                return I.lift(st, a, lambda s, x: binop(I, s, op, x, b, node))
            return I.lift(st, b, lambda s, x: binop(I, s, op, a, x, node))
    # sequences and texts
    if isinstance(a, Str) or isinstance(b, Str):
        return str_op(I, st, op, a, b, node)
    if op == "Add" and isinstance(a, Tup) and isinstance(b, Tup):
        return Tup(a.items + b.items)
    if op == "Mult" and isinstance(a, Tup) and isinstance(b, Num) and b.p.const() is not None:
        return Tup(a.items * int(b.p.const()))
    if op == "Mult" and isinstance(b, Tup) and isinstance(a, Num) and a.p.const() is not None:
        return Tup(b.items * int(a.p.const()))
    la = isinstance(a, Ref) and isinstance(st.heap[a.oid], ListO)
    lb = isinstance(b, Ref) and isinstance(st.heap[b.oid], ListO)
    if op == "Add" and la and lb:
        x, y = st.heap[a.oid], st.heap[b.oid]
        if y.prefix is None and y.sym is None:
            return I.new(st, ListO(x.items + y.items, x.prefix, x.sym, x.kind))
        return I.new(st, ListO((), ("cat", next(T._fresh))))
    if op == "Mult" and (la and isinstance(b, Num) or lb and isinstance(a, Num)):
        x, k = (st.heap[a.oid], b) if la else (st.heap[b.oid], a)
        if k.p.const() is not None and x.prefix is None and x.sym is None:
            return I.new(st, ListO(x.items * max(0, int(k.p.const()))))
        if len(x.items) == 1 and x.prefix is None and x.sym is None:
            return I.new(st, ListO((), None, Seq(x.items[0], Atom("idx", "rep%d" % next(T._fresh)), k.p)))
        return I.new(st, ListO((), ("rep", next(T._fresh))))
    for x in (a, b):
        if isinstance(x, NoneV) or isinstance(x, (Func, Cls, Bound)):
            I.exc(st, "TypeError", None, node)
        if isinstance(x, Ref) and isinstance(st.heap[x.oid], Inst):
            o = st.heap[x.oid]
            m = {"Add": "__add__", "Sub": "__sub__", "Mult": "__mul__", "Div": "__truediv__", "MatMult": "__matmul__"}.get(op)
            f = I.find_attr(o.cls, m) if m else None
            if f is not None and x is a:
                return I.call(st, Bound(f, a), [b], {}, node)
            return I.opaque_value(("op on object", op))
    if op in ("BitAnd", "BitOr", "BitXor", "LShift", "RShift"):
        return bit_op(I, st, op, a, b, node)
    if op == "BitOr" and isinstance(a, (Ext, Cls, NoneV)):
        return Opaque("union type")
    x, y = as_arr(I, st, a, node), as_arr(I, st, b, node)
    if x is None or y is None:
        if isinstance(a, (Ext, Cls)) or isinstance(b, (Ext, Cls)):
            return Opaque("type expression")
        return I.opaque_value(("binop", op))
    if op == "MatMult":
        from . import linalg
        return linalg.dot(I, st, x, y, node)
    return put(I, st, arith(I, st, op, x, y, node))


ROUND = ("Add", "Sub", "Mult", "Div")


def arith(I, st, op, x, y, node):
    r = arith_(I, st, op, x, y, node)
    if I.rounded and op in ROUND and isinstance(r, Num) and r.ty not in ("int", "complex") and r.p.const() is None and r.p.atom() is None:
        return replace(r, p=P(Atom("app", "fl", (r.p,))))
    return r


def arith_(I, st, op, x, y, node):
    if op == "Add":
        return ew(I, st, "add", lambda p, q: p + q, [x, y], node, linear="add")
    if op == "Sub":
        return ew(I, st, "add", lambda p, q: p - q, [x, y], node, linear="add")
    if op == "Mult":
        return ew(I, st, "mul", lambda p, q: p * q, [x, y], node, linear="mul")
    if op == "Div":
        t = promote("float", x.ty if isinstance(x, Num) else x.dtype if isinstance(x, Arr) else "float",
                    y.ty if isinstance(y, Num) else y.dtype if isinstance(y, Arr) else "float")
        I.ev(st, "div", node, num=x, den=y)
        if isinstance(y, (Num, Bool)) and isinstance(x, (Num, Bool)):
            py = y.p if isinstance(y, Num) else numify(y.c)
            if py.const() == 0 and not (isinstance(y, Num) and y.ty == "npfloat"):
                I.exc(st, "ZeroDivisionError", None, node)
        return ew(I, st, "div", divide, [x, y], node, ty=t, linear="div" if isinstance(x, Arr) else None)
    if op == "Pow":
        t = None
        if isinstance(y, Num) and y.p.const() is not None and y.p.const().denominator != 1 or isinstance(y, Num) and y.ty == "float":
            t = promote("float", x.ty if isinstance(x, Num) else x.dtype if isinstance(x, Arr) else "float")
        return ew(I, st, "power", power_p, [x, y], node, ty=t)
    if op == "FloorDiv":
        return ew(I, st, "floordiv", lambda p, q: floor_p(I, st, divide(p, q)), [x, y], node)
    if op == "Mod":
        return ew(I, st, "mod", lambda p, q: mod_p(I, st, p, q), [x, y], node)
    I.undecided("operator %s" % op, node)


def divide(p, q):
    if q is ZERO:
        return P(Atom("app", "div0", (p,)))
    return p / q


def bit_op(I, st, op, a, b, node):
    if isinstance(a, Bool) and isinstance(b, Bool):
        f = {"BitAnd": mk_and, "BitOr": mk_or}.get(op)
        if f:
            return Bool(f(a.c, b.c))
        if op == "BitXor":
            return Bool(mk_or(mk_and(a.c, mk_not(b.c)), mk_and(mk_not(a.c), b.c)))
    if isinstance(a, Num) and isinstance(b, Num) and a.p.const() is not None and b.p.const() is not None:
        x, y = int(a.p.const()), int(b.p.const())
        return num({"BitAnd": x & y, "BitOr": x | y, "BitXor": x ^ y, "LShift": x << y, "RShift": x >> y}[op])
    if isinstance(a, Num) and isinstance(b, Num) and (a.ty in ("float", "complex") or b.ty in ("float", "complex")):
        I.exc(st, "TypeError", None, node)
    if isinstance(a, Num) and isinstance(b, Num):
        k = b.p.const()
        if op == "BitAnd" and k is None:
            a, b, k = b, a, a.p.const()
        if k is not None and k >= 0:
            k = int(k)
            if op == "BitAnd" and k & (k + 1) == 0:
                return binop(I, st, "Mod", a, num(k + 1), node)
            if op == "LShift":
                return binop(I, st, "Mult", a, num(2 ** k), node)
            if op == "RShift":
                return binop(I, st, "FloorDiv", a, num(2 ** k), node)
        return Num(T.mk_app("bit" + op, (a.p, b.p)), "int")
    x, y = as_arr(I, st, a, node), as_arr(I, st, b, node)
    if x is None or y is None:
        return Opaque(("bitop", op))
    def f(p, q):
        p, q = condify(p), condify(q)
        return {"BitAnd": mk_and(p, q), "BitOr": mk_or(p, q), "BitXor": mk_or(mk_and(p, mk_not(q)), mk_and(mk_not(p), q))}[op]
    return put(I, st, ew(I, st, "bit", f, [x, y], node, boolean="in"))


def condify(p):
    return p if isinstance(p, Cond) else mk_not(mk_cmp("eq", p, ZERO))


def str_op(I, st, op, a, b, node):
    if op == "Mod" and isinstance(a, Str):
        I.ev(st, "format", node, style="%", spec=a.s if a.known else None, val=b, conv=None)
        return Str(("fmt", next(T._fresh)), (a, b))
    if op == "Add" and isinstance(a, Str) and isinstance(b, Str):
        if a.known and b.known:
            return Str(a.s + b.s)
        return Str(("cat", next(T._fresh)), (a, b))
    if op == "Mult":
        s, k = (a, b) if isinstance(a, Str) else (b, a)
        if s.known and isinstance(k, Num) and k.p.const() is not None:
            return Str(s.s * int(k.p.const()))
        return Str(("rep", next(T._fresh)))
    I.exc(st, "TypeError", None, node)


def unop(I, st, op, v, node):
    v = I.pick(st, v)
    if isinstance(v, IteV):
        x = as_arr(I, st, v, node)
        if x is None:
            return I.lift(st, v, lambda s, q: unop(I, s, op, q, node))
    else:
        x = as_arr(I, st, v, node)
    if x is None:
        if isinstance(v, (NoneV, Str)):
            I.exc(st, "TypeError", None, node)
        return I.opaque_value(("unop", op))
    if op == "USub":
        return put(I, st, ew(I, st, "neg", lambda p: -p, [x], node, linear="neg"))
    if op == "UAdd":
        return put(I, st, ew(I, st, "pos", lambda p: p, [x], node, linear="neg"))
    if op == "Invert":
        if isinstance(x, Num):
            return Num(-x.p - 1, "int")
        return put(I, st, ew(I, st, "invert", lambda p: mk_not(condify(p)), [x], node, boolean="in"))
    I.undecided("unary %s" % op, node)


def augop(I, st, op, cur, v, node):
    """cur op= v: arrays are changed in place"""
    cur = I.pick(st, cur)
    if isinstance(cur, Ref):
        o = st.heap[cur.oid]
        if isinstance(o, Arr):
            if op == "MatMult":
                I.undecided("in-place matmul", node)
            if op in ("BitAnd", "BitOr", "BitXor"):
                r = bit_op(I, st, op, cur, v, node)
                r = st.heap[r.oid]
            else:
                y = as_arr(I, st, v, node)
                if y is None:
                    y = Num(I.opq("augop"), "any")
                r = arith(I, st, op, o, y, node)
            if isinstance(r, (Num, Bool)):
                r = replace(o, content=r.p if isinstance(r, Num) else r.c)
            if r.dtype in ("complex",) and o.dtype in ("float", "int") :
                I.exc(st, "TypeError", Str("cannot cast complex into real array in place"), node)
            if r.dtype == "any" and o.dtype in ("float", "int"):
                I.ev(st, "cast-any", node)
            write(I, st, cur, r, node)
            return cur
        if isinstance(o, ListO) and op == "Add":
            I.ev(st, "list-extend", node, obj=cur, val=v)
            list_extend(I, st, cur, v, node)
            return cur
    if isinstance(cur, IteV) and any(isinstance(x, Ref) for _, x in I.alts(st, cur)):
        return I.lift(st, cur, lambda s, x: augop(I, s, op, x, v, node))
    return binop(I, st, op, cur, v, node)


def list_extend(I, st, ref, v, node):
    o = st.heap[ref.oid]
    its = I.iter_items(st, I.pick(st, v), node)
    if its is None:
        st.heap[ref.oid] = ListO((), ("extended", next(T._fresh)), None, o.kind)
    else:
        st.heap[ref.oid] = replace(o, items=o.items + tuple(its))


# ------------------------------------------------------------------------------------------ comparison
CM = {"Eq": "eq", "NotEq": "ne", "Lt": "lt", "LtE": "le", "Gt": "gt", "GtE": "ge"}


def compare(I, st, op, a, b, node):
    a, b = I.pick(st, a), I.pick(st, b)
    if op in ("Is", "IsNot"):
        c = identical(I, st, a, b)
        return Bool(c if op == "Is" else mk_not(c))
    if op in ("In", "NotIn"):
        c = contains(I, st, a, b, node)
        return Bool(c if op == "In" else mk_not(c))
    if isinstance(a, IteV):
        if not isinstance(as_arr(I, st, a, node), (Arr, Num)):
            return I.lift(st, a, lambda s, x: compare(I, s, op, x, b, node))
    if isinstance(b, IteV):
        if not isinstance(as_arr(I, st, b, node), (Arr, Num)):
            return I.lift(st, b, lambda s, x: compare(I, s, op, a, x, node))
    if op in ("Eq", "NotEq"):
        neg = op == "NotEq"
        r = equal_values(I, st, a, b, node)
        if r is not None:
            return Bool(mk_not(r) if neg else r)
    x, y = as_arr(I, st, a, node), as_arr(I, st, b, node)
    if isinstance(a, Ref) and isinstance(st.heap[a.oid], ListO) or isinstance(b, Ref) and isinstance(st.heap[b.oid], ListO):
        if not (isinstance(a, Ref) and isinstance(st.heap[a.oid], Arr) or isinstance(b, Ref) and isinstance(st.heap[b.oid], Arr)):
            x = None
    if x is None or y is None:
        for q in (a, b):
            if isinstance(q, (NoneV,)) or isinstance(q, Str) != isinstance(b if q is a else a, Str) and not isinstance(q, Opaque) and not isinstance(b if q is a else a, Opaque):
                I.exc(st, "TypeError", None, node)
        if isinstance(a, Str) and isinstance(b, Str) and a.known and b.known:
            return Bool(TRUE if {"Lt": a.s < b.s, "LtE": a.s <= b.s, "Gt": a.s > b.s, "GtE": a.s >= b.s}[op] else FALSE)
        return Bool(T.Cond("app", "opq-compare", (I.opq("compare"),)))
    if any(isinstance(q, Num) and q.ty == "complex" for q in (x, y)) and op not in ("Eq", "NotEq"):
        I.exc(st, "TypeError", None, node)
    if I.ieee and isinstance(x, Num) and isinstance(y, Num) and x.p == y.p and x.p.const() is None and op in ("Eq", "NotEq", "LtE", "GtE"):
        c = same_number(I, x.p)
        return Bool(mk_not(c) if op == "NotEq" else c)
    r = ew(I, st, "compare", lambda p, q: cmpx(op, p, q), [x, y], node)
    if isinstance(r, (Bool, Arr)):
        return put(I, st, r)
    I.undecided("comparison", node)


def same_number(I, p):
    """x == x fails exactly for NaN"""
    return mk_not(T.mk_capp("isnan", p))


def cmpx(op, p, q):
    return mk_cmp(CM[op], p, q)


def identical(I, st, a, b):
    if isinstance(a, IteV):
        return mk_or(mk_and(a.c, identical(I, st, a.a, b)), mk_and(mk_not(a.c), identical(I, st, a.b, b)))
    if isinstance(b, IteV):
        return identical(I, st, b, a)
    if isinstance(a, NoneV) or isinstance(b, NoneV):
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return T.Cond("app", "isnone", (I.opq("none"),))
        return TRUE if a == b else FALSE
    if isinstance(a, Ref) and isinstance(b, Ref):
        return TRUE if a.oid == b.oid else FALSE
    if isinstance(a, Bool) and isinstance(b, Bool):
        return mk_or(mk_and(a.c, b.c), mk_and(mk_not(a.c), mk_not(b.c)))
    if isinstance(a, (Cls, Func, Ext)) or isinstance(b, (Cls, Func, Ext)):
        return TRUE if a == b or a is b else FALSE
    if type(a) is not type(b):
        return FALSE
    if isinstance(a, Num):
        return mk_cmp("eq", a.p, b.p)
    return T.Cond("app", "is", (I.opq("is"),))


def same_dtype(I, st, a, b):
    from .npmodel import dtype_name
    x, y = dtype_name(I, st, a), dtype_name(I, st, b)
    if x is None or y is None:
        return T.Cond("app", "opq", (P(T.fresh("dtype")),))
    x, y = sorted((x, y))
    if "any" in (x, y) and x != y:
        return T.Cond("app", "isdtype", (P(T.sym("dt:" + x)), P(T.sym("dt:" + y))))
    if x == y:
        for v in (a, b):
            nm = v.path.split(".")[-1] if isinstance(v, Ext) else v.s if isinstance(v, Str) else ""
            if nm in ("float32", "complex64", "half", "float16", "single", "csingle", "longdouble", "clongdouble", "f4", "c8", "f", "F"):
                return T.Cond("app", "opq", (P(T.fresh("precision")),))
    return TRUE if x == y else FALSE


def same_bytes(I, st, a, b):
    """equal elements in the same shape are equal bytes; other coincidences stay open"""
    if a == b:
        return TRUE
    x, y = a.lam, b.lam
    axes = len(x.axes) == len(y.axes) and all(p[1] is None and q[1] is None for p, q in zip(x.axes, y.axes))
    if axes and a.dtype == b.dtype and all(mk_cmp("eq", p[0], q[0]) is TRUE for p, q in zip(x.axes, y.axes)):
        l = Lam(mk_not(mk_cmp("eq", x.body, y.body)), x.axes, ("dense",)) if isinstance(x.body, Poly) and isinstance(y.body, Poly) else None
        if l is not None:
            return mk_not(T.mk_capp("any", l))
    return T.Cond("app", "bytes-equal", (I.opq("bytes"),))


def equal_values(I, st, a, b, node):
    """Cond for non-array equality, or None to use the numeric path"""
    if isinstance(a, NoneV) or isinstance(b, NoneV):
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return None
        o = b if isinstance(a, NoneV) else a
        if isinstance(o, Ref) and isinstance(st.heap[o.oid], Arr):
            return FALSE
        return TRUE if a == b else FALSE
    if isinstance(a, Str) or isinstance(b, Str):
        if isinstance(a, Str) and isinstance(b, Str):
            if a.known and b.known:
                return TRUE if a.s == b.s else FALSE
            if a == b:
                return TRUE
            return T.Cond("app", "streq", (P(T.sym("str:%s" % (a.s,))), P(T.sym("str:%s" % (b.s,)))))
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return None
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Ext):
                if x.path.startswith("dtype."):
                    return same_dtype(I, st, x, y)
                if x.path not in I.handlers:
                    return T.Cond("app", "opq", (P(T.fresh("ext:" + x.path)),))
        return FALSE
    if isinstance(a, Tup) and isinstance(b, Tup):
        if len(a.items) != len(b.items):
            return FALSE
        cs = []
        for x, y in zip(a.items, b.items):
            r = compare(I, st, "Eq", x, y, node)
            cs.append(I.truth(st, r, node))
        return mk_and(*cs) if cs else TRUE
    if isinstance(a, BytesV) and isinstance(b, BytesV):
        return same_bytes(I, st, a, b)
    if isinstance(a, (Cls, Func, Ext, Mod)) or isinstance(b, (Cls, Func, Ext, Mod)):
        if isinstance(a, Ext) and isinstance(b, Ext):
            if a.path.startswith("dtype.") or b.path.startswith("dtype."):
                return same_dtype(I, st, a, b)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Ext) and isinstance(y, Num) and x.path not in I.handlers:
                return T.Cond("app", "opq", (P(T.fresh("ext:" + x.path)),))
        return TRUE if a is b or a == b else FALSE
    if isinstance(a, Ref) and isinstance(b, Ref):
        x, y = st.heap[a.oid], st.heap[b.oid]
        if isinstance(x, Inst) and isinstance(y, Inst):
            f = I.find_attr(x.cls, "__eq__") if isinstance(x.cls, Cls) else None
            if f is not None:
                return I.truth(st, I.call(st, Bound(f, a), [b], {}, node), node)
            return TRUE if a.oid == b.oid else FALSE
        if isinstance(x, ListO) and isinstance(y, ListO):
            if a.oid == b.oid:
                return TRUE
            xs, ys = I.iter_items(st, a, node), I.iter_items(st, b, node)
            if xs is not None and ys is not None:
                return equal_values(I, st, Tup(tuple(xs)), Tup(tuple(ys)), node)
            return T.Cond("app", "listeq", (I.opq("listeq"),))
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Tup) or isinstance(x, Ref) and isinstance(st.heap[x.oid], (ListO, DictO, Inst)):
            if isinstance(y, (Num, Bool)):
                return FALSE
    return None


def dict_cases(I, st, h, k, node):
    """([(condition, value)] in order of preference, condition that the key is absent)"""
    out = []
    rest = TRUE
    for kk, v in h.d.items():
        c = I.truth(st, compare(I, st, "Eq", kk, k, node), node)
        d = I.decide(st, mk_and(rest, c))
        if d is False:
            continue
        sc, v = set_part(I, v)
        c = mk_and(rest, c, sc)
        if c is FALSE or I.decide(st, c) is False:
            continue
        out.append((c, v))
        rest = mk_and(rest, mk_not(c))
        if I.decide(st, rest) is False:
            return out, FALSE
    return out, rest


def set_part(I, v):
    """(condition that the value is there, the value when it is)"""
    from .interp import UNSET
    if v is UNSET:
        return FALSE, None
    if isinstance(v, IteV):
        ca, a = set_part(I, v.a)
        cb, b = set_part(I, v.b)
        if ca is TRUE and cb is TRUE:
            return TRUE, v
        if ca is FALSE:
            return mk_and(mk_not(v.c), cb), b
        if cb is FALSE:
            return mk_and(v.c, ca), a
        return mk_or(mk_and(v.c, ca), mk_and(mk_not(v.c), cb)), I.mval(v.c, a, b)
    return TRUE, v


def is_dict(o):
    """the __dict__ of an instance"""
    return isinstance(o, Opaque) and isinstance(o.label, tuple) and o.label[0] == "__dict__"


def contains(I, st, a, b, node):
    if isinstance(b, Ref) and isinstance(st.heap[b.oid], DictO):
        return mk_not(dict_cases(I, st, st.heap[b.oid], a, node)[1])
    if isinstance(b, IteV):
        return mk_or(mk_and(b.c, contains(I, st, a, b.a, node)), mk_and(mk_not(b.c), contains(I, st, a, b.b, node)))
    if isinstance(b, Str) and isinstance(a, Str) and a.known and b.known:
        return TRUE if a.s in b.s else FALSE
    its = None
    if is_dict(b):
        from .pymodel import inst_dict
        return inst_dict(I, st, b.label[1], lambda t: contains(I, st, a, t, node), node)
    if isinstance(b, Ref) and isinstance(st.heap[b.oid], Inst) and isinstance(st.heap[b.oid].cls, Cls):
        f = I.find_attr(st.heap[b.oid].cls, "__contains__")
        if f is not None:
            return I.truth(st, I.call(st, Bound(f, b), [a], {}, node), node)
    if isinstance(b, RangeV) and isinstance(a, Num):
        if b.step.const() == 1:
            return mk_and(mk_cmp("le", b.lo, a.p), mk_cmp("lt", a.p, b.hi))
    try:
        its = I.iter_items(st, b, node)
    except Exception:
        raise
    if its is None:
        return T.Cond("app", "in", (I.opq("in"),))
    cs = []
    for x in its:
        r = compare(I, st, "Eq", a, x, node)
        cs.append(I.truth(st, r, node))
    return mk_or(*cs) if cs else FALSE


# ------------------------------------------------------------------------------------------ indexing
def norm_key(I, st, o, k, node):
    """list of per-axis selectors from the first axis on: ('int',p) ('slice',lo,hi,step) ('mask',cond) ('new',)"""
    ks = list(k.items) if isinstance(k, Tup) else [k]
    nd = len(o.axes)
    used = 0
    for x in ks:
        if isinstance(x, NoneV) or isinstance(x, EllipsisV) or x == Ext("numpy.newaxis"):
            continue
        used += 1
        y = I.pick(st, x)
        if isinstance(y, Ref) and isinstance(st.heap[y.oid], Arr) and st.heap[y.oid].dtype == "bool":
            used += len(st.heap[y.oid].axes) - 1
    out = []
    ax = nd - 1
    full = SliceV(NONE, NONE, NONE)
    if not any(isinstance(x, EllipsisV) for x in ks):
        ks = ks + [ELLIPSIS]
    for x in ks:
        if isinstance(x, EllipsisV):
            for _ in range(nd - used):
                out.append(("slice", ax, full))
                ax -= 1
            continue
        if isinstance(x, NoneV) or x == Ext("numpy.newaxis"):
            out.append(("new", None, None))
            continue
        x = I.pick(st, x)
        if isinstance(x, IteV):
            y = as_arr(I, st, x, node)
            if isinstance(y, Num):
                x = y
            elif isinstance(y, Arr):
                x = put(I, st, y)
            else:
                return None
        if isinstance(x, Num):
            if ax < 0:
                I.exc(st, "IndexError", None, node)
            out.append(("int", ax, x.p))
            ax -= 1
        elif isinstance(x, SliceV):
            if ax < 0:
                I.exc(st, "IndexError", None, node)
            out.append(("slice", ax, x))
            ax -= 1
        elif isinstance(x, IndexOf):
            out.append(("mask", ax, x.lam.body))
            ax -= 1
        elif isinstance(x, Ref) and isinstance(st.heap[x.oid], Arr):
            m = st.heap[x.oid]
            if m.dtype == "bool" and len(m.axes) == 1 and ax >= 0:
                out.append(("mask", ax, m.content))
                ax -= 1
            elif m.dtype == "bool" and len(m.axes) == nd and len(ks) <= 2:
                out.append(("fullmask", ax, m.content))
                ax -= len(m.axes)
            else:
                out.append(("array", ax, m))
                ax -= 1
        elif isinstance(x, (Ref, Tup, RangeV)):
            m = as_arr(I, st, x, node)
            if not isinstance(m, Arr) or m.dtype != "int" or m.rep != "idx" or not isinstance(m.content, Poly):
                return None
            out.append(("array", ax, m))
            ax -= 1
        else:
            return None
    return out


def wrapped(I, st, p, n):
    """position meant by index p on an axis of length n"""
    a = p.atom()
    if a is not None and a.kind == "ite":
        return T.ite(a.args[0], wrapped(I, st, a.args[1], n), wrapped(I, st, a.args[2], n))
    c = p.const()
    if c is not None:
        return p if c >= 0 else n + p
    if all(v > 0 and ex is None and all(b.kind == "idx" or b.kind == "sym" and (T.SYMATTR.get(b.args[0], {}).get("pos") or T.SYMATTR.get(b.args[0], {}).get("nonneg"))
                                        for b, _ in pw) for (pw, ex), v in p.t.items()):
        return p
    neg = mk_cmp("lt", p, ZERO)
    if I.decide(st, neg) is False:
        return p
    return T.ite(neg, n + p, p)


def gather(I, st, h, ks, node):
    """(axes, content) of an index with integer arrays and integers on every axis"""
    arrs = [x[2] for x in ks if x[0] == "array"]
    full = SliceV(NONE, NONE, NONE)
    if len(arrs) == 1 and len(h.axes) > 1 and h.rep == "idx" and all(x[0] == "array" or x[0] == "slice" and x[2] == full for x in ks) and all(a[1] is None for a in h.axes):
        # one axis is permuted or selected from, the others are kept
        m, ax = arrs[0], next(x[1] for x in ks if x[0] == "array")
        if m.rep != "idx" or m.dtype != "int" or not isinstance(m.content, Poly) or len(m.axes) != 1 or m.axes[0][1] is not None:
            return None
        at = wrapped(I, st, T.subst(m.content, {idx(0): P(idx(ax))}), h.axes[ax][0])
        return tuple(m.axes[0] if k == ax else a for k, a in enumerate(h.axes)), T.subst(h.content, {idx(ax): at})
    if any(x[0] not in ("array", "int") for x in ks) or any(a[1] is not None for a in h.axes) or len(ks) != len(h.axes):
        return None
    if any(m.rep != "idx" or m.dtype != "int" or not isinstance(m.content, Poly) for m in arrs):
        return None
    axes = bcast(I, st, arrs, node)
    if isinstance(axes, str) or any(a[1] is not None for a in axes):
        return None
    m = {}
    for kind, ax, x in ks:
        p = place(x, axes) if kind == "array" else x
        m[idx(ax)] = wrapped(I, st, p, h.axes[ax][0])
    return tuple(axes), T.subst(h.content, m)


def scatter(I, st, ref, h, ks, val, node):
    """store through integer arrays of one common dimension; (cond, content), True if done piecewise, None if not understood"""
    arrs = [(x[1], x[2]) for x in ks if x[0] == "array"]
    full = SliceV(NONE, NONE, NONE)
    if any(x[0] not in ("array", "int") and not (x[0] == "slice" and x[2] == full) for x in ks) or any(a[1] is not None for a in h.axes):
        return None
    if any(m.rep != "idx" or m.dtype != "int" or not isinstance(m.content, Poly) or len(m.axes) != 1 or m.axes[0][1] is not None for _, m in arrs):
        return None
    L = arrs[0][1].axes[0][0]
    if any(m.axes[0][0] is not L for _, m in arrs):
        return None
    sl = any(x[0] == "slice" for x in ks)
    scalar = isinstance(val, (Num, Bool))
    if not scalar and (sl or len(val.axes) != 1 or val.axes[0][1] is not None or val.axes[0][0] is not L):
        return None
    n = L.const()
    if n is not None and n <= 8:
        for j in range(int(n)):
            key = []
            for kind, ax, x in ks:
                key.append(Num(wrapped(I, st, T.subst(x.content, {idx(0): P(j)}), h.axes[ax][0]), "int") if kind == "array" else Num(x, "int") if kind == "int" else full)
            v = val if scalar else elem_at(val, j)
            store(I, st, ref, st.heap[ref.oid], Tup(tuple(key)), v, node)
        return True
    for ax, m in arrs:
        sl1 = m.content - P(idx(0))
        sl2 = m.content + P(idx(0))
        for sgn, c in ((1, sl1), (-1, sl2)):
            if any(d.kind == "idx" for d in c.deps):
                continue
            low = c if sgn == 1 else c - L + 1
            if not (low is ZERO or I.decide(st, mk_cmp("le", ZERO, low)) is True):
                return None
            j = P(idx(ax)) - c if sgn == 1 else c - P(idx(ax))
            cs = []
            if not (sgn == 1 and c is ZERO):
                cs.append(mk_cmp("le", ZERO, j))
            if not (sgn == 1 and c is ZERO and L is h.axes[ax][0]):
                cs.append(mk_cmp("lt", j, L))
            for ax2, m2 in arrs:
                if ax2 != ax:
                    cs.append(mk_cmp("eq", P(idx(ax2)), wrapped(I, st, T.subst(m2.content, {idx(0): j}), h.axes[ax2][0])))
            for kind, ax2, x in ks:
                if kind == "int":
                    cs.append(mk_cmp("eq", P(idx(ax2)), wrapped(I, st, x, h.axes[ax2][0])))
            c = (val.p if isinstance(val, Num) else val.c) if scalar else T.subst(val.content, {idx(0): j})
            return (mk_and(*cs) if cs else TRUE), c
    return None


def elem_at(a, j):
    c = T.subst(a.content, {idx(0): P(j)})
    return Bool(c) if isinstance(c, Cond) else Num(c, a.dtype)


ELLIPSIS = EllipsisV()


def slice_bounds(I, st, s, n, node):
    """(lo, hi, step) as Polys for a slice over length n; None if unknown"""
    step = ONE if isinstance(s.step, NoneV) else s.step.p if isinstance(s.step, Num) else None
    if step is None or step.const() is None or step.const() == 0:
        return None

    def norm(v, dflt):
        if isinstance(v, NoneV):
            return dflt
        if not isinstance(v, Num):
            return None
        c = v.p.const()
        if c is not None and c < 0:
            return n + v.p
        if c is None:
            if I.decide(st, mk_cmp("le", ZERO, v.p)) is True:
                return v.p
            if I.decide(st, mk_cmp("lt", v.p, ZERO)) is True:
                return n + v.p
            return None
        return v.p
    if step.const() < 0:
        lo, hi = norm(s.lo, n - 1), norm(s.hi, P(-1))
        return None if lo is None or hi is None else (lo, hi, step)
    lo, hi = norm(s.lo, ZERO), norm(s.hi, n)
    if lo is None or hi is None:
        return None
    if not isinstance(s.hi, NoneV) and I.decide(st, mk_cmp("lt", n, hi)) is not False:
        if I.decide(st, mk_cmp("lt", n, hi)) is True:
            hi = n
        elif hi.const() is None or n.const() is None:
            pass
    return lo, hi, step


def getitem(I, st, o, k, node):
    o = I.pick(st, o)
    if isinstance(o, IteV):
        a = as_arr(I, st, o, node)
        if isinstance(a, Arr):
            return put_view(I, st, None, a, *take(I, st, a, k, node), node=node)
        return I.lift(st, o, lambda s, x: getitem(I, s, x, k, node))
    if isinstance(k, IteV) and not isinstance(as_arr(I, st, k, node), (Num, Arr)):
        return I.lift(st, k, lambda s, x: getitem(I, s, o, x, node))
    if is_dict(o):
        from .pymodel import inst_dict
        return inst_dict(I, st, o.label[1], lambda t: getitem(I, st, t, k, node), node)
    if isinstance(o, (Tup,)) or isinstance(o, Str):
        return seq_get(I, st, o, list(o.items) if isinstance(o, Tup) else ([Str(c) for c in o.s] if o.known else None), k, node)
    if isinstance(o, Ref):
        h = st.heap[o.oid]
        if isinstance(h, ListO):
            if h.sym is not None and not h.items and h.prefix is None and isinstance(k, Num):
                p = k.p
                if p.const() is not None and p.const() < 0:
                    p = h.sym.n + p
                return subst_val(I, st, h.sym.elem, {h.sym.idx: p})
            if isinstance(k, Num) and k.p.const() is not None and (h.prefix is not None or any(isinstance(x, CondItemT()) for x in h.items)):
                i = int(k.p.const())
                if i < 0 and len(h.items) >= -i and not any(isinstance(x, CondItemT()) for x in h.items[i:]):
                    return h.items[i]
                v = last_entry(I, st, h, len(h.items), node) if i == -1 else None
                return v if v is not None else I.opaque_value(("element of list",))
            if h.prefix is not None and h.sym is None and isinstance(k, SliceV) and isinstance(k.lo, Num) and isinstance(k.hi, NoneV) and isinstance(k.step, NoneV) and (k.lo.p.const() or F0) > 0:
                n = I.call_ext(st, "builtins.len", [o], {}, node).p - k.lo.p
                return I.new(st, ListO((), ("sized", T.ite(mk_cmp("lt", n, ZERO), ZERO, n))))
            return seq_get(I, st, o, list(h.items) if h.prefix is None and h.sym is None else None, k, node)
        if isinstance(h, DictO):
            cs, rest = dict_cases(I, st, h, k, node)
            if rest is not FALSE:
                I.may_raise(st, "KeyError", rest, node)
            if not cs:
                return I.opaque_value(("dict element",))
            v = cs[-1][1]
            for c, x in reversed(cs[:-1]):
                v = I.mval(c, x, v)
            return v
        if isinstance(h, Arr):
            r = take(I, st, h, k, node)
            return put_view(I, st, o, h, *r, node=node)
        if isinstance(h, Inst):
            f = I.find_attr(h.cls, "__getitem__")
            if f is not None:
                return I.call(st, Bound(f, o), [k], {}, node)
            I.exc(st, "TypeError", None, node)
    if isinstance(o, RangeV) and isinstance(k, Num):
        return Num(o.lo + k.p * o.step, "int")
    if isinstance(o, IndexOf):
        if k == num(0):
            return o
    if isinstance(o, (Num, NoneV)):
        I.exc(st, "TypeError", None, node)
    if isinstance(o, Opaque):
        return Opaque(("item", o.label))
    I.undecided("subscript of %r" % (o,), node)


def subst_val(I, st, v, m):
    if isinstance(v, Num):
        return Num(T.subst(v.p, m), v.ty)
    if isinstance(v, Bool):
        return Bool(T.subst(v.c, m))
    if isinstance(v, Tup):
        return Tup(tuple(subst_val(I, st, x, m) for x in v.items), v.cls)
    if isinstance(v, Ref) and isinstance(st.heap[v.oid], Arr):
        o = st.heap[v.oid]
        return I.new(st, replace(o, content=T.subst(o.content, m)))
    if isinstance(v, IteV):
        return I.mval(T.subst(v.c, m), subst_val(I, st, v.a, m), subst_val(I, st, v.b, m))
    return v


def last_entry(I, st, h, n, node):
    """the last entry of a list filled by the earlier passes of a loop"""
    if n:
        x = h.items[n - 1]
        if not isinstance(x, CondItemT()):
            return x
        b = last_entry(I, st, h, n - 1, node)
        return I.mval(x.c, x.items[-1], b) if b is not None and x.items and not isinstance(x.items[-1], CondItemT()) else b if not x.items else None
    kind = h.prefix[2] if len(h.prefix) > 2 else None
    if kind is None:
        return None
    from .np_reduce import prefix_len
    I.may_raise(st, "IndexError", mk_cmp("eq", prefix_len(h.prefix), ZERO), node)
    nm = "last%s" % (h.prefix[1],)
    if kind[0] == "num":
        return Num(P(T.sym(nm, **({"real": True} if kind[1] in ("int", "float") else {}))), kind[1])
    return I.new(st, Arr(P(T.Atom("elem", nm, tuple(P(T.idx(i)) for i in range(len(kind[1]))))), kind[1], kind[2]))


def seq_get(I, st, o, its, k, node):
    if its is None:
        return I.opaque_value(("sequence element",))
    if isinstance(k, Num):
        c = k.p.const()
        if c is None:
            r = None
            cs = [(mk_cmp("eq", k.p, P(i)), v) for i, v in enumerate(its)]
            if not cs:
                I.exc(st, "IndexError", None, node)
            v = cs[-1][1]
            for c, x in reversed(cs[:-1]):
                v = I.mval(c, x, v)
            return v
        i = int(c)
        if not -len(its) <= i < len(its):
            I.exc(st, "IndexError", None, node)
        return its[i]
    if isinstance(k, SliceV):
        g = lambda v: None if isinstance(v, NoneV) else int(v.p.const()) if isinstance(v, Num) and v.p.const() is not None else "?"
        a, b, c = g(k.lo), g(k.hi), g(k.step)
        if "?" in (a, b, c):
            return I.opaque_value(("slice",))
        r = its[a:b:c]
        if isinstance(o, Tup):
            return Tup(tuple(r))
        if isinstance(o, Str):
            return Str(o.s[a:b:c])
        return I.new(st, ListO(tuple(r)))
    if isinstance(k, Bool):
        return I.mval(k.c, its[1], its[0])
    return I.opaque_value(("index",))


def take(I, st, h, k, node):
    """(axes, content, isview, kind) of h[k]"""
    if h.rep != "idx":
        ks = norm_key(I, st, h, k, node)
        if ks is not None and all(x[0] == "slice" and x[2] == SliceV(NONE, NONE, NONE) for x in ks):
            return h.axes, h.content, True, h.rep
        if ks is not None and h.rep == "op" and len(h.axes) == 2 and [x[0] for x in ks].count("new") == 1 and ks[0][0] == "new" and all(x[0] in ("new", "slice") for x in ks) and all(x[2] == SliceV(NONE, NONE, NONE) for x in ks if x[0] == "slice"):
            return h.axes + ((ONE, None),), h.content, True, "op"
        if ks is not None and h.rep == "op" and len(h.axes) == 3 and ks and ks[0][0] == "int" and ks[0][1] == 2 and all(x[0] == "slice" and x[2] == SliceV(NONE, NONE, NONE) for x in ks[1:]):
            p = ks[0][2]
            if p.const() is not None and p.const() < 0 or p.const() is None and I.decide(st, mk_cmp("lt", p, ZERO)) is True:
                p = h.axes[2][0] + p
            return h.axes[:2], T.subst(h.content, {idx(2): p}), True, "op"
        h2 = op_to_idx(h)
        if h2.rep != "idx":
            return take_axes_opaque(I, st, h, k, node)
        h = h2
    ks = norm_key(I, st, h, k, node)
    if ks is None:
        return h.axes, opq_like(I, h, "index"), False, "idx"
    if any(x[0] == "array" for x in ks):
        g = gather(I, st, h, ks, node)
        if g is not None:
            return g[0], g[1], False, "idx"
    for i, x in enumerate(ks):
        if x[0] == "fullmask":
            n = ONE
            for ax in h.axes:
                n = n * axis_len(ax)
            # flattened selection: keep the indices, mark the domain on the last axis, other axes kept with full domain
            return h.axes, h.content, False, ("fullmask", x[2])
        if x[0] == "array":
            m = x[2]
            return (m.axes if len(ks) == 1 else h.axes), opq_like(I, h, "integer array index"), False, "idx"
    # build: result axes from first to last
    content = h.content
    res = []  # list of (source axis or None, axis descriptor)
    view = True
    sub = {}
    for kind, ax, x in ks:
        if kind == "new":
            res.append((None, (ONE, None)))
            continue
        n, dom = h.axes[ax]
        if kind == "int":
            p = x
            c = p.const()
            if dom is not None:
                return h.axes, opq_like(I, h, "index into selection"), False, "idx"
            if c is not None and c < 0:
                p = n + p
            elif c is None and I.decide(st, mk_cmp("lt", p, ZERO)) is True:
                p = n + p
            nc = n.const()
            if nc is not None and c is not None and not -nc <= c < nc:
                I.exc(st, "IndexError", None, node)
            sub[idx(ax)] = p
        elif kind == "mask":
            view = False
            d = T.subst(x, {idx(0): P(idx(0))})
            res.append((ax, (n, d if dom is None else mk_and(dom, d))))
        else:
            if x == SliceV(NONE, NONE, NONE):
                res.append((ax, h.axes[ax]))
                continue
            if dom is not None:
                return h.axes, opq_like(I, h, "slice of selection"), False, "idx"
            b = slice_bounds(I, st, x, n, node)
            if b is None:
                ln = P(T.fresh("slicelen", real=True, int=True))
                return tuple((ln, None) if j == ax else a for j, a in enumerate(h.axes)), opq_like(I, h, "slice"), True, "idx"
            lo, hi, stp = b
            if stp.const() != 1:
                sub[idx(ax)] = lo + P(idx(ax)) * stp
                res.append((ax, (ceil_p(I, st, (hi - lo) / stp), None)))
            else:
                sub[idx(ax)] = lo + P(idx(ax))
                ln = hi - lo
                if I.decide(st, mk_cmp("lt", ln, ZERO)) is True:
                    ln = ZERO
                res.append((ax, (ln, None)))
    # renumber axes
    newax = []
    m = dict(sub)
    nd = len(res)
    ren = {}
    for pos, (src, ax) in enumerate(res):
        tgt = nd - 1 - pos
        newax.append((tgt, ax))
        if src is not None and src != tgt:
            ren[idx(src)] = P(idx(tgt))
    m2 = {}
    for a, p in m.items():
        m2[a] = T.subst(p, ren) if ren else p
    for a, p in ren.items():
        m2.setdefault(a, p)
    content = T.subst(content, m2) if m2 else content
    axes = tuple(ax for _, ax in sorted(newax, key=lambda t: t[0]))
    return axes, content, view, "idx"


def take_axes_opaque(I, st, h, k, node):
    ks = norm_key(I, st, h, k, node)
    axes = []
    lam_c = h.content
    if ks is not None and len(ks) == 2 and all(x[0] == "slice" for x in ks):
        bs = [slice_bounds(I, st, x[2], h.axes[x[1]][0], node) for x in ks]
        if all(b is not None and b[2].const() == 1 for b in bs):
            axes = tuple((b[1] - b[0], None) for b in reversed(bs))
            c = P(Atom("app", "submatrix", (lam_c,) + tuple(x for b in bs for x in b[:2])))
            return axes, c, True, "idx"
    return h.axes, bad(I, "indexing the matrix"), True, "idx"


def opq_like(I, h, label):
    # unknown contents, one unknown per position
    c = P(Atom("app", I.opq(label).atom().args[0], I.opq(label).atom().args[1:] + tuple(P(idx(k)) for k in range(len(h.axes)))))
    return T.Cond("app", "opq", (c,)) if isinstance(h.content, Cond) else c


def put_view(I, st, ref, h, axes, content, view, rep, node=None):
    dt = h.dtype
    if isinstance(rep, tuple) and rep[0] == "fullmask":
        new = Arr(content, tuple((a[0], rep[1] if j == 0 else a[1]) for j, a in enumerate(axes)), dt, "idx", h.space)
        return I.new(st, new)
    if not axes:
        if isinstance(content, Cond):
            return Bool(content)
        return Num(content, dt if dt != "bool" else "int")
    new = Arr(content, axes, dt, rep, h.space, base=(ref.oid, "part") if view and ref is not None else None)
    return I.new(st, new)


def setitem(I, st, o, k, v, node):
    o = I.pick(st, o)
    if isinstance(o, IteV):
        return I.lift(st, o, lambda s, x: setitem(I, s, x, k, v, node))
    if is_dict(o):
        from .pymodel import inst_dict
        return inst_dict(I, st, o.label[1], lambda t: setitem(I, st, t, k, v, node), node)
    if isinstance(o, Ref):
        h = st.heap[o.oid]
        if isinstance(h, ListO):
            if isinstance(k, Num) and k.p.const() is not None and h.prefix is None and h.sym is None and -len(h.items) <= k.p.const() < len(h.items):
                its = list(h.items)
                its[int(k.p.const())] = v
                st.heap[o.oid] = replace(h, items=tuple(its))
            else:
                if isinstance(k, Num) and h.prefix is None and h.sym is None and k.p.const() is not None:
                    I.exc(st, "IndexError", None, node)
                I.ev(st, "list-set", node, obj=o, key=k, val=v)
                st.heap[o.oid] = ListO((), ("set", next(T._fresh)), None, h.kind)
            return
        if isinstance(h, DictO):
            d = dict(h.d)
            for kk in list(d):
                r = compare(I, st, "Eq", kk, k, node)
                dec = I.decide(st, r.c)
                if dec is True:
                    d[kk] = v
                    break
                if dec is None:
                    d[kk] = I.mval(r.c, v, d[kk])
            else:
                d[k] = v
            st.heap[o.oid] = DictO(d)
            I.ev(st, "dict-set", node, obj=o, key=k, val=v)
            return
        if isinstance(h, Arr):
            return store(I, st, o, h, k, v, node)
        if isinstance(h, Inst):
            f = I.find_attr(h.cls, "__setitem__")
            if f is not None:
                return I.call(st, Bound(f, o), [k, v], {}, node)
    if isinstance(o, (Tup, Num, NoneV, Str)):
        I.exc(st, "TypeError", None, node)
    if isinstance(o, Opaque):
        return
    I.undecided("item assignment", node)


def store(I, st, ref, h, k, v, node):
    val = as_arr(I, st, v, node)
    if val is None:
        write(I, st, ref, replace(h, content=opq_like(I, h, "stored value")), node)
        return
    if isinstance(val, Arr):
        val = val if val.rep == "op" else op_to_idx(val)
    ks = norm_key(I, st, h, k, node)
    full = SliceV(NONE, NONE, NONE)
    dt = val.ty if isinstance(val, Num) else "bool" if isinstance(val, Bool) else val.dtype
    sp = val.space if isinstance(val, Arr) else None
    if ks is not None and all(x[0] == "slice" and x[2] == full for x in ks):
        if isinstance(val, Arr):
            r = bcast(I, st, [replace(h, content=ZERO), val], node)
            if r == "mismatch":
                I.exc(st, "ValueError", None, node)
            c = place(val, h.axes) if not isinstance(r, str) else I.opq("shape")
            write(I, st, ref, Arr(c, h.axes, dt, val.rep if val.rep == "op" else "idx", val.space), node)
        else:
            c = val.p if isinstance(val, Num) else val.c
            write(I, st, ref, Arr(c, h.axes, dt), node)
        return
    if h.rep != "idx":
        h = op_to_idx(h)
    got = None
    if ks is not None and h.rep == "idx" and any(x[0] == "array" for x in ks) and not (isinstance(val, Arr) and val.rep != "idx"):
        got = scatter(I, st, ref, h, ks, val, node)
        if got is True:
            return
        if got is not None:
            return finish_store(I, st, ref, h, got[0], got[1], dt, sp, node)
    if ks is None or h.rep != "idx" or any(x[0] in ("array", "new") for x in ks) or isinstance(val, Arr) and val.rep != "idx":
        write(I, st, ref, replace(h, content=opq_like(I, h, "indexed store"), rep="idx"), node)
        return
    conds = []
    src = {}
    res = []
    for kind, ax, x in ks:
        if kind == "fullmask":
            if isinstance(val, (Num, Bool)):
                conds.append(x)
                continue
            write(I, st, ref, replace(h, content=opq_like(I, h, "mask store"), rep="idx"), node)
            return
        n, dom = h.axes[ax]
        if kind == "int":
            p = x
            if p.const() is not None and p.const() < 0:
                p = n + p
            conds.append(mk_cmp("eq", P(idx(ax)), p))
        elif kind == "mask":
            m = T.subst(x, {idx(0): P(idx(ax))}) if ax else x
            conds.append(m)
            res.append((ax, ("mask", x, n)))
        else:
            if x == full:
                res.append((ax, ("full", None, n)))
                continue
            b = slice_bounds(I, st, x, n, node)
            if b is None:
                write(I, st, ref, replace(h, content=opq_like(I, h, "slice store")), node)
                return
            lo, hi, stp = b
            cs, i = [], P(idx(ax))
            if stp.const() != 1:
                if stp.const() > 0:
                    cs += [mk_cmp("le", lo, i)] if lo is not ZERO else []
                    cs += [mk_cmp("lt", i, hi)] if hi is not n else []
                elif not (lo is n - 1 and hi.const() == -1):
                    cs += [mk_cmp("le", i, lo), mk_cmp("lt", hi, i)]
                if abs(stp.const()) != 1:
                    cs.append(mk_cmp("eq", mod_p(I, st, i - lo, P(abs(stp.const()))), ZERO))
                conds += cs
                res.append((ax, ("stride", lo, ceil_p(I, st, (hi - lo) / stp), stp)))
                continue
            if lo is not ZERO:
                cs.append(mk_cmp("le", lo, P(idx(ax))))
            if hi is not n:
                cs.append(mk_cmp("lt", P(idx(ax)), hi))
            conds += cs
            res.append((ax, ("slice", lo, hi - lo)))
    if isinstance(val, Arr):
        m = {}
        okshape = True
        for pos, (ax, d) in enumerate(res):
            tgt = len(res) - 1 - pos
            if tgt >= len(val.axes):
                continue
            vax = val.axes[tgt]
            if vax[0].const() == 1 and vax[1] is None:
                m[idx(tgt)] = ZERO
                continue
            if d[0] == "mask":
                want = (d[2], d[1])
                if vax != want and not (vax[0] is d[2] and vax[1] is not None and vax[1] is d[1]):
                    if vax[1] is None and axis_len(vax) is axis_len(want):
                        okshape = None if any(i == idx(tgt) for i in val.content.deps) else okshape
                    else:
                        okshape = False
            else:
                ln = d[2]
                if vax[1] is not None or (vax[0] is not ln and I.decide(st, mk_cmp("eq", vax[0], ln)) is not True):
                    okshape = False
            if d[0] == "slice":
                m[idx(tgt)] = P(idx(ax)) - d[1]
            elif d[0] == "stride":
                m[idx(tgt)] = (P(idx(ax)) - d[1]) / d[3]
            elif ax != tgt:
                m[idx(tgt)] = P(idx(ax))
        if not okshape:
            I.ev(st, "shape-mismatch", node)
            c = bad(I, "values of another selection stored under a mask") if okshape is False else I.opq("positions")
            if isinstance(h.content, Cond):
                c = T.Cond("app", "opq", (c,))
        else:
            c = T.subst(val.content, m) if m else val.content
    else:
        c = val.p if isinstance(val, Num) else val.c
    finish_store(I, st, ref, h, mk_and(*conds) if conds else TRUE, c, dt, sp, node)


def finish_store(I, st, ref, h, cond, c, dt, sp, node):
    if isinstance(h.content, Cond) != isinstance(c, Cond):
        if isinstance(h.content, Cond):
            c = condify(c)
        else:
            c = numify(c)
    if isinstance(c, Poly) and h.dtype in ("float", "int") and dt in ("complex", "any"):
        c = T.real_part(c)
        dt = h.dtype
    if isinstance(c, Cond):
        newc = mk_or(mk_and(cond, c), mk_and(mk_not(cond), h.content))
    else:
        newc = T.ite(cond, c, h.content)
    write(I, st, ref, Arr(newc, h.axes, dt, "idx", sp if sp is not None else h.space), node)
