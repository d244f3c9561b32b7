"""Models of numpy, scipy and the builtins used by the analysed code: array attributes and installation of handlers."""
from __future__ import annotations
from .terms import *
from .terms import P, Fraction
from . import terms as T
from .values import *
from . import values as Vv
from .arrays import *
from .arrays import as_arr, put, ew, write, strip_idx, axis_len, shift, numify
from .ops import augop, binop, unop, compare, getitem, setitem, arith, condify, identical, divide, power_p, floor_p, ceil_p, mod_p, cmpx

FLOATS = {"float", "int", "bool"}


NARROW = {"float16", "float32", "half", "single", "complex64", "csingle", "f", "e", "F", "f2", "f4", "c8"}


def created(I, st, v, node):
    """dtype_name of the type of a new array; types narrower than double precision are noted"""
    w = I.pick(st, v)
    n = w.path.split(".")[-1] if isinstance(w, Ext) else w.s.lstrip("<>=|") if isinstance(w, Str) and w.known else None
    if n in NARROW:
        I.stats["narrow"].add((I.site(node), n))
    return dtype_name(I, st, v)


def dtype_name(I, st, v):
    """float/int/complex/bool of a dtype expression, None if unknown"""
    v = I.pick(st, v)
    if isinstance(v, Ext):
        n = v.path.split(".")[-1]
        if n.startswith("complex") or n in ("cdouble", "csingle"):
            return "complex"
        if n.startswith("float") or n in ("double", "single", "half", "longdouble"):
            return "float"
        if n.startswith("bool"):
            return "bool"
        if n.startswith("int") or n.startswith("uint") or n in ("intp",):
            return "int"
        if n == "any":
            return "any"
    if isinstance(v, Str) and v.known:
        s = v.s.lstrip("<>=|")
        if s.startswith(("c", "D", "F")):
            return "complex"
        if s.startswith("f") or s == "d":
            return "float"
        if s.startswith(("b", "?")):
            return "bool"
        if s.startswith(("i", "u", "l")):
            return "int"
    if isinstance(v, NoneV):
        return "float"
    return None


def cast(I, st, a, dt, node):
    """array/number converted to dtype dt"""
    if dt is None or dt == "any":
        return a
    if isinstance(a, Bool):
        return a if dt == "bool" else Num(numify(a.c), dt)
    if isinstance(a, Num):
        p = a.p
        if dt == "bool":
            return Bool(mk_not(mk_cmp("eq", p, ZERO)))
        if dt in ("float", "int") and a.ty in ("complex", "any"):
            I.ev(st, "cast-drop", node, val=a)
            p = T.real_part(p)
        if dt == "int" and a.ty not in ("int", "bool"):
            p = trunc_p(I, st, p)
        return Num(p, dt)
    c = a.content
    if dt == "bool":
        c = condify(c) if isinstance(c, Poly) else c
    elif isinstance(c, Cond):
        c = numify(c)
    if dt in ("float", "int") and a.dtype in ("complex", "any"):
        I.ev(st, "cast-drop", node, val=a)
        c = T.real_part(c)
    if dt == "int" and a.dtype not in ("int", "bool"):
        c = trunc_p(I, st, c)
    return replace(a, content=c, dtype=dt, base=None, origins=frozenset(), owner="internal")


def trunc_p(I, st, p):
    c = p.const()
    if c is not None:
        return P(int(c))
    from .ops import is_int_poly
    if is_int_poly(p):
        return p
    if I.decide(st, mk_cmp("le", ZERO, p)) is True:
        return floor_p(I, st, p)
    return P(Atom("app", "trunc", (p,)))


def fresh_copy(a):
    return replace(a, base=None, origins=frozenset(), owner="internal")


def shape_tuple(o):
    return Tup(tuple(Num(axis_len(ax), "int") for ax in reversed(o.axes)))


def total_len(o):
    n = ONE
    for ax in o.axes:
        n = n * axis_len(ax)
    return n


def arr_attr(I, st, ref, o, name, node):
    if name == "shape":
        return shape_tuple(o)
    if name == "ndim":
        return num(len(o.axes))
    if name == "size":
        return Num(total_len(o), "int")
    if name == "dtype":
        return Ext("dtype." + o.dtype)
    if name == "T":
        return I.call_ext(st, "numpy.transpose", [ref], {}, node)
    if name in ("real", "imag"):
        r = ew(I, st, name, lambda p: (T.real_part if name == "real" else T.imag_part)(p), [o], node, ty="float", linear="cast" if o.rep == "op" else None)
        if o.rep in ("S", "Sinv", "op"):
            return I.new(st, Arr(bad(I, name + " of a matrix"), o.axes, "float"))
        if o.dtype in FLOATS and name == "real":
            return ref
        x = I.new(st, r)
        st.heap[x.oid] = replace(st.heap[x.oid], base=(ref.oid, "part"))
        return x
    if name in ("flat", "base", "flags", "nbytes", "itemsize", "strides", "data", "ctypes"):
        return Opaque(("arrattr", name))
    return Bound(Ext("ndarray." + name), ref)


def arr_setattr(I, st, ref, o, name, val, node):
    if name in ("real", "imag"):
        v = as_arr(I, st, val, node)
        if isinstance(v, (Num, Arr)) and o.rep == "idx" and isinstance(o.content, Poly):
            other = T.imag_part(o.content) if name == "real" else T.real_part(o.content)
            p = v.p if isinstance(v, Num) else v.content
            c = p + IMAG * other if name == "real" else other + IMAG * p
            return write(I, st, ref, replace(o, content=c), node)
    write(I, st, ref, replace(o, content=I.opq("array attribute " + name)), node)


def np_r(I, st, path, k, node):
    """np.r_[...] for slices and arrays: concatenation"""
    parts = list(k.items) if isinstance(k, Tup) else [k]
    if path != "numpy.r_":
        return I.opaque_value(("index trick", path))
    out = []
    for x in parts:
        if isinstance(x, SliceV):
            z = lambda v, d: d if isinstance(v, NoneV) else v
            args = [z(x.lo, num(0)), x.hi] + ([] if isinstance(x.step, NoneV) else [x.step])
            out.append(I.call_ext(st, "numpy.arange", args, {}, node))
        else:
            out.append(I.call_ext(st, "numpy.atleast_1d", [x], {}, node))
    return I.call_ext(st, "numpy.concatenate", [Tup(tuple(out))], {}, node)


def lifted(h):
    """run the handler on every alternative of a gated first argument that has no common array form"""
    def g(I, st, args, kw, node):
        args = [I.pick(st, a) for a in args]
        for i, a in enumerate(args):
            if isinstance(a, IteV) and not isinstance(as_arr(I, st, a, node), (Num, Arr, Bool)):
                return I.lift(st, a, lambda s, x: g(I, s, args[:i] + [x] + args[i + 1:], kw, node))
        return h(I, st, args, kw, node)
    return g


def reg(I, names, h, lift=True):
    for n in names.split():
        I.handlers[n] = lifted(h) if lift else h


def npn(*names):
    return " ".join("numpy." + n for n in names)


def install(I):
    from . import np_elem, np_create, np_reduce, linalg, pymodel, logmodel
    for m in (np_elem, np_create, np_reduce, linalg, pymodel, logmodel):
        m.install(I)
