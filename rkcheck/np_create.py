"""Array creation, reshaping, joining, transforms."""
from __future__ import annotations
from .terms import *
from .terms import P, Fraction
from . import terms as T
from .values import *
from .arrays import *
from .arrays import ew, put, as_arr, write, numify, shift, axis_len, range_len
from .ops import divide, power_p, floor_p, ceil_p, condify, is_int_poly, arith, getitem
from . import npmodel as N

I0, I1 = P(idx(0)), P(idx(1))
DELTA = None


def delta():
    return T.ite(mk_cmp("eq", I0, I1), ONE, ZERO)


def shape_of(I, st, v, node):
    """tuple of length Polys, first axis first"""
    v = I.pick(st, v)
    if isinstance(v, Num):
        return (v.p,)
    if isinstance(v, IteV):
        a = as_arr(I, st, v, node)
        if isinstance(a, Num):
            return (a.p,)
    its = I.iter_items(st, v, node) if isinstance(v, (Tup, Ref)) else None
    if its is None:
        return None
    out = []
    for x in its:
        x = as_arr(I, st, x, node)
        if not isinstance(x, Num):
            return None
        out.append(x.p)
    return tuple(out)


def neg_len(I, st, shp, node):
    for p in shp:
        c = p.const()
        if c is not None and c < 0:
            I.exc(st, "ValueError", Str("negative dimensions"), node)


def filled(val, dflt="float"):
    def h(I, st, args, kw, node):
        shp = shape_of(I, st, args[0] if args else kw.get("shape", NONE), node)
        if shp is None:
            return I.opaque_value(("shape",))
        neg_len(I, st, shp, node)
        d = args[1] if len(args) > 1 else kw.get("dtype")
        dt = dflt if d is None else (N.created(I, st, d, node) or "any")
        c = I.opq("uninitialised") if val is None else val
        if dt == "bool":
            c = FALSE if val is ZERO else TRUE if val is ONE else T.Cond("app", "opq", (c,))
        return put0(I, st, Arr(c, tuple((p, None) for p in reversed(shp)), dt))
    return h


def put0(I, st, a):
    """0-d results stay arrays in numpy; as scalars they behave the same here"""
    return put(I, st, a)


def like(val):
    def h(I, st, args, kw, node):
        a = as_arr(I, st, args[0], node)
        if a is None:
            return I.opaque_value("like")
        d = kw.get("dtype") or (args[1] if len(args) > 1 and val != "full" else None)
        src = a.dtype if isinstance(a, Arr) else a.ty if isinstance(a, Num) else "bool"
        dt = (N.created(I, st, d, node) or "any") if d is not None and not isinstance(d, NoneV) else src
        axes = a.axes if isinstance(a, Arr) else ()
        axes = tuple((axis_len(x), None) for x in axes)
        if "shape" in kw and not isinstance(kw["shape"], NoneV):
            s = shape_of(I, st, kw["shape"], node)
            axes = tuple((p, None) for p in reversed(s))
        if val == "full":
            f = as_arr(I, st, args[1] if len(args) > 1 else kw["fill_value"], node)
            c = f.p if isinstance(f, Num) else f.c if isinstance(f, Bool) else None
            if c is None:
                return I.opaque_value("full_like")
            if dt in ("float", "int") and isinstance(f, Num) and f.ty in ("complex", "any"):
                c = T.real_part(c)
        else:
            c = I.opq("uninitialised") if val is None else val
        if dt == "bool" and isinstance(c, Poly):
            c = FALSE if c is ZERO else condify(c)
        if not axes:
            return Bool(c) if isinstance(c, Cond) else Num(c, dt)
        return I.new(st, Arr(c, axes, dt))
    return h


def full_h(I, st, args, kw, node):
    shp = shape_of(I, st, args[0] if args else kw["shape"], node)
    f = as_arr(I, st, args[1] if len(args) > 1 else kw["fill_value"], node)
    if shp is None or f is None or isinstance(f, Arr):
        return I.opaque_value("full")
    neg_len(I, st, shp, node)
    d = args[2] if len(args) > 2 else kw.get("dtype")
    c = f.p if isinstance(f, Num) else f.c
    dt = f.ty if isinstance(f, Num) else "bool"
    if d is not None and not isinstance(d, NoneV):
        dt = N.created(I, st, d, node) or "any"
        if dt != "bool":
            c = numify(c)
    return I.new(st, Arr(c, tuple((p, None) for p in reversed(shp)), dt))


def eye_h(I, st, args, kw, node):
    n = as_arr(I, st, args[0] if args else kw["N"], node)
    d = kw.get("dtype")
    if d is None and len(args) > 3:
        d = args[3]
    m = args[1] if len(args) > 1 else kw.get("M", NONE)
    k = args[2] if len(args) > 2 else kw.get("k", num(0))
    dt = "float" if d is None else (N.created(I, st, d, node) or "any")
    if not isinstance(n, Num):
        return I.opaque_value("eye")
    ml = n.p if isinstance(m, NoneV) else as_arr(I, st, m, node).p
    if ml is n.p and isinstance(k, Num) and k.p is ZERO:
        return I.new(st, Arr(ONE, ((n.p, None), (n.p, None)), dt, "op"))
    kk = k.p if isinstance(k, Num) else None
    if kk is None:
        return I.opaque_value("eye")
    return I.new(st, Arr(T.ite(mk_cmp("eq", I0, I1 + kk), ONE, ZERO), ((ml, None), (n.p, None)), dt))


def exact_multiple(p):
    """k/2 with integer k: float steps that are exact"""
    c = p.const()
    return c is not None and (c * 2).denominator == 1


def arange_h(I, st, args, kw, node):
    vs = [as_arr(I, st, a, node) for a in args]
    for i, nm in enumerate(("start", "stop", "step")):
        if nm in kw and not isinstance(kw[nm], NoneV):
            while len(vs) <= i:
                vs.append(num(0) if len(vs) == 0 else num(1))
            vs[i] = as_arr(I, st, kw[nm], node)
    if not all(isinstance(v, Num) for v in vs):
        return I.opaque_value("arange")
    lo, hi, stp = num(0), vs[0], num(1)
    if len(vs) >= 2:
        lo, hi = vs[0], vs[1]
    if len(vs) == 3:
        stp = vs[2]
    ty = promote(lo.ty, hi.ty, stp.ty)
    d = kw.get("dtype")
    body = lo.p + I0 * stp.p
    sc = stp.p.const()
    intlike = all(is_int_poly(v.p) or exact_multiple(v.p) or is_half_int(v.p) for v in (lo, hi, stp))
    if intlike and sc is not None:
        n = divide(hi.p - lo.p, stp.p)
        if not is_int_poly(n):
            n = ceil_half(I, st, n)
        r = mk_cmp("le", ZERO, n)
        dd = I.decide(st, r)
        if dd is False:
            n = ZERO
        elif dd is None:
            n = T.ite(r, n, ZERO)
    else:
        # the length of a float range depends on rounding
        I.ev(st, "arange-float", node, args=tuple(v.p for v in (lo, hi, stp)))
        n = P(Atom("app", "arangelen", (lo.p, hi.p, stp.p)))
    a = Arr(body, ((n, None),), "float" if ty not in ("int", "complex", "bool") else ("int" if ty == "bool" else ty))
    if d is not None and not isinstance(d, NoneV):
        a = N.cast(I, st, a, N.created(I, st, d, node), node)
    return I.new(st, a)


def is_half_int(p):
    return is_int_poly(p * P(2))


def ceil_half(I, st, n):
    """ceil of an integer polynomial plus a rational constant"""
    c = n.t.get(T.EMPTY, Fraction(0))
    rest = n - P(c)
    if is_int_poly(rest):
        return rest + P(-((-c.numerator) // c.denominator))
    return ceil_p(I, st, n)


def linspace_h(I, st, args, kw, node):
    a = as_arr(I, st, args[0] if args else kw["start"], node)
    b = as_arr(I, st, args[1] if len(args) > 1 else kw["stop"], node)
    n = as_arr(I, st, args[2] if len(args) > 2 else kw.get("num", num(50)), node)
    ep = args[3] if len(args) > 3 else kw.get("endpoint", Bool(TRUE))
    rs = args[4] if len(args) > 4 else kw.get("retstep", Bool(FALSE))
    if not all(isinstance(x, Num) for x in (a, b, n)) or not isinstance(ep, Bool):
        return I.opaque_value("linspace")
    den = n.p - T.ite(ep.c, ONE, ZERO)
    nc = n.p.const()
    if nc is not None and nc < 0:
        I.exc(st, "ValueError", None, node)
    if nc is None and not is_int_poly(n.p):
        if n.ty == "float":
            I.exc(st, "TypeError", Str("float length"), node)
    if den is ZERO:
        step = ZERO
    else:
        step = (b.p - a.p) / den
    d = kw.get("dtype")
    arr = Arr(a.p + I0 * step, ((n.p, None),), promote("float", a.ty, b.ty) if promote(a.ty, b.ty) != "int" else "float")
    if d is not None and not isinstance(d, NoneV):
        arr = N.cast(I, st, arr, N.created(I, st, d, node), node)
    r = I.new(st, arr)
    if isinstance(rs, Bool) and rs.c is TRUE:
        return Tup((r, Num(step, "float")))
    return r


def array_h(copy):
    def h(I, st, args, kw, node):
        v = I.pick(st, args[0] if args else kw.get("object", kw.get("a")))
        d = kw.get("dtype") or (args[1] if len(args) > 1 else None)
        dt = None if d is None or isinstance(d, NoneV) else N.created(I, st, d, node)
        a = as_arr(I, st, v, node)
        if a is None:
            if isinstance(v, (NoneV, Str, Func, Cls)):
                return I.new(st, Arr(I.opq("object array"), (), "any")) if False else I.opaque_value("object array")
            return I.opaque_value(("array of", type(v).__name__))
        docopy = copy
        if "copy" in kw:
            k = kw["copy"]
            docopy = not (isinstance(k, Bool) and k.c is FALSE) and copy
        if isinstance(a, (Num, Bool)):
            return N.cast(I, st, a, dt, node)
        if not docopy and isinstance(v, (Ref, IteV)):
            same = dt is None or a.dtype == dt
            if isinstance(v, Ref) and same and isinstance(st.heap[v.oid], Arr):
                return v
            c = N.cast(I, st, a, dt, node) if dt else a
            srcs = frozenset(x.oid for _, x in I.alts(st, v) if isinstance(x, Ref) and isinstance(st.heap[x.oid], Arr))
            # a conversion may or may not share memory when the type is not known
            return I.new(st, replace(c, base=None, owner="internal", origins=srcs if (same or a.dtype == "any") else frozenset()))
        c = N.cast(I, st, a, dt, node) if dt else a
        return I.new(st, N.fresh_copy(c))
    return h


def tobytes_h(I, st, args, kw, node):
    a = as_arr(I, st, args[0], node)
    if not isinstance(a, Arr) or len(args) > 1 or kw or not isinstance(a.content, Poly):
        return I.opaque_value("bytes")
    return BytesV(Lam(a.content, a.axes, (a.rep,)), a.dtype)


def copy_h(I, st, args, kw, node):
    a = as_arr(I, st, args[0], node)
    if a is None:
        return I.opaque_value("copy")
    if not isinstance(a, Arr):
        return a
    return I.new(st, N.fresh_copy(a))


def deepcopy_h(I, st, args, kw, node):
    memo = {}

    def cp(v):
        if isinstance(v, Tup):
            return Tup(tuple(cp(x) for x in v.items), v.cls)
        if isinstance(v, IteV):
            return I.mval(v.c, cp(v.a), cp(v.b))
        if not isinstance(v, Ref):
            return v
        if v.oid in memo:
            return memo[v.oid]
        o = st.heap[v.oid]
        if isinstance(o, Arr):
            memo[v.oid] = r = I.new(st, N.fresh_copy(o))
            return r
        if isinstance(o, Inst) and not isinstance(o.cls, Cls):
            return v
        memo[v.oid] = r = I.new(st, o)
        if isinstance(o, Inst):
            st.heap[r.oid] = Inst(o.cls, {k: cp(x) for k, x in o.f.items()})
        elif isinstance(o, ListO):
            st.heap[r.oid] = replace(o, items=tuple(cp(x) for x in o.items))
        elif isinstance(o, DictO):
            st.heap[r.oid] = DictO({k: cp(x) for k, x in o.d.items()})
        return r
    return cp(I.pick(st, args[0]))


def pycopy_h(I, st, args, kw, node):
    v = I.pick(st, args[0])
    if isinstance(v, Ref):
        o = st.heap[v.oid]
        if isinstance(o, Arr):
            return I.new(st, N.fresh_copy(o))
        return I.new(st, o)
    return v


def astype_h(I, st, args, kw, node):
    a = as_arr(I, st, args[0], node)
    d = args[1] if len(args) > 1 else kw.get("dtype", NONE)
    dt = N.created(I, st, d, node)
    if a is None:
        return I.opaque_value("astype")
    if dt is None:
        return I.opaque_value("astype")
    r = N.cast(I, st, a, dt, node)
    if isinstance(r, Arr):
        c = kw.get("copy")
        if isinstance(c, Bool) and c.c is FALSE and isinstance(args[0], Ref):
            if a.dtype == dt:
                return args[0]
            return I.new(st, replace(N.fresh_copy(r), origins=frozenset({args[0].oid}) if a.dtype == "any" else frozenset()))
        return I.new(st, N.fresh_copy(r))
    return r


def view_h(I, st, args, kw, node):
    if isinstance(args[0], Ref) and len(args) == 1 and not kw:
        o = st.heap[args[0].oid]
        return I.new(st, replace(o, base=(args[0].oid, "whole"), owner="internal"))
    return copy_opaque(I, st, args[0], node, "view")


def copy_opaque(I, st, v, node, label):
    a = as_arr(I, st, v, node)
    if isinstance(a, Arr):
        return I.new(st, replace(a, content=I.opq(label), rep="idx", base=(v.oid, "part") if isinstance(v, Ref) else None))
    return I.opaque_value(label)


def diag_h(I, st, args, kw, node):
    a = as_arr(I, st, args[0], node)
    k = args[1] if len(args) > 1 else kw.get("k", num(0))
    if not isinstance(a, Arr) or not (isinstance(k, Num) and k.p is ZERO):
        return I.opaque_value("diag") if a is None or not isinstance(a, Arr) else copy_opaque(I, st, args[0], node, "diag")
    if len(a.axes) == 1:
        n = axis_len(a.axes[0])
        # a diagonal matrix of eigenvalue functions acts in the eigenbasis
        return I.new(st, Arr(a.content * delta(), ((n, None), (n, None)), a.dtype, "idx", "eigdiag" if a.space == "eig" else a.space))
    if a.rep == "op":
        if any(d is LAM for d in a.content.deps):
            return I.new(st, Arr(P(Atom("app", "diagpart", (Lam(a.content, a.axes),), (I0,))), (a.axes[0],), a.dtype))
        return I.new(st, Arr(a.content, (a.axes[0],), a.dtype))
    return I.new(st, Arr(T.subst(a.content, {idx(1): I0}), (a.axes[0],), a.dtype, space=a.space))


def fill_diagonal_h(I, st, args, kw, node):
    a = as_arr(I, st, args[0], node)
    v = as_arr(I, st, args[1], node)
    from .arrays import op_to_idx
    if isinstance(a, Arr) and len(a.axes) == 2:
        a = op_to_idx(a)
    if isinstance(a, Arr) and isinstance(v, Arr) and a.rep == v.rep == "idx" and len(a.axes) == 2 and len(v.axes) == 1 and all(x[1] is None for x in a.axes + v.axes) \
            and isinstance(v.content, Poly) and (v.dtype == a.dtype or v.dtype == "int" or a.dtype == "complex") and I.decide(st, mk_cmp("eq", v.axes[0][0], a.axes[0][0])) is True:
        write(I, st, args[0], replace(a, content=T.ite(mk_cmp("eq", I0, I1), v.content, a.content)), node)
    elif isinstance(a, Arr) and isinstance(v, Num) and a.rep == "idx" and len(a.axes) == 2:
        write(I, st, args[0], replace(a, content=T.ite(mk_cmp("eq", I0, I1), v.p, a.content)), node)
    elif isinstance(args[0], Ref):
        write(I, st, args[0], replace(a, content=I.opq("fill_diagonal"), rep="idx"), node)
    return NONE


def outer_h(fn):
    def h(I, st, args, kw, node):
        a, b = as_arr(I, st, args[0], node), as_arr(I, st, args[1], node)
        if not isinstance(a, Arr) or not isinstance(b, Arr) or len(a.axes) != 1 or len(b.axes) != 1:
            return I.opaque_value("outer")
        c = fn(T.subst(a.content, {idx(0): I1}), b.content)
        return I.new(st, Arr(c, (b.axes[0], a.axes[0]), promote(a.dtype, b.dtype), space=a.space or b.space))
    return h


def meshgrid_h(I, st, args, kw, node):
    ix = kw.get("indexing", Str("xy"))
    xs = [as_arr(I, st, a, node) for a in args]
    if not all(isinstance(x, Arr) and len(x.axes) == 1 for x in xs) or not isinstance(ix, Str) or not ix.known:
        return I.new(st, ListO(tuple(I.opaque_value("meshgrid") for _ in args)))
    n = len(xs)
    order = list(range(n))  # axis position (from the first) of each input
    if ix.s == "xy" and n >= 2:
        order[0], order[1] = 1, 0
    axes = [None] * n
    for j, x in enumerate(xs):
        axes[order[j]] = x.axes[0]
    sparse = kw.get("sparse", Bool(FALSE))
    out = []
    for j, x in enumerate(xs):
        k = n - 1 - order[j]
        ax = tuple(reversed(axes))
        if isinstance(sparse, Bool) and sparse.c is TRUE:
            ax = tuple(a if i == k else (ONE, None) for i, a in enumerate(ax))
        out.append(I.new(st, Arr(T.subst(x.content, {idx(0): P(idx(k))}), ax, x.dtype)))
    return I.new(st, ListO(tuple(out)))


def install_misc(I, R):
    R("numpy.zeros", filled(ZERO))
    R("numpy.ones", filled(ONE))
    R("numpy.empty", filled(None))
    R("numpy.zeros_like", like(ZERO))
    R("numpy.ones_like", like(ONE))
    R("numpy.empty_like", like(None))
    R("numpy.full_like", like("full"))
    R("numpy.full", full_h)
    R("numpy.eye numpy.identity", eye_h)
    R("numpy.arange", arange_h)
    R("numpy.linspace", linspace_h)
    R("numpy.array", array_h(True))
    R("numpy.asarray numpy.asanyarray numpy.ascontiguousarray numpy.asfortranarray", array_h(False))
    R("numpy.copy ndarray.copy", copy_h)
    R("ndarray.tobytes", tobytes_h)
    R("copy.copy", pycopy_h)
    R("copy.deepcopy", deepcopy_h)
    R("ndarray.astype", astype_h)
    R("ndarray.view", view_h)
    R("numpy.diag numpy.diagflat numpy.diagonal ndarray.diagonal", diag_h)
    R("numpy.fill_diagonal", fill_diagonal_h)
    R("numpy.outer numpy.multiply.outer", outer_h(lambda p, q: p * q))
    R("numpy.divide.outer", outer_h(divide))
    R("numpy.add.outer", outer_h(lambda p, q: p + q))
    R("numpy.subtract.outer", outer_h(lambda p, q: p - q))
    R("numpy.meshgrid", meshgrid_h)


def install(I):
    R = lambda names, h: N.reg(I, names, h)
    install_misc(I, R)
    from . import np_shape, np_fft
    np_shape.install(I)
    np_fft.install(I)
