"""Reshaping and joining arrays."""
from __future__ import annotations
from .terms import *
from .terms import P, Fraction
from . import terms as T
from .values import *
from .arrays import *
from .arrays import ew, put, as_arr, write, numify, shift, axis_len
from .ops import getitem, condify
from . import npmodel as N
from .np_create import copy_opaque, shape_of, I0, I1


def viewof(I, st, v, a):
    return I.new(st, replace(a, base=(v.oid, "part") if isinstance(v, Ref) else None, owner="internal", origins=frozenset()))


def const_int(I, st, v):
    if isinstance(v, Num) and v.p.const() is not None:
        return int(v.p.const())
    return None


def axis_index(a, k):
    """storage axis of numpy axis k"""
    n = len(a.axes)
    if not -n <= k < n:
        return None
    return n - 1 - (k % n)


def perm(I, st, v, a, order):
    """order: numpy axes of the result in terms of source numpy axes"""
    n = len(a.axes)
    ren = {}
    axes = [None] * n
    for pos, src in enumerate(order):
        s, t = n - 1 - src, n - 1 - pos
        axes[t] = a.axes[s]
        if s != t:
            ren[idx(s)] = P(idx(t))
    c = T.subst(a.content, ren) if ren else a.content
    return viewof(I, st, v, replace(a, content=c, axes=tuple(axes)))


def transpose_h(I, st, args, kw, node):
    a = as_arr(I, st, args[0], node)
    if not isinstance(a, Arr):
        return a if a is not None else I.opaque_value("transpose")
    if len(a.axes) < 2:
        return viewof(I, st, args[0], a)
    if a.rep == "op" and not any(d is LAM for d in a.content.deps):
        return viewof(I, st, args[0], a)
    if a.rep != "idx" or len(a.axes) == 2 and tags_of(a):
        return viewof(I, st, args[0], replace(a, content=tagged(bad(I, "transposed matrix"), "T", tags_of(a)), rep="idx"))
    n = len(a.axes)
    ax = args[1:] if len(args) > 1 else ([kw["axes"]] if "axes" in kw else [])
    if len(ax) == 1 and not isinstance(ax[0], Num):
        ax = I.iter_items(st, ax[0], node) if not isinstance(ax[0], NoneV) else []
    order = [const_int(I, st, x) for x in ax] if ax else list(range(n))[::-1]
    if any(o is None for o in order) or len(order) != n:
        return copy_opaque(I, st, args[0], node, "transpose")
    return perm(I, st, args[0], a, [o % n for o in order])


def swapaxes_h(I, st, args, kw, node):
    a = as_arr(I, st, args[0], node)
    i, j = const_int(I, st, args[1]), const_int(I, st, args[2])
    if not isinstance(a, Arr) or i is None or j is None or a.rep != "idx":
        return copy_opaque(I, st, args[0], node, "swapaxes")
    n = len(a.axes)
    o = list(range(n))
    o[i % n], o[j % n] = o[j % n], o[i % n]
    return perm(I, st, args[0], a, o)


def moveaxis_h(I, st, args, kw, node):
    a = as_arr(I, st, args[0], node)
    i, j = const_int(I, st, args[1]), const_int(I, st, args[2])
    if not isinstance(a, Arr) or i is None or j is None or a.rep != "idx":
        return copy_opaque(I, st, args[0], node, "moveaxis")
    n = len(a.axes)
    o = [x for x in range(n) if x != i % n]
    o.insert(j % n, i % n)
    return perm(I, st, args[0], a, o)


def reshape_h(I, st, args, kw, node):
    v = args[0]
    a = as_arr(I, st, v, node)
    tgt = args[1:] if len(args) > 1 else [kw.get("newshape", kw.get("shape", NONE))]
    shp = shape_of(I, st, tgt[0] if len(tgt) == 1 else Tup(tuple(tgt)), node)
    if isinstance(a, (Num, Bool)):
        if shp is not None and all(s.const() in (1, -1) for s in shp):
            c = a.p if isinstance(a, Num) else a.c
            return I.new(st, Arr(c, tuple((ONE, None) for _ in shp), a.ty if isinstance(a, Num) else "bool")) if shp else a
        return I.opaque_value("reshape")
    if a is None or shp is None:
        return I.opaque_value("reshape")
    src = [(k, ax) for k, ax in enumerate(a.axes) if not (ax[0].const() == 1 and ax[1] is None)]
    # same axes with length-one axes inserted or removed
    want = [s for s in reversed(shp)]
    pos = []
    it = list(src)
    axes = []
    ren = {}
    ok = True
    for t, s in enumerate(want):
        c = s.const()
        if c == 1:
            axes.append((ONE, None))
            continue
        if not it:
            if c == -1:
                axes.append((ONE, None))
                continue
            ok = False
            break
        k, ax = it[0]
        if c == -1:
            rest = [x for x in want[t + 1:] if x.const() != 1]
            if len(rest) != len(it) - 1:
                ok = False
                break
        elif s is not axis_len(ax) and I.decide(st, mk_cmp("eq", s, axis_len(ax))) is not True:
            ok = False
            break
        it.pop(0)
        axes.append(ax)
        if k != t:
            ren[idx(k)] = P(idx(t))
    if ok and not it and a.rep == "idx":
        gone = {idx(k): ZERO for k, ax in enumerate(a.axes) if ax[0].const() == 1}
        c = T.subst(a.content, {**{k: v for k, v in gone.items() if k not in ren}, **ren}) if (gone or ren) else a.content
        return viewof(I, st, v, replace(a, content=c, axes=tuple(axes)))
    if ok and not it and len(axes) == len(a.axes):
        return viewof(I, st, v, a)
    # flattening
    if len(shp) == 1 and a.rep == "idx":
        tot = ONE
        for ax in a.axes:
            tot = tot * axis_len(ax)
        cs = [ax[0].const() for ax in a.axes]
        if all(c is not None for c in cs[:-1]):
            sub = {}
            q = I0
            # trailing axis lengths known: decompose the flat index
            m = 1
            for k, ax in enumerate(a.axes[:-1]):
                sub[idx(k)] = T.mk_app("mod", (T.mk_app("floordiv", (I0, P(m))) if m != 1 else I0, P(cs[k])))
                m *= int(cs[k])
            sub[idx(len(a.axes) - 1)] = T.mk_app("floordiv", (I0, P(m)))
            return viewof(I, st, v, replace(a, content=T.subst(a.content, sub), axes=((tot, None),)))
        c = P(Atom("app", "flat", (Lam(numify(a.content), a.axes),), (I0,)))
        return viewof(I, st, v, replace(a, content=c, axes=((tot, None),), dtype=a.dtype if a.dtype != "bool" else "int"))
    lens = list(reversed([(s if s.const() != -1 else None) for s in shp]))
    if None in lens:
        tot = ONE
        for ax in a.axes:
            tot = tot * axis_len(ax)
        for s in lens:
            if s is not None:
                tot = tot / s
        lens = [tot if s is None else s for s in lens]
    return viewof(I, st, v, replace(a, content=I.opq("reshape") if isinstance(a.content, Poly) else T.Cond("app", "opq", (I.opq("reshape"),)), axes=tuple((s, None) for s in lens), rep="idx"))


def ravel_h(copy):
    def h(I, st, args, kw, node):
        a = as_arr(I, st, args[0], node)
        if isinstance(a, (Num, Bool)):
            return I.new(st, Arr(a.p if isinstance(a, Num) else a.c, ((ONE, None),), a.ty if isinstance(a, Num) else "bool"))
        if isinstance(a, Arr) and len(a.axes) == 1:
            r = a if not copy else N.fresh_copy(a)
            return viewof(I, st, args[0], a) if not copy else I.new(st, r)
        r = reshape_h(I, st, [args[0], num(-1)], {}, node)
        if copy and isinstance(r, Ref):
            st.heap[r.oid] = N.fresh_copy(st.heap[r.oid])
        return r
    return h


def atleast_h(n):
    def h(I, st, args, kw, node):
        a = as_arr(I, st, args[0], node)
        if a is None:
            return I.opaque_value("atleast")
        if isinstance(a, (Num, Bool)):
            return I.new(st, Arr(a.p if isinstance(a, Num) else a.c, tuple((ONE, None) for _ in range(n)), a.ty if isinstance(a, Num) else "bool"))
        if len(a.axes) >= n:
            return args[0] if isinstance(args[0], Ref) and isinstance(st.heap[args[0].oid], Arr) else I.new(st, a)
        return viewof(I, st, args[0], replace(a, axes=a.axes + tuple((ONE, None) for _ in range(n - len(a.axes)))))
    return h


def squeeze_h(I, st, args, kw, node):
    a = as_arr(I, st, args[0], node)
    if not isinstance(a, Arr):
        return a
    keep = [ax for ax in reversed(a.axes) if not (ax[0].const() == 1 and ax[1] is None)]
    if len(keep) == len(a.axes):
        return viewof(I, st, args[0], a)
    if not keep:
        return I.arr_scalar(a)
    return reshape_h(I, st, [args[0], Tup(tuple(Num(axis_len(x), "int") for x in keep))], {}, node)


def expand_dims_h(I, st, args, kw, node):
    a = as_arr(I, st, args[0], node)
    k = const_int(I, st, args[1] if len(args) > 1 else kw["axis"])
    if not isinstance(a, Arr) or k is None:
        return I.opaque_value("expand_dims")
    n = len(a.axes) + 1
    key = [SliceV(NONE, NONE, NONE)] * (n - 1)
    key.insert(k % n, NONE)
    return getitem(I, st, args[0], Tup(tuple(key)), node)


def flip_h(fixed):
    def h(I, st, args, kw, node):
        a = as_arr(I, st, args[0], node)
        if not isinstance(a, Arr):
            return I.opaque_value("flip")
        n = len(a.axes)
        ax = fixed
        if fixed is None:
            v = args[1] if len(args) > 1 else kw.get("axis", NONE)
            if isinstance(v, NoneV):
                ax = list(range(n))
            elif isinstance(v, Num):
                ax = [const_int(I, st, v)]
            else:
                its = I.iter_items(st, v, node)
                ax = [const_int(I, st, x) for x in its] if its is not None else [None]
        else:
            if n < (2 if fixed == [1] else 1):
                I.exc(st, "ValueError", None, node)
        if any(x is None or not -n <= x < n for x in ax):
            if any(x is not None and not -n <= x < n for x in ax):
                I.exc(st, "ValueError", None, node)
            return copy_opaque(I, st, args[0], node, "flip")
        ax = {x % n for x in ax}
        key = tuple(SliceV(NONE, NONE, num(-1)) if i in ax else SliceV(NONE, NONE, NONE) for i in range(n))
        v = args[0]
        if not (isinstance(v, Ref) and isinstance(st.heap[v.oid], Arr)):
            v = I.new(st, a)
        return getitem(I, st, v, Tup(key), node)
    return h


def join(I, st, arrs, k, node):
    """concatenate along storage axis k"""
    if any(x.rep != "idx" for x in arrs):
        arrs = [op_to_idx(x) for x in arrs]
        if any(x.rep != "idx" for x in arrs):
            return I.opaque_value("joined matrices")
    nd = {len(x.axes) for x in arrs}
    if len(nd) != 1 or k is None:
        I.ev(st, "shape-mismatch", node)
        I.exc(st, "ValueError", None, node)
    for j in range(len(arrs[0].axes)):
        if j == k:
            continue
        l0 = axis_len(arrs[0].axes[j])
        for x in arrs[1:]:
            if axis_len(x.axes[j]) is not l0:
                d = I.decide(st, mk_cmp("eq", l0, axis_len(x.axes[j])))
                if d is False:
                    I.exc(st, "ValueError", None, node)
                if d is None:
                    I.ev(st, "shape-unknown", node, lens=(l0, axis_len(x.axes[j])))
    if any(x.axes[k][1] is not None for x in arrs) and len(arrs) > 1:
        r = replace(arrs[0], content=I.opq("joined selections"))
        return I.new(st, N.fresh_copy(r))
    off = ZERO
    pieces = []
    boolean = all(isinstance(x.content, Cond) for x in arrs)
    for x in arrs:
        c = x.content if boolean else numify(x.content)
        if off is not ZERO:
            c = T.subst(c, {idx(k): P(idx(k)) - off})
        off = off + x.axes[k][0]
        pieces.append((c, off))
    c = pieces[-1][0]
    for q, end in reversed(pieces[:-1]):
        g = mk_cmp("lt", P(idx(k)), end)
        c = mk_or(mk_and(g, q), mk_and(mk_not(g), c)) if boolean else T.ite(g, q, c)
    axes = tuple((off, None) if j == k else ax for j, ax in enumerate(arrs[0].axes))
    sp = {x.space for x in arrs if x.space is not None}
    return I.new(st, Arr(c, axes, promote(*[x.dtype for x in arrs]), space=next(iter(sp)) if len(sp) == 1 else None))


def parts(I, st, v, node, least=0):
    v = I.pick(st, v)
    its = I.iter_items(st, v, node) if isinstance(v, (Tup, Ref)) else None
    if its is None:
        return None
    out = []
    for x in its:
        a = as_arr(I, st, x, node)
        if a is None:
            return None
        if isinstance(a, (Num, Bool)):
            a = Arr(a.p if isinstance(a, Num) else a.c, (), a.ty if isinstance(a, Num) else "bool")
        while len(a.axes) < least:
            a = replace(a, axes=a.axes + ((ONE, None),))
        out.append(a)
    return out


def concat_h(I, st, args, kw, node):
    xs = parts(I, st, args[0], node)
    v = args[1] if len(args) > 1 else kw.get("axis", num(0))
    if not xs or not isinstance(v, Num):
        return I.opaque_value("concatenate")
    if any(not x.axes for x in xs):
        I.exc(st, "ValueError", None, node)
    return join(I, st, xs, axis_index(xs[0], const_int(I, st, v)), node)


def hstack_h(I, st, args, kw, node):
    xs = parts(I, st, args[0], node, 1)
    if not xs:
        return I.opaque_value("hstack")
    return join(I, st, xs, 0 if len(xs[0].axes) == 1 else axis_index(xs[0], 1), node)


def vstack_h(I, st, args, kw, node):
    xs = parts(I, st, args[0], node, 2)
    if not xs:
        return I.opaque_value("vstack")
    return join(I, st, xs, len(xs[0].axes) - 1, node)


def column_stack_h(I, st, args, kw, node):
    xs = parts(I, st, args[0], node, 1)
    if not xs:
        return I.opaque_value("column_stack")
    ys = []
    for x in xs:
        if len(x.axes) == 1:
            x = replace(x, content=T.subst(x.content, {idx(0): I1}), axes=((ONE, None),) + x.axes)
        ys.append(x)
    return join(I, st, ys, 0, node)


def stack_h(I, st, args, kw, node):
    v = args[1] if len(args) > 1 else kw.get("axis", num(0))
    its = None
    src = I.pick(st, args[0])
    if isinstance(src, (Tup, Ref)):
        its = I.iter_items(st, src, node)
    if its is None:
        a = as_arr(I, st, src, node)
        if isinstance(a, Arr) and isinstance(v, Num) and v.p is ZERO:
            return I.new(st, N.fresh_copy(a))
        return I.opaque_value("stack")
    ys = [expand_dims_h(I, st, [x, v], {}, node) for x in its]
    return concat_h(I, st, [Tup(tuple(ys)), v], {}, node)


def append_h(I, st, args, kw, node):
    a = as_arr(I, st, args[0], node)
    if isinstance(a, Arr) and len(a.axes) == 1 or not isinstance(a, Arr):
        return hstack_h(I, st, [Tup((args[0], args[1]))], {}, node)
    return concat_h(I, st, [Tup((args[0], args[1])), kw.get("axis", args[2] if len(args) > 2 else num(0))], {}, node)


def tile_h(I, st, args, kw, node):
    a = as_arr(I, st, args[0], node)
    reps = shape_of(I, st, args[1] if len(args) > 1 else kw["reps"], node)
    if not isinstance(a, Arr) or reps is None or a.rep != "idx":
        return I.opaque_value("tile")
    nd = max(len(reps), len(a.axes))
    rp = list(reversed(reps)) + [ONE] * (nd - len(reps))
    ax = list(a.axes) + [(ONE, None)] * (nd - len(a.axes))
    sub = {}
    out = []
    for k in range(nd):
        n = ax[k][0]
        if rp[k].const() == 1:
            out.append(ax[k])
            continue
        if n.const() == 1 and ax[k][1] is None:
            sub[idx(k)] = ZERO
            out.append((rp[k], None))
        else:
            sub[idx(k)] = T.mk_app("mod", (P(idx(k)), n))
            out.append((n * rp[k], None))
    sub = {k: v for k, v in sub.items() if k in a.content.deps}
    return I.new(st, Arr(T.subst(a.content, sub) if sub else a.content, tuple(out), a.dtype, space=a.space))


def broadcast_to_h(I, st, args, kw, node):
    a = as_arr(I, st, args[0], node)
    shp = shape_of(I, st, args[1] if len(args) > 1 else kw["shape"], node)
    if a is None or shp is None:
        return I.opaque_value("broadcast_to")
    z = Arr(ZERO, tuple((p, None) for p in reversed(shp)), "int")
    r = ew(I, st, "copy", lambda p, q: p, [a, z], node)
    if isinstance(r, Arr):
        r = replace(r, dtype=a.dtype if isinstance(a, Arr) else a.ty, base=(args[0].oid, "part") if isinstance(args[0], Ref) else None)
        return I.new(st, r)
    return r


def flatnonzero_h(I, st, args, kw, node):
    a = as_arr(I, st, args[0], node)
    if isinstance(a, Arr) and len(a.axes) == 1:
        return IndexOf(Lam(condify(a.content), a.axes))
    return I.opaque_value("flatnonzero")


def nonzero_h(I, st, args, kw, node):
    r = flatnonzero_h(I, st, args, kw, node)
    return Tup((r,)) if isinstance(r, IndexOf) else r


def roll_h(I, st, args, kw, node):
    a = as_arr(I, st, args[0], node)
    if not isinstance(a, Arr) or len(a.axes) != 1 or not isinstance(args[1], Num):
        return copy_opaque(I, st, args[0], node, "roll")
    n = a.axes[0][0]
    return I.new(st, Arr(T.subst(a.content, {idx(0): T.mk_app("mod", (I0 - args[1].p, n))}), a.axes, a.dtype, space=a.space))


def fill_h(I, st, args, kw, node):
    from .ops import setitem
    setitem(I, st, args[0], EllipsisV(), args[1], node)
    return NONE


def copyto_h(I, st, args, kw, node):
    from .ops import setitem
    if "where" in kw:
        setitem(I, st, args[0], kw["where"], args[1], node)
    else:
        setitem(I, st, args[0], EllipsisV(), args[1], node)
    return NONE


def tolist_h(I, st, args, kw, node):
    its = I.iter_items(st, args[0], node)
    if its is None:
        a = as_arr(I, st, args[0], node)
        if isinstance(a, Arr) and len(a.axes) == 1:
            k = Atom("idx", "l%d" % next(T._fresh))
            return I.new(st, ListO((), None, Seq(Num(T.subst(a.content, {idx(0): P(k)}), a.dtype), k, a.axes[0][0])))
        return I.opaque_value("tolist")
    return I.new(st, ListO(tuple(its)))


def item_h(I, st, args, kw, node):
    a = as_arr(I, st, args[0], node)
    if isinstance(a, (Num, Bool)):
        return a
    if len(args) > 1:
        return getitem(I, st, args[0], args[1], node)
    if all(x[0].const() == 1 for x in a.axes):
        return I.arr_scalar(a)
    return I.opaque_value("item")


def install(I):
    R = lambda names, h: N.reg(I, names, h)
    R("numpy.transpose ndarray.transpose", transpose_h)
    R("numpy.swapaxes ndarray.swapaxes", swapaxes_h)
    R("numpy.moveaxis", moveaxis_h)
    R("numpy.reshape ndarray.reshape", reshape_h)
    R("numpy.ravel ndarray.ravel", ravel_h(False))
    R("ndarray.flatten", ravel_h(True))
    R("numpy.atleast_1d", atleast_h(1))
    R("numpy.atleast_2d", atleast_h(2))
    R("numpy.squeeze ndarray.squeeze", squeeze_h)
    R("numpy.expand_dims", expand_dims_h)
    R("numpy.flip", flip_h(None))
    R("numpy.flipud", flip_h([0]))
    R("numpy.fliplr", flip_h([1]))
    R("numpy.concatenate", concat_h)
    R("numpy.hstack", hstack_h)
    R("numpy.vstack numpy.row_stack", vstack_h)
    R("numpy.column_stack", column_stack_h)
    R("numpy.stack", stack_h)
    R("numpy.append", append_h)
    R("numpy.tile", tile_h)
    R("numpy.broadcast_to", broadcast_to_h)
    R("numpy.flatnonzero", flatnonzero_h)
    R("numpy.nonzero ndarray.nonzero", nonzero_h)
    R("numpy.roll", roll_h)
    R("ndarray.fill", fill_h)
    R("numpy.copyto", copyto_h)
    R("ndarray.tolist", tolist_h)
    R("ndarray.item", item_h)
