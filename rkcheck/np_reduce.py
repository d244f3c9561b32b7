"""Reductions."""
from __future__ import annotations
from .terms import *
from .terms import P, Fraction
from . import terms as T
from .values import *
from .arrays import *
from .arrays import LAM
from .arrays import ew, put, as_arr, write, numify, shift, axis_len
from .ops import divide, condify
from . import npmodel as N
from .np_shape import axis_index, const_int
from .np_elem import pick_extreme
from .series import contour_mean


def axes_arg(I, st, a, v, node):
    """set of storage axes to reduce; None = unknown"""
    n = len(a.axes)
    v = I.pick(st, v)
    if isinstance(v, NoneV):
        return set(range(n))
    if isinstance(v, Num):
        k = const_int(I, st, v)
        if k is None:
            return None
        k = axis_index(a, k)
        if k is None:
            I.exc(st, "ValueError", Str("axis out of bounds"), node)
        return {k}
    its = I.iter_items(st, v, node)
    if its is None:
        return None
    out = set()
    for x in its:
        k = axis_index(a, const_int(I, st, x))
        if k is None:
            I.exc(st, "ValueError", None, node)
        out.add(k)
    return out


def bindlam(content, axes, red):
    """Lam with the reduced axes first; remaining free indices are passed as arguments"""
    red = sorted(red)
    free = sorted({a.args[0] for a in free_idx(content)} - set(red))
    for k in red:
        m = axes[k][1]
    ren = {}
    for i, k in enumerate(red + free):
        if k != i:
            ren[idx(k)] = P(idx(i))
    body = T.subst(content, ren) if ren else content
    ax = []
    for k in red:
        ax.append(axes[k])
    return Lam(body, tuple(ax), None), tuple(P(idx(k)) for k in free)


def sum_axis(I, st, body, k, ax):
    """sum of body over index #k with axis (length, mask)"""
    n, mask = ax
    if mask is not None:
        body = T.ite(mask if k == 0 else T.subst(mask, {idx(0): P(idx(k))}), body, ZERO)
    b = idx(k)
    if b not in body.deps:
        return body * n
    c = n.const()
    if c is not None and 0 <= c <= 12:
        r = ZERO
        for i in range(int(c)):
            r = r + T.subst(body, {b: P(i)})
        return r
    if I.collapse_means:
        m = contour_mean(body, b, n)
        if m is not None:
            I.ev(st, "contour-mean", None, n=n)
            return m * n
    out = ZERO
    for (pw, ex), cf in body.t.items():
        q = P(cf)
        inner = ONE
        for a, e in pw:
            f = T.power(P(a), e)
            if b in a.deps:
                inner = inner * f
            else:
                q = q * f
        if ex is not None:
            keep, rest = ZERO, ZERO
            for (pw2, ex2), c2 in ex.t.items():
                t = Poly({(pw2, ex2): c2})
                if b in t.deps:
                    keep = keep + t
                else:
                    rest = rest + t
            inner = inner * T.exp(keep)
            q = q * T.exp(rest)
        if b not in inner.deps:
            out = out + q * inner * n
            continue
        sq = square_of(inner)
        if sq is not None and len(free_idx(inner)) == 1:
            lam, ix = bindlam(sq, {k: (n, None)}, [k])
            out = out + q * T.power(T.mk_app("norm", (lam,)), 2)
            continue
        lam, ix = bindlam(inner, {k: (n, None)}, [k])
        out = out + q * T.mk_app("sum", (lam,), ix)
    return out


def square_of(p):
    """x if p == |x|^2 as a single monomial"""
    s = p.single()
    if s is None or s[0] != 1 or s[1][1] is not None:
        return None
    pw = dict(s[1][0])
    out = ONE
    done = set()
    for a, e in pw.items():
        if a in done:
            continue
        if a.kind == "app" and a.args[0] == "abs" and e == 2:
            out = out * a.args[1][0]
        elif T.is_real_atom(a) and e == 2:
            out = out * P(a)
        elif e == 1:
            c = T.conj(P(a)).atom()
            if c is not None and c is not a and pw.get(c) == 1:
                done.add(c)
                base = a if not (a.kind == "app" and a.args[0] == "conj") else c
                out = out * P(base)
            else:
                return None
        else:
            return None
        done.add(a)
    return out


def drop_axes(a, red, content):
    """remaining axes renumbered"""
    keep = [k for k in range(len(a.axes)) if k not in red]
    ren = {idx(k): P(idx(i)) for i, k in enumerate(keep) if i != k}
    if ren:
        content = T.subst(content, ren)
    return tuple(a.axes[k] for k in keep), content


def reduce_args(I, st, args, kw, node, pos=1):
    a = as_arr(I, st, args[0], node)
    ax = args[pos] if len(args) > pos else kw.get("axis", NONE)
    kd = kw.get("keepdims", Bool(FALSE))
    return a, ax, isinstance(kd, Bool) and kd.c is TRUE


def finish(I, st, a, red, content, dt, keep, space=None):
    if keep:
        axes = tuple((ONE, None) if k in red else ax for k, ax in enumerate(a.axes))
    else:
        axes, content = drop_axes(a, red, content)
    if not axes:
        return Bool(content) if isinstance(content, Cond) else Num(content, dt)
    return I.new(st, Arr(content, axes, dt, space=space))


def sum_h(mean):
    def h(I, st, args, kw, node):
        v0 = I.pick(st, args[0])
        if isinstance(v0, Ref) and isinstance(st.heap[v0.oid], ListO) and st.heap[v0.oid].sym is None and st.heap[v0.oid].prefix is None:
            pass
        a, ax, keep = reduce_args(I, st, args, kw, node)
        if a is None:
            return I.opaque_value("sum")
        if isinstance(a, (Num, Bool)):
            return a if isinstance(a, Num) else Num(numify(a.c), "int")
        red = axes_arg(I, st, a, ax, node)
        if red is None:
            return I.opaque_value("sum axis")
        a2 = op_to_idx(a)
        if a2.rep == "op" and len(a.axes) == 3 and set(red) == {2} and not keep and not (set(kw) - {"axis"}):
            c = sum_axis(I, st, a.content, 2, a.axes[2])
            return I.new(st, Arr(divide(c, axis_len(a.axes[2])) if mean else c, a.axes[:2], promote("float", a.dtype) if mean else a.dtype, "op"))
        if a2.rep != "idx":
            return finish(I, st, replace(a, rep="idx"), red, bad(I, "sum over matrix entries"), a.dtype, keep)
        a = a2
        if isinstance(a.content, Cond) and len(a.axes) == 1 and len(red) == 1 and not mean and not keep and not (set(kw) - {"axis"}) and a.axes[0][0].const() is None:
            # the number of entries that are true
            m = a.axes[0][1]
            return Num(axis_len((a.axes[0][0], a.content if m is None else mk_and(m, a.content))), "int")
        c = numify(a.content)
        dt = a.dtype if a.dtype != "bool" else "int"
        tot = ONE
        sp = a.space
        for k in sorted(red, reverse=True):
            c = sum_axis(I, st, c, k, a.axes[k])
            tot = tot * axis_len(a.axes[k])
        if sp == "phys" and 0 in red:
            sp = None
        if mean:
            c = divide(c, tot)
            dt = promote("float", dt)
        I.ev(st, "reduce-mean" if mean else "reduce-sum", node, src=a, out=c)
        from .np_elem import want_dtype, out_where
        return out_where(I, st, want_dtype(I, st, finish(I, st, a, red, c, dt, keep, sp), kw, node), kw, node)
    return h


def average_h(I, st, args, kw, node):
    if "weights" in kw and not isinstance(kw["weights"], NoneV):
        return I.opaque_value("weighted average")
    return sum_h(True)(I, st, args, kw, node)


def prod_h(I, st, args, kw, node):
    v = I.pick(st, args[0])
    its = I.iter_items(st, v, node) if isinstance(v, (Tup, Ref)) and not (isinstance(v, Ref) and isinstance(st.heap[v.oid], Arr)) else None
    if its is not None:
        from .ops import binop
        r = num(1)
        for x in its:
            r = binop(I, st, "Mult", r, x, node)
        return r
    a = as_arr(I, st, v, node)
    if isinstance(a, Num):
        return a
    return I.opaque_value("prod")


def extreme_h(ismax, builtin=False):
    nm = "max" if ismax else "min"

    def h(I, st, args, kw, node):
        if not builtin:
            a, ax, keep = reduce_args(I, st, args, kw, node)
        if builtin or a is None or isinstance(I.pick(st, args[0]), Tup) or (isinstance(I.pick(st, args[0]), Ref) and isinstance(st.heap[I.pick(st, args[0]).oid], ListO)):
            v = args
            if len(args) == 1 or not builtin:
                v = I.pick(st, args[0])
                if isinstance(v, Ref) and isinstance(st.heap[v.oid], ListO) and st.heap[v.oid].items == () and st.heap[v.oid].prefix is None and st.heap[v.oid].sym is None:
                    if "default" in kw:
                        return kw["default"]
                    I.exc(st, "ValueError", None, node)
                its = I.iter_items(st, v, node) if isinstance(v, (Tup, Ref, RangeV)) else None
                if its is None:
                    if builtin and as_arr(I, st, v, node) is not None:
                        return extreme_h(ismax)(I, st, [v], {}, node)
                    return I.opaque_value(nm)
                v = its
            if "key" in kw and not isinstance(kw["key"], NoneV):
                return I.opaque_value(nm + " key")
            xs = [as_arr(I, st, x, node) for x in v]
            if not xs:
                I.exc(st, "ValueError", None, node)
            if all(isinstance(x, (Num, Bool)) for x in xs):
                r = xs[0].p if isinstance(xs[0], Num) else numify(xs[0].c)
                ty = xs[0].ty if isinstance(xs[0], Num) else "int"
                for x in xs[1:]:
                    q = x.p if isinstance(x, Num) else numify(x.c)
                    r = pick_extreme(I, st, r, q, ismax, None if builtin else "np")
                    ty = promote(ty, x.ty if isinstance(x, Num) else "int")
                I.ev(st, "extreme", node, ismax=ismax, builtin=builtin, vals=tuple(xs))
                return Num(r, ty)
            if builtin and any(x is None for x in xs):
                for x in v:
                    if isinstance(x, NoneV):
                        I.exc(st, "TypeError", None, node)
            if builtin:
                return I.opaque_value(nm)
            a, ax, keep = reduce_args(I, st, args, kw, node)
            if a is None:
                return I.opaque_value(nm)
        if isinstance(a, (Num, Bool)):
            return a
        red = axes_arg(I, st, a, ax, node)
        if red is None:
            return I.opaque_value(nm + " axis")
        zero_len = [k for k in red if a.axes[k][0] is ZERO]
        if zero_len:
            I.exc(st, "ValueError", None, node)
        c = numify(a.content)
        if a.rep != "idx":
            lam, ix = Lam(c, a.axes, a.rep), ()
        else:
            if not any(idx(k) in c.deps for k in red) and all(a.axes[k][1] is None for k in red):
                return finish(I, st, a, red, c, a.dtype, keep)
            m = mono_extreme(I, st, a, red, c, ismax)
            if m is not None:
                return finish(I, st, a, red, m, a.dtype, keep)
            lam, ix = bindlam(c, a.axes, red)
        I.ev(st, "reduce-extreme", node, src=a, ismax=ismax)
        return finish(I, st, a, red, T.mk_app(nm, (lam,), ix), a.dtype if a.dtype != "bool" else "int", keep)
    return h


def mono_extreme(I, st, a, red, c, ismax):
    """extreme of an affine function of one index over its whole axis"""
    if len(red) != 1 or len(a.axes) != 1 or a.axes[0][1] is not None:
        return None
    b = idx(0)
    n = a.axes[0][0]
    d = T.subst(c, {b: P(b) + ONE}) - c
    if b in d.deps or d.deps & {x for x in d.deps if x.kind in ("ite", "app")}:
        return None
    if I.decide(st, mk_cmp("le", ZERO, d)) is True:
        at = n - ONE if ismax else ZERO
    elif I.decide(st, mk_cmp("le", d, ZERO)) is True:
        at = ZERO if ismax else n - ONE
    else:
        return None
    return T.subst(c, {b: at})


def any_h(isall):
    def h(I, st, args, kw, node):
        v = I.pick(st, args[0])
        its = None
        if isinstance(v, (Tup, Ref)) and not (isinstance(v, Ref) and isinstance(st.heap[v.oid], Arr)):
            its = I.iter_items(st, v, node)
        if its is not None:
            cs = [I.truth(st, x, node) for x in its]
            return Bool(mk_and(*cs) if isall else mk_or(*cs)) if cs else Bool(TRUE if isall else FALSE)
        a, ax, keep = reduce_args(I, st, args, kw, node)
        if isinstance(v, Ref) and isinstance(st.heap[v.oid], ListO) and st.heap[v.oid].sym is not None:
            s = st.heap[v.oid].sym
            if not st.heap[v.oid].items and st.heap[v.oid].prefix is None and isinstance(s.elem, Bool):
                a = Arr(T.subst(s.elem.c, {s.idx: P(idx(0))}), ((s.n, None),), "bool")
        if a is None:
            return Bool(T.Cond("app", "any", (Lam(P(T.fresh("unknown")), ()),)))
        if isinstance(a, Num):
            return Bool(condify(a.p))
        if isinstance(a, Bool):
            return a
        red = axes_arg(I, st, a, ax, node)
        c = condify(a.content) if isinstance(a.content, Poly) else a.content
        if red is None or len(red) != len(a.axes) or a.rep != "idx":
            if red is not None and len(red) == len(a.axes):
                return Bool(T.Cond("app", "any", (Lam(c, a.axes, a.rep),)))
            return I.opaque_value("any axis")
        return Bool(any_cond(I, st, c, a.axes, isall))
    return h


def any_cond(I, st, c, axes, isall):
    if isall:
        return mk_not(any_cond(I, st, mk_not(c), axes, False))
    for k, ax in enumerate(axes):
        if ax[1] is not None:
            c = mk_and(ax[1] if k == 0 else T.subst(ax[1], {idx(0): P(idx(k))}), c)
    if c is FALSE:
        return FALSE
    if c.kind == "or":
        return mk_or(*[any_cond(I, st, x, tuple((n, None) for n, _ in axes), False) for x in c.args[0]])
    dep = lambda x: bool(free_idx(x)) or LAM in x.deps  # entries of an eigenbasis vector vary through the eigenvalue
    if not dep(c):
        nz = [mk_cmp("lt", ZERO, n) for n, _ in axes]
        return mk_and(c, *nz)
    if c.kind == "and":
        out = [x for x in c.args[0] if not dep(x)]
        ins = [x for x in c.args[0] if dep(x)]
        if out:
            return mk_and(*out, any_cond(I, st, mk_and(*ins), axes, False))
    return T.mk_capp("any", Lam(c, tuple((n, None) for n, _ in axes)))


def count_h(I, st, args, kw, node):
    a = as_arr(I, st, args[0], node)
    if not isinstance(a, Arr):
        return I.opaque_value("count")
    c = condify(a.content) if isinstance(a.content, Poly) else a.content
    if len(a.axes) == 1:
        m = a.axes[0][1]
        if m is not None:
            c = mk_and(m, c)
        return Num(P(Atom("app", "count", (Lam(c, (a.axes[0][0],)),))), "int")
    return I.opaque_value("count")


def norm_h(I, st, args, kw, node):
    a = as_arr(I, st, args[0], node)
    o = args[1] if len(args) > 1 else kw.get("ord", NONE)
    ax = args[2] if len(args) > 2 else kw.get("axis", NONE)
    if a is None:
        return I.opaque_value("norm")
    if isinstance(a, (Num, Bool)):
        return Num(T.absval(a.p if isinstance(a, Num) else numify(a.c)), "float")
    od = None if isinstance(o, NoneV) else (o.p.const() if isinstance(o, Num) else o.s if isinstance(o, Str) else "?")
    if isinstance(o, Num) and od is None:
        od = "inf" if o.p.atom() is T.INF_ else "?"
    if od == 2 and len(a.axes) == 1 or od == "fro":
        od = None
    if a.rep != "idx" or (not isinstance(ax, NoneV) and len(a.axes) > 1) or od == "?":
        return Num(P(Atom("app", "norm", (Lam(numify(a.content), a.axes, (a.rep, od)),))), "float")
    I.ev(st, "norm", node, src=a, ord=od)
    if I.ieee:
        return Num(P(Atom("app", "norm0", (Lam(numify(a.content), a.axes, od),))), "float")
    return Num(norm_p(numify(a.content), a.axes, od), "float")


def norm_p(c, axes, od=None):
    """norm of the vector c; common scalar factors are taken out"""
    if c is ZERO:
        return ZERO
    common = None
    for (pw, ex), cf in c.t.items():
        e = {a: x for a, x in pw if not free_idx(a) and not (a.kind == "idx")}
        common = e if common is None else {a: min(common.get(a, 0), e.get(a, 0)) for a in set(common) | set(e)}
    f = ONE
    for a, e in (common or {}).items():
        if e != 0:
            f = f * T.power(P(a), e)
    k = min(c.t, key=T._mono_key)
    f = f * P(abs(c.t[k]))
    if c.t[k] < 0:
        f = -f
    inner = c * T.power(f, -1)
    return T.absval(f) * T.mk_app("norm", (Lam(inner, axes, od),))


def arg_h(nm):
    def h(I, st, args, kw, node):
        a = as_arr(I, st, args[0], node)
        if isinstance(a, Arr) and len(a.axes) == 1 and a.rep == "idx":
            return Num(P(Atom("app", nm, (Lam(numify(a.content), a.axes),))), "int")
        return I.opaque_value(nm)
    return h


def opaque_arr(nm):
    def h(I, st, args, kw, node):
        a = as_arr(I, st, args[0], node)
        if isinstance(a, Arr):
            return I.new(st, N.fresh_copy(replace(a, content=P(Atom("app", nm, (Lam(numify(a.content), a.axes, a.rep),), tuple(P(idx(k)) for k in range(len(a.axes))))), rep="idx")))
        return I.opaque_value(nm)
    return h


def ranked(I, st, args, kw, node):
    """(array, entries, position of each entry in ascending order) of a short real vector"""
    a = as_arr(I, st, args[0], node)
    if not isinstance(a, Arr) or len(a.axes) != 1 or a.rep != "idx" or a.dtype not in ("int", "float") or not isinstance(a.content, Poly) or a.axes[0][1] is not None or len(args) > 1:
        return a, None, None
    m = a.axes[0][0].const()
    if m is None or not 0 < m <= 6 or set(kw) - {"kind", "stable"}:
        return a, None, None
    xs = [T.subst(a.content, {idx(0): P(i)}) for i in range(int(m))]
    if any(T.maybe_nan(x) for x in xs):
        return a, None, None
    before = lambda i, j: mk_cmp("le", xs[j], xs[i]) if j < i else mk_cmp("lt", xs[j], xs[i])
    pos = [sum((numify(before(i, j)) for j in range(len(xs)) if j != i), ZERO) for i in range(len(xs))]
    return a, xs, pos


def chosen(vs, pos):
    """entry k is the value whose position is k"""
    r = vs[-1]
    for v, q in list(zip(vs, pos))[-2::-1]:
        r = T.ite(mk_cmp("eq", q, P(idx(0))), v, r)
    return r


def argsort_h(I, st, args, kw, node):
    a, xs, pos = ranked(I, st, args, kw, node)
    if xs is None:
        return opaque_arr("argsort")(I, st, args, kw, node)
    return I.new(st, N.fresh_copy(replace(a, content=chosen([P(i) for i in range(len(xs))], pos), dtype="int", space=None)))


def sort_h(I, st, args, kw, node):
    a, xs, pos = ranked(I, st, args, kw, node)
    if xs is None:
        return opaque_arr("sort")(I, st, args, kw, node)
    return I.new(st, N.fresh_copy(replace(a, content=chosen(xs, pos))))


def len_h(I, st, args, kw, node):
    v = args[0]
    if isinstance(v, Str) and v.known:
        return num(len(v.s))
    if isinstance(v, (Num, Bool, NoneV)):
        I.exc(st, "TypeError", None, node)
    if isinstance(v, Tup):
        return num(len(v.items))
    if isinstance(v, RangeV):
        return Num(range_len(I, st, v), "int")
    if isinstance(v, IndexOf):
        return Num(P(Atom("app", "count", (Lam(v.lam.body, (v.lam.axes[0][0],)),))), "int")
    if isinstance(v, Ref):
        o = st.heap[v.oid]
        if isinstance(o, Arr):
            return Num(axis_len(o.axes[-1]), "int") if o.axes else I.exc(st, "TypeError", None, node)
        if isinstance(o, ListO):
            n = ZERO
            for x in o.items:
                from .interp import CondItem
                n = n + (T.ite(x.c, P(len(x.items)), ZERO) if isinstance(x, CondItem) else ONE)
            if o.sym is not None:
                n = n + o.sym.n
            if o.prefix is not None:
                n = n + prefix_len(o.prefix)
            return Num(n, "int")
        if isinstance(o, DictO):
            return num(len(o.d))
        if isinstance(o, Inst) and isinstance(o.cls, Cls):
            m = I.find_attr(o.cls, "__len__")
            if m is not None:
                return I.call(st, Bound(m, v), [], {}, node)
            I.exc(st, "TypeError", None, node)
    if isinstance(v, Cls) and v.extra.get("enum"):
        return num(len(v.extra["members"]))
    return Num(I.opq("len"), "int")


def skip_nan(name, neutral):
    """reductions that leave out NaN"""
    def h(I, st, args, kw, node):
        x = as_arr(I, st, args[0], node)
        if isinstance(x, Arr) and isinstance(x.content, Poly) and T.maybe_nan(x.content) or I.ieee:
            m = I.call_ext(st, "numpy.isnan", [args[0]], {}, node)
            args = [I.call_ext(st, "numpy.where", [m, Num(neutral, "float"), args[0]], {}, node)] + list(args[1:])
        return I.call_ext(st, name, args, kw, node)
    return h


def prefix_len(p):
    """number of entries the earlier passes of a loop left in a list"""
    return p[1] if p[0] == "sized" else P(Atom("app", "len", (P(T.sym("list%s" % (p[:2],), int=True)),)))


def install(I):
    R = lambda names, h: N.reg(I, names, h)
    R("numpy.sum ndarray.sum", sum_h(False))
    R("numpy.nansum", skip_nan("numpy.sum", ZERO))
    R("numpy.nanmax", skip_nan("numpy.max", -P(T.INF_)))
    R("numpy.nanmin", skip_nan("numpy.min", P(T.INF_)))
    R("numpy.mean ndarray.mean", sum_h(True))
    R("numpy.average", average_h)
    R("numpy.prod ndarray.prod math.prod", prod_h)
    R("numpy.max numpy.amax ndarray.max", extreme_h(True))
    R("numpy.min numpy.amin ndarray.min", extreme_h(False))
    R("builtins.max", extreme_h(True, True))
    R("builtins.min", extreme_h(False, True))
    R("numpy.any ndarray.any builtins.any", any_h(False))
    R("numpy.all ndarray.all builtins.all", any_h(True))
    R("numpy.count_nonzero", count_h)
    R("numpy.linalg.norm scipy.linalg.norm", norm_h)
    R("numpy.argmax ndarray.argmax", arg_h("argmax"))
    R("numpy.argmin ndarray.argmin", arg_h("argmin"))
    R("numpy.cumsum ndarray.cumsum", opaque_arr("cumsum"))
    R("numpy.sort", sort_h)
    R("numpy.argsort ndarray.argsort", argsort_h)
    R("numpy.unique", opaque_arr("unique"))
    R("builtins.len numpy.size", len_h)
