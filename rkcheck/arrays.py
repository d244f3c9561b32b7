"""Array arithmetic on contents, broadcasting, kinds (index arrays, operator-valued matrices, eigenbasis), storage."""
from __future__ import annotations
from .terms import *
from .terms import P, SYMATTR, Fraction
from . import terms as T
from .values import *

ORDER = ["bool", "int", "float", "any", "complex"]


def strip_idx(c):
    ks = {a: ZERO for a in c.deps if a.kind == "idx" and isinstance(a.args[0], int)}
    return T.subst(c, ks) if ks else c


def bad(I, label):
    I.opaque_seen.append(("bad", label))
    return P(Atom("app", "bad:" + str(label), (P(next(T._fresh)),)))


TAGS = {}  # atom of an uninterpreted matrix -> which elementary images of the operator it was made from


def tags_of(a):
    if not isinstance(a, Arr):
        return frozenset()
    if a.rep == "op":
        return frozenset([("L",) if a.content is P(LAM) else ("f",)])
    return tags_in(a.content)


def tags_in(c):
    out = set()
    ds = T.deps(c)
    wraps = [d for d in ds if d.kind == "app" and d.args[0] in ("conj", "abs", "real", "imag")]
    for d in ds:
        for t in TAGS.get(d, ()):
            for w in wraps:
                if len(TAGS[d]) == 1 and any(x is d for y in w.args[1] if isinstance(y, Poly) for x in y.deps):
                    t = t + (w.args[0],)
            out.add(t)
    return frozenset(out)


def tagged(c, name, tags):
    if name not in ("compare", "add", "sub", "isclose"):
        tags = frozenset(t + (name,) for t in tags) if len(tags) == 1 else tags
    TAGS[c.atom()] = tags
    return c


def hermitian_known(path):
    """does a branch condition say that the operator equals its conjugate transpose"""
    path = [x for c in path for x in (c.args[0] if c.kind == "and" else [c])]
    real = any(c.kind == "not" and c.args[0].kind == "app" and c.args[0].args[0] == "iscomplexobj" and LAM in T.deps(c) for c in path)
    good = [{("L",), ("L", "T", "conj")}, {("L",), ("L", "conj", "T")}, {("L", "conj"), ("L", "T")}]
    if real:
        good.append({("L",), ("L", "T")})

    def lit(c, pos):
        if c.kind == "not":
            return lit(c.args[0], not pos)
        if c.kind in ("or", "and"):
            return any(lit(x, pos) for x in c.args[0])
        if set(tags_in(c)) not in good:
            return False
        if c.kind == "cmp":
            if c.args[0] == "eq":
                return not pos
            d = c.args[1] - c.args[2]
            sg = [k for (pw, ex), k in d.t.items() if any(tags_in(P(a)) for a, _ in pw)]
            return bool(sg) and (sg[0] > 0) == pos
        return pos
    return any(lit(c, True) for c in path)


def is_vec_atom(a):
    return a.kind in ("elem", "app") and any(d.kind == "idx" for x in a.args for d in (T.deps(x)))


def free_idx(x):
    return {a for a in T.deps(x) if a.kind == "idx" and isinstance(a.args[0], int)}


def vec_degree(p):
    """set of numbers of vector atoms per monomial"""
    out = set()
    for (pw, ex), c in p.t.items():
        n = 0
        for a, e in pw:
            if is_vec_atom(a):
                n += e if e > 0 else 99
            elif a.kind in ("base", "ite") and any(is_vec_atom(d) for d in a.deps):
                if a.kind == "ite":
                    ds = vec_degree(a.args[1]) | vec_degree(a.args[2])
                    n += max(ds) if ds else 0
                    if len(ds - {0}) > 1:
                        n += 99
                else:
                    n += 99
        if ex is not None and any(is_vec_atom(d) for d in ex.deps):
            n += 99
        out.add(n)
    return out


def shift(c, k, by):
    """rename index k.. by +by (indices >= k)"""
    m = {a: P(idx(a.args[0] + by)) for a in free_idx(c) if a.args[0] >= k}
    return T.subst(c, m) if m else c


def axis_len(ax):
    if ax[1] is None:
        return ax[0]
    return P(Atom("app", "count", (Lam(ax[1], (ax[0],)),)))


# ------------------------------------------------------------------------------------------ conversion
def as_arr(I, st, v, node=None):
    """Num/Bool for scalars, Arr for arrays; lists become arrays; gated arrays are joined if they agree in shape"""
    v = I.pick(st, v)
    if isinstance(v, (Num, Bool)):
        return v
    if isinstance(v, Ref):
        o = st.heap.get(v.oid)
        if o is None:
            return None
        if isinstance(o, Arr):
            return o
        if isinstance(o, ListO):
            return list_arr(I, st, o, node)
    if isinstance(v, Tup):
        return list_arr(I, st, ListO(v.items), node)
    if isinstance(v, RangeV):
        n = range_len(I, st, v)
        return Arr(v.lo + P(idx(0)) * v.step, ((n, None),), "int")
    if isinstance(v, IteV):
        a, b = as_arr(I, st, v.a, node), as_arr(I, st, v.b, node)
        if isinstance(a, Num) and isinstance(b, Num):
            return I.mval(v.c, a, b)
        if isinstance(a, Arr) and isinstance(b, Arr) and a.axes == b.axes and (a.rep == b.rep):
            return I.marr(v.c, a, b)
        if isinstance(a, Arr) and isinstance(b, Arr) and len(a.axes) == len(b.axes) and a.rep == b.rep == "idx" and all(x[1] is None for x in a.axes + b.axes):
            ax = tuple((T.ite(v.c, x[0], y[0]), None) for x, y in zip(a.axes, b.axes))
            return replace(I.marr(v.c, a, replace(b, axes=a.axes)), axes=ax)
        if isinstance(a, Arr) and isinstance(b, Arr) and len(a.axes) == len(b.axes) and a.rep == b.rep == "idx" and all(x[0] is y[0] for x, y in zip(a.axes, b.axes)):
            # selections of the same positions under different masks
            def m(x, y):
                t, f = T.TRUE if x[1] is None else x[1], T.TRUE if y[1] is None else y[1]
                r = T.mk_or(T.mk_and(v.c, t), T.mk_and(T.mk_not(v.c), f))
                return x[0], None if r is T.TRUE else r
            ax = tuple(m(x, y) for x, y in zip(a.axes, b.axes))
            return replace(I.marr(v.c, a, replace(b, axes=a.axes)), axes=ax)
        if isinstance(a, Arr) and isinstance(b, Arr) and len(a.axes) == len(b.axes):
            return replace(a, content=I.opq("gated arrays of different shape"))
        return None
    if isinstance(v, IndexOf) and len(v.lam.axes) == 1:
        n, m = v.lam.axes[0]
        c = v.lam.body if m is None else T.mk_and(m, v.lam.body)
        return Arr(P(idx(0)), ((n, None if c is T.TRUE else c),), "int", owner="internal")
    return None


def range_len(I, st, r):
    s = r.step.const()
    if s == 1 or s == -1:
        n = (r.hi - r.lo) if s == 1 else (r.lo - r.hi)
        c = n.const()
        if c is not None:
            return P(max(0, c))
        if I.decide(st, mk_cmp("le", ZERO, n)) is True:
            return n
        return T.ite(mk_cmp("lt", ZERO, n), n, ZERO)
    if s is not None and r.lo.const() is not None and r.hi.const() is not None:
        return P(len(range(int(r.lo.const()), int(r.hi.const()), int(s))))
    return P(Atom("app", "rangelen", (r.lo, r.hi, r.step)))


def list_arr(I, st, o, node):
    if o.sym is not None and not o.items and o.prefix is None:
        e = o.sym.elem
        e2 = as_arr(I, st, e, node)
        if isinstance(e2, Num):
            return Arr(T.subst(e2.p, {o.sym.idx: P(idx(0))}), ((o.sym.n, None),), e2.ty)
        if isinstance(e2, Arr) and e2.rep == "idx":
            k = len(e2.axes)
            return Arr(T.subst(e2.content, {o.sym.idx: P(idx(k))}), e2.axes + ((o.sym.n, None),), e2.dtype)
        if isinstance(e2, Arr) and e2.rep == "op" and len(e2.axes) == 2:  # a stack of functions of the operator
            return Arr(T.subst(e2.content, {o.sym.idx: P(idx(2))}), e2.axes + ((o.sym.n, None),), e2.dtype, "op")
        return None
    if o.prefix is not None or any(isinstance(x, CondItemT()) for x in o.items):
        return None
    els = [as_arr(I, st, x, node) for x in o.items]
    if any(e is None for e in els):
        return None
    if all(isinstance(e, (Num, Bool)) for e in els):
        allb = all(isinstance(e, Bool) for e in els) and els
        if allb:
            c = FALSE
            for i, e in enumerate(els):
                c = mk_or(c, mk_and(mk_cmp("eq", P(idx(0)), P(i)), e.c))
            return Arr(c, ((P(len(els)), None),), "bool")
        ps = [bool_p(e) if isinstance(e, Bool) else e.p for e in els]
        c = ps[-1] if ps else ZERO
        for i in range(len(ps) - 2, -1, -1):
            c = T.ite(mk_cmp("eq", P(idx(0)), P(i)), ps[i], c)
        return Arr(c, ((P(len(els)), None),), promote(*[e.ty if isinstance(e, Num) else "bool" for e in els]) if els else "float")
    if all(isinstance(e, Arr) and e.axes == els[0].axes and e.rep == els[0].rep and (e.rep == "idx" or e.rep == "op" and len(e.axes) == 2) and isinstance(e.content, Poly) for e in els):
        k = len(els[0].axes)
        c = els[-1].content
        for i in range(len(els) - 2, -1, -1):
            c = T.ite(mk_cmp("eq", P(idx(k)), P(i)), els[i].content, c)
        return Arr(c, els[0].axes + ((P(len(els)), None),), promote(*[e.dtype for e in els]), els[0].rep, space=els[0].space)
    return None


def CondItemT():
    from .interp import CondItem
    return CondItem


def bool_p(b):
    return T.ite(b.c, ONE, ZERO) if isinstance(b, Bool) else b


def numify(x):
    """content as Poly"""
    if isinstance(x, Cond):
        return T.ite(x, ONE, ZERO)
    return x


# ------------------------------------------------------------------------------------------ broadcasting
def bcast(I, st, arrs, node):
    """common axes of Arr operands; None if the shapes do not fit"""
    nd = max(len(a.axes) for a in arrs)
    axes = []
    for k in range(nd):
        best = None
        for a in arrs:
            if k >= len(a.axes):
                continue
            ax = a.axes[k]
            if ax[0].const() == 1 and ax[1] is None:
                if best is None:
                    best = ax
                continue
            if best is None or (best[0].const() == 1 and best[1] is None):
                best = ax
                continue
            if best == ax:
                continue
            l1, l2 = axis_len(best), axis_len(ax)
            if l1 is l2 or I.decide(st, mk_cmp("eq", l1, l2)) is True:
                if best[1] is None:
                    best = ax
                continue
            if I.decide(st, mk_cmp("eq", l1, l2)) is False:
                return "mismatch"
            I.ev(st, "shape-unknown", node, lens=(l1, l2))
            return "unknown"
        axes.append(best)
    return tuple(axes)


def place(a, axes):
    """content of a read at the broadcast position (length-one axes read at 0)"""
    m = {}
    for k, ax in enumerate(a.axes):
        if ax[0].const() == 1 and ax[1] is None and idx(k) in a.content.deps:
            m[idx(k)] = ZERO
    return T.subst(a.content, m) if m else a.content


def kind_of(a):
    if isinstance(a, (Num, Bool)):
        return "scalar"
    return a.rep


def to_op(a):
    """an all-zero matrix read as an operator"""
    if a.rep == "op":
        return a
    if a.rep == "idx" and len(a.axes) == 2 and a.content is ZERO:
        return replace(a, rep="op")
    return None


def op_to_idx(a):
    """operator without the linear operator inside is a multiple of the identity"""
    if a.rep == "op" and not any(d is LAM for d in a.content.deps):
        return replace(a, rep="idx", content=a.content * T.ite(mk_cmp("eq", P(idx(0)), P(idx(1))), ONE, ZERO))
    return a


LAM = T.sym("lam")  # the linear operator as the variable of its functional calculus


def ew(I, st, name, f, vals, node, ty=None, linear=None, boolean=False):
    """elementwise f over scalars/arrays.  vals: Num/Bool/Arr.  linear: 'add','mul','scale' semantics for operator kinds.
    Returns Num/Bool/Arr."""
    arrs = [v for v in vals if isinstance(v, Arr)]
    polys = lambda: [numify(v.c) if isinstance(v, Bool) else v.p for v in vals]
    if not arrs:
        r = f(*[(v.c if isinstance(v, Bool) else v.p) if boolean == "in" else (numify(v.c) if isinstance(v, Bool) else v.p) for v in vals])
        if isinstance(r, Cond):
            return Bool(r)
        t = ty or promote(*[("bool" if isinstance(v, Bool) else v.ty) for v in vals])
        if t == "bool":
            t = "int"
        return Num(r, t)
    dts = [("bool" if isinstance(v, Bool) else v.ty if isinstance(v, Num) else v.dtype) for v in vals]
    dt = ty or promote(*dts)
    special = [a for a in arrs if a.rep in ("S", "Sinv")]
    if special:
        return replace(special[0], content=bad(I, name + " on eigenvector matrix"), rep="idx", axes=special[0].axes, dtype=dt)
    ops = [a for a in arrs if a.rep == "op"]
    if ops and linear:
        vals = [per_matrix(v) for v in vals]
        if any(isinstance(v, Arr) and v.rep == "perop" for v in vals) or any(len(a.axes) > 2 for a in ops):
            r = stacked(I, st, f, vals, dt, linear, node)
            if r is not None:
                return r
    if ops and all(a.rep == "op" and len(a.axes) == 2 or len(a.axes) == 2 and to_op(a) is not None for a in arrs) and linear:
        axes = ops[0].axes
        if linear == "add" and (len(arrs) == len(vals) or all(isinstance(v, Arr) or getattr(v, "p", None) is ZERO for v in vals)):
            r = f(*[a.content if isinstance(a, Arr) else a.p for a in vals])
            return Arr(r, axes, dt, "op")
        if linear == "mul" and len(arrs) == 1:
            r = f(*[v.content if isinstance(v, Arr) else (numify(v.c) if isinstance(v, Bool) else v.p) for v in vals])
            return Arr(r, axes, dt, "op")
        if linear == "div" and isinstance(vals[0], Arr) and not isinstance(vals[1], Arr):
            return Arr(f(vals[0].content, vals[1].p), axes, dt, "op")
        if linear == "neg":
            return Arr(f(vals[0].content), axes, dt, "op")
        if linear == "cast":
            return Arr(f(vals[0].content), axes, dt, "op")
    vals = [op_to_idx(replace(v, rep="idx") if v.rep == "perop" else v) if isinstance(v, Arr) else v for v in vals]
    arrs = [v for v in vals if isinstance(v, Arr)]
    ops = [a for a in arrs if a.rep == "op"]
    axes = bcast(I, st, arrs, node)
    if axes == "mismatch":
        I.ev(st, "shape-mismatch", node)
        I.exc(st, "ValueError", Str("shapes do not broadcast"), node)
    if axes == "unknown":
        big = max(arrs, key=lambda a: len(a.axes))
        return Arr(I.opq("unknown shapes"), big.axes, dt)
    if ops:
        # elementwise operation on a full matrix other than scaling and adding: not a function of the operator
        c = tagged(bad(I, "elementwise %s on the matrix" % name), name, frozenset().union(*[tags_of(a) for a in arrs]))
        return Arr(c if not boolean else T.Cond("app", "ewcond", (c,)), axes, dt)
    spaces = {a.space for a in arrs if a.space is not None}
    cs = [place(a, axes) if isinstance(a, Arr) else (a.c if isinstance(a, Bool) else a.p) for a in vals]
    if boolean != "in":
        cs = [numify(c) for c in cs]
    r = f(*cs)
    sp = None
    if spaces:
        if len(spaces) > 1:
            nz = [a for a in arrs if a.space is not None and a.content is not ZERO]
            spaces = {a.space for a in nz}
        sp = next(iter(spaces)) if len(spaces) == 1 else None
        if len(spaces) > 1 and isinstance(r, Poly):
            r = bad(I, "%s mixes the original and the eigenvector basis" % name)
        elif isinstance(r, Poly) and sp in ("phys", "eig"):
            if sp == "phys" and not any(d is LAM for a in arrs for d in a.content.deps):
                pass  # no matrix has been applied: a plain elementwise result (matvec refuses products of vectors)
            elif sp == "phys" and linear in ("mul", "div") and sum(1 for a in arrs if a.space == "phys" or any(is_vec_atom(d) for d in a.content.deps)) > 1:
                r = bad(I, "elementwise product of vectors")
            elif sp == "phys" and linear is None and name not in NONLIN_OK and any(is_vec_atom(d) for d in r.deps):
                r = bad(I, "elementwise %s of a vector" % name)
            elif sp == "eig" and name not in NONLIN_OK and (max(vec_degree(r) or {0}) > 1):
                r = bad(I, "elementwise %s of vectors" % name)
    if isinstance(r, Cond):
        return Arr(r, axes, "bool", space=None)
    return Arr(r, axes, dt, space=sp)


NONLIN_OK = {"abs", "isnan", "isinf", "isfinite", "square", "compare", "real", "imag", "conj", "where"}


def per_matrix(v):
    """an array of shape (..., 1, 1) holds one number for every matrix of a stack"""
    if isinstance(v, Arr) and v.rep == "idx" and len(v.axes) == 3 and all(v.axes[k] == (ONE, None) for k in (0, 1)) and isinstance(v.content, Poly):
        return replace(v, content=T.subst(v.content, {idx(0): ZERO, idx(1): ZERO}), rep="perop")
    return v


def stacked(I, st, f, vals, dt, linear, node):
    """elementwise sums and scalings of stacks of functions of the operator"""
    arrs = [v for v in vals if isinstance(v, Arr)]
    nops = sum(1 for a in arrs if a.rep == "op")
    if any(a.rep not in ("op", "perop") for a in arrs):
        return None
    if linear == "add" and nops != len(vals) or linear == "mul" and nops > 1 or linear == "div" and (nops > 1 or not (isinstance(vals[0], Arr) and vals[0].rep == "op")):
        return None
    if linear not in ("add", "mul", "div", "neg", "cast"):
        return None
    axes = bcast(I, st, arrs, node)
    if axes == "mismatch":
        I.exc(st, "ValueError", Str("shapes do not broadcast"), node)
    if axes == "unknown":
        return None
    return Arr(f(*[place(a, axes) if isinstance(a, Arr) else numify(a.c) if isinstance(a, Bool) else a.p for a in vals]), axes, dt, "op")


def put(I, st, r):
    """store a fresh result"""
    if isinstance(r, Arr):
        if not r.axes:
            return I.arr_scalar(r)
        return I.new(st, r)
    return r


# ------------------------------------------------------------------------------------------ storage
def root(st, oid):
    seen = set()
    while oid not in seen:
        seen.add(oid)
        o = st.heap.get(oid)
        if not isinstance(o, Arr) or o.base is None:
            return oid
        oid = o.base[0]
    return oid


def roots(st, oid):
    """all cells whose storage this may be"""
    out, todo = set(), [oid]
    while todo:
        x = todo.pop()
        if x in out:
            continue
        out.add(x)
        o = st.heap.get(x)
        if isinstance(o, Arr):
            if o.base is not None:
                todo.append(o.base[0])
            todo += list(o.origins)
    return out


def write(I, st, ref, new, node):
    """overwrite the content of an array cell in place"""
    o = st.heap[ref.oid]
    rs = roots(st, ref.oid)
    I.ev(st, "mutate", node, ref=ref, roots=frozenset(rs), owners=frozenset(st.heap[r].owner for r in rs if isinstance(st.heap.get(r), Arr)))
    c = new.content
    dt = o.dtype
    if isinstance(c, Poly) and dt in ("float", "int") and new.dtype in ("complex", "any"):
        c = T.real_part(c)
    st.heap[ref.oid] = replace(o, content=c, rep=new.rep, space=new.space if new.space is not None else o.space if new.content is not ZERO else None)
    # other names of the same storage
    for x, q in list(st.heap.items()):
        if x == ref.oid or not isinstance(q, Arr):
            continue
        if x in rs or (q.base is not None or q.origins) and roots(st, x) & rs:
            if q.axes == o.axes and same_window(st, ref.oid, x):
                st.heap[x] = replace(q, content=c, rep=new.rep, space=new.space)
            else:
                st.heap[x] = replace(q, content=I.opq("overwritten through a view") if isinstance(q.content, Poly) else T.Cond("app", "opq", (I.opq("view"),)))


def same_window(st, a, b):
    def chain(o):
        out = [o]
        while True:
            x = st.heap.get(o)
            if not isinstance(x, Arr) or x.base is None or x.base[1] != "whole":
                return out
            o = x.base[0]
            out.append(o)
    return bool(set(chain(a)) & set(chain(b)))


def read_axis(I, st, o, k):
    return o.axes[k]
