"""Matrix products and linear algebra.

A matrix that is a function of the linear operator L is kept as that function (rep 'op', content in the symbol lam);
eigenvector matrices have reps 'S'/'Sinv'; other matrices are index arrays and products of them are words ('mm')."""
from __future__ import annotations
from .terms import *
from .terms import P, Fraction
from . import terms as T
from .values import *
from .arrays import *
from .arrays import ew, put, as_arr, write, numify, axis_len, LAM
from .ops import divide, condify
from . import npmodel as N

I0, I1 = P(idx(0)), P(idx(1))


def opless(c):
    return not any(d is LAM for d in c.deps)


def dot(I, st, x, y, node):
    if not isinstance(x, Arr) or not isinstance(y, Arr):
        if isinstance(x, (Num, Bool)) or isinstance(y, (Num, Bool)):
            from .ops import arith
            return put(I, st, arith(I, st, "Mult", x, y, node))
        return I.opaque_value("dot")
    # inner lengths
    if x.axes and y.axes:
        lx = axis_len(x.axes[0])
        ly = axis_len(y.axes[1] if len(y.axes) > 1 else y.axes[0])
        if lx is not ly and I.decide(st, mk_cmp("eq", lx, ly)) is False:
            I.exc(st, "ValueError", Str("shapes not aligned"), node)
    if len(x.axes) > 2 or len(y.axes) > 2:
        return I.opaque_value("product of stacked matrices")
    dt = promote(x.dtype, y.dtype)
    # the zero matrix / zero vector
    rx, ry = x.rep, y.rep
    if len(x.axes) == 2 and x.content is ZERO and rx == "idx":
        if len(y.axes) == 2:
            return I.new(st, Arr(ZERO, (y.axes[0], x.axes[1]), dt, "op"))
        return I.new(st, Arr(ZERO, (x.axes[1],), dt, space=y.space))
    if len(x.axes) == 2 and len(y.axes) == 2:
        return matmat(I, st, x, y, dt, node)
    if len(x.axes) == 2 and len(y.axes) == 1:
        return matvec(I, st, x, y, dt, node)
    if len(x.axes) == 1 and len(y.axes) == 2:
        if ry == "op" and opless(y.content):
            return I.new(st, Arr(x.content * y.content, x.axes, dt, space=x.space))
        if ry == "op" and x.space is None and x.content is ZERO:
            return I.new(st, Arr(ZERO, x.axes, dt))
        if ry in ("op", "S", "Sinv"):
            return I.new(st, Arr(bad(I, "row vector times matrix"), (y.axes[0],), dt))
        return I.new(st, Arr(P(Atom("app", "vm", (Lam(numify(x.content), x.axes), Lam(numify(y.content), y.axes)), (I0,))), (y.axes[0],), dt))
    if len(x.axes) == 1 and len(y.axes) == 1:
        from .np_reduce import sum_axis
        c = sum_axis(I, st, numify(x.content) * numify(y.content), 0, x.axes[0])
        return Num(c, dt if dt != "bool" else "int")
    return I.opaque_value("dot")


def matmat(I, st, x, y, dt, node):
    ax = (y.axes[0], x.axes[1])
    a, b = to_op(x), to_op(y)
    if a is not None and b is not None:
        return I.new(st, Arr(a.content * b.content, ax, dt, "op"))
    kinds = (x.rep, y.rep)
    if kinds in (("S", "Sinv"), ("Sinv", "S")):
        return I.new(st, Arr(x.content * y.content, ax, dt, "op"))
    # S f(d) Sinv
    if a is not None and opless(a.content):
        return I.new(st, replace(N.fresh_copy(y), content=a.content * y.content, axes=ax, dtype=dt))
    if b is not None and opless(b.content):
        return I.new(st, replace(N.fresh_copy(x), content=b.content * x.content, axes=ax, dtype=dt))
    if x.rep == "S" and y.space == "eigdiag":
        return I.new(st, Arr(diag_content(y) * x.content, ax, dt, "S", "half"))
    if x.rep == "S" and x.space == "half" and y.rep == "Sinv":
        return I.new(st, Arr(x.content * y.content, ax, dt, "op"))
    if x.space == "eigdiag" and y.rep == "Sinv":
        return I.new(st, Arr(diag_content(x) * y.content, ax, dt, "Sinv"))
    if x.rep == "Sinv" and y.rep == "op":
        # Sinv f(L) = f(d) Sinv
        return I.new(st, Arr(x.content * y.content, ax, dt, "Sinv"))
    if x.rep == "op" and y.rep == "S":
        return I.new(st, Arr(x.content * y.content, ax, dt, "S"))
    if x.rep == "idx" and y.rep == "idx":
        return I.new(st, Arr(mm([(as_word(x)), (as_word(y))]), ax, dt))
    return I.new(st, Arr(bad(I, "product of matrices in different bases"), ax, dt))


def diag_content(a):
    return T.subst(a.content, {idx(1): I0})


def matvec(I, st, x, y, dt, node):
    ax = (x.axes[1],)
    if x.rep == "op":
        if y.space == "phys" or y.content is ZERO:
            if max(vec_degree(y.content) or {0}) > 1:
                return I.new(st, Arr(bad(I, "matrix applied to a product of vectors"), ax, dt, space="phys"))
            return I.new(st, Arr(x.content * y.content, ax, dt, space="phys" if y.content is not ZERO else y.space))
        if opless(x.content):
            return I.new(st, Arr(x.content * y.content, ax, dt, space=y.space))
        if y.space == "eig":
            return I.new(st, Arr(bad(I, "matrix in the original basis applied to a vector in the eigenbasis"), ax, dt, space="phys"))
        if y.space is None and free_idx(y.content) and not any(is_vec_atom(d) for d in y.content.deps):
            return I.new(st, Arr(P(Atom("app", "opvec", (Lam(x.content, x.axes), Lam(y.content, y.axes)), (I0,))), ax, dt))
        return I.new(st, Arr(x.content * y.content, ax, dt, space="phys"))
    if x.rep == "S":
        if y.space == "eig" or y.content is ZERO:
            return I.new(st, Arr(x.content * y.content, ax, dt, space="phys"))
        return I.new(st, Arr(bad(I, "eigenvector matrix applied to a vector of the original basis"), ax, dt, space="phys"))
    if x.rep == "Sinv":
        if y.space == "phys" or y.content is ZERO:
            if max(vec_degree(y.content) or {0}) > 1:
                return I.new(st, Arr(bad(I, "matrix applied to a product of vectors"), ax, dt, space="eig"))
            return I.new(st, Arr(x.content * y.content, ax, dt, space="eig"))
        return I.new(st, Arr(bad(I, "inverse eigenvector matrix applied to a vector of the eigenbasis"), ax, dt, space="eig"))
    if x.space == "eigdiag" and y.space == "eig":
        return I.new(st, Arr(diag_content(x) * y.content, ax, dt, space="eig"))
    # diagonal index matrix
    c = x.content
    d = T.assume(c, mk_cmp("eq", I0, I1), False) if isinstance(c, Poly) else None
    if d is ZERO:
        e = T.subst(T.assume(c, mk_cmp("eq", I0, I1), True), {idx(1): I0})
        return I.new(st, Arr(e * y.content, ax, dt, space=y.space))
    q, core = const_factor(numify(y.content))
    return I.new(st, Arr(q * P(Atom("app", "mv", (mmlam(as_word(x)), Lam(core, y.axes)), (I0,))), ax, dt))


def const_factor(c):
    if len(c.t) != 1:
        return ONE, c
    (pw, ex), cf = next(iter(c.t.items()))
    q, r = P(cf), ONE
    for a, e in pw:
        if free_idx(a):
            r = r * T.power(P(a), e)
        else:
            q = q * T.power(P(a), e)
    if ex is not None:
        if free_idx(ex):
            r = r * T.exp(ex)
        else:
            q = q * T.exp(ex)
    return q, r


# ------------------------------------------------------------------------------------------ words of index matrices
def as_word(x):
    """(factor, ((Lam, exponent), ...)) of an index matrix"""
    c = numify(x.content)
    q, r = const_factor(c)
    a = r.atom()
    if a is not None and a.kind == "app" and a.args[0] == "mm" and a.args[2] == (I0, I1):
        lams = a.args[1]
        return q, lams
    return q, (Lam(r, x.axes, ONE),)


def word_of(lam):
    """(Lam without exponent, exponent)"""
    return Lam(lam.body, lam.axes, ONE), lam.tag


def mm(words):
    q = ONE
    els = []
    for f, ls in words:
        q = q * f
        els += list(ls)
    out = []
    for l in els:
        base, e = word_of(l)
        if out and out[-1][0] is base:
            out[-1] = (base, out[-1][1] + e)
            if out[-1][1] is ZERO:
                out.pop()
        else:
            out.append((base, e))
    if not out:
        return q * T.ite(mk_cmp("eq", I0, I1), ONE, ZERO)
    if len(out) == 1 and out[0][1] is ONE:
        return q * out[0][0].body
    return q * P(Atom("app", "mm", tuple(Lam(b.body, b.axes, e) for b, e in out), (I0, I1)))


def mmlam(w):
    f, ls = w
    c = mm([w])
    return Lam(c, ls[0].axes)


def mm_hook(args, ix):
    if ix != (I0, I1):
        return None
    return mm([(ONE, (l,)) for l in args if l.tag is not ZERO])


def dot_h(I, st, args, kw, node):
    xs = [as_arr(I, st, a, node) for a in args[:2]]
    if any(x is None for x in xs):
        return I.opaque_value("dot")
    r = dot(I, st, xs[0], xs[1], node)
    if len(args) > 2:
        kw = {**kw, "out": args[2]}
    from .np_elem import out_where
    return out_where(I, st, r, kw, node)


def multi_dot_h(I, st, args, kw, node):
    its = I.iter_items(st, args[0], node)
    r = its[-1]
    for x in reversed(its[:-1]):
        r = dot_h(I, st, [x, r], {}, node)
    return r


def square(I, st, a, node):
    """a matrix with equal axes; raises LinAlgError otherwise"""
    if not isinstance(a, Arr) or len(a.axes) < 2:
        I.exc(st, "LinAlgError", None, node)
    c = mk_cmp("eq", a.axes[0][0], a.axes[1][0])
    if I.decide(st, c) is not True:
        I.may_raise(st, "LinAlgError", mk_not(c), node)


def fault(I, st, what, node):
    """hook: operations that can fail at run time"""
    f = getattr(I, "fault_hook", None)
    if f is not None:
        f(I, st, what, node)


def inv_h(I, st, args, kw, node):
    a = as_arr(I, st, args[0], node)
    if a is None:
        return I.opaque_value("inv")
    square(I, st, a, node)
    fault(I, st, "inv", node)
    I.ev(st, "inv", node, src=a)
    dt = a.dtype if a.dtype in ("complex", "any") else "float"
    ax = (a.axes[1], a.axes[0]) + a.axes[2:]
    if len(ax) > 2 and a.rep != "op":
        return I.opaque_value("inverse of stacked matrices")
    if a.rep == "op":
        if a.content is ZERO:
            I.exc(st, "LinAlgError", None, node)
        return I.new(st, Arr(T.power(a.content, -1), ax, dt, "op"))
    if a.rep in ("S", "Sinv") and a.space is None:
        return I.new(st, Arr(T.power(a.content, -1), ax, dt, "Sinv" if a.rep == "S" else "S"))
    if a.rep != "idx":
        return I.new(st, Arr(bad(I, "inverse"), ax, dt))
    if a.content is ZERO:
        I.exc(st, "LinAlgError", None, node)
    q, ls = as_word(a)
    w = tuple(Lam(l.body, l.axes, -l.tag) for l in reversed(ls))
    return I.new(st, Arr(mm([(T.power(q, -1), w)]), ax, dt))


def solve_h(I, st, args, kw, node):
    r = inv_h(I, st, [args[0]], {}, node)
    return dot_h(I, st, [r, args[1]], {}, node)


def matrix_power_h(I, st, args, kw, node):
    a = as_arr(I, st, args[0], node)
    n = as_arr(I, st, args[1] if len(args) > 1 else kw["n"], node)
    if not isinstance(a, Arr) or not isinstance(n, Num):
        return I.opaque_value("matrix_power")
    square(I, st, a, node)
    c = n.p.const()
    dt = a.dtype
    if a.rep == "op":
        if c is None:
            from .ops import power_p
            return I.new(st, Arr(power_p(a.content, n.p), a.axes, dt, "op"))
        return I.new(st, Arr(T.power(a.content, c), a.axes, dt, "op"))
    if a.rep != "idx":
        return I.new(st, Arr(bad(I, "matrix power"), a.axes, dt))
    if n.ty == "float":
        I.exc(st, "TypeError", None, node)
    q, ls = as_word(a)
    if len(ls) == 1:
        from .ops import power_p
        w = (power_p(q, n.p), (Lam(ls[0].body, ls[0].axes, ls[0].tag * n.p),))
        if w[1][0].tag is ZERO:
            return I.new(st, Arr(ONE, a.axes, dt, "op"))
        return I.new(st, Arr(mm([w]), a.axes, dt))
    if c is not None and 0 <= c <= 12:
        if c == 0:
            return I.new(st, Arr(ONE, a.axes, dt, "op"))
        return I.new(st, Arr(mm([(q, ls)] * int(c)), a.axes, dt))
    return I.new(st, Arr(P(Atom("app", "mpow", (Lam(a.content, a.axes), n.p), (I0, I1))), a.axes, dt))


def eig_h(vals_only):
    def h(I, st, args, kw, node):
        a = as_arr(I, st, args[0], node)
        if a is None:
            return I.opaque_value("eig")
        square(I, st, a, node)
        fault(I, st, "eig", node)
        I.ev(st, "eig", node, src=a)
        n = a.axes[0]
        if a.rep == "op":
            w = I.new(st, Arr(a.content, (n,), "complex", space="eig" if not opless(a.content) else None))
            S = I.new(st, Arr(ONE, (n, n), "complex", "S"))
        else:
            w = I.new(st, Arr(P(Atom("app", "eigval", (Lam(numify(a.content), a.axes, a.rep),), (I0,))), (n,), "complex", space="eig"))
            S = I.new(st, Arr(P(Atom("app", "eigvec", (Lam(numify(a.content), a.axes, a.rep),), (I0, I1))), (n, n), "complex"))
        return w if vals_only else Tup((w, S))
    return h


def eigh_h(vals_only):
    def h(I, st, args, kw, node):
        a = as_arr(I, st, args[0], node)
        if isinstance(a, Arr) and a.rep == "op" and not opless(a.content) and not hermitian_known(st.path):
            n = a.axes[0]
            square(I, st, a, node)
            fault(I, st, "eigh", node)
            w = I.new(st, Arr(bad(I, "eigenvalues of a matrix taken to be Hermitian"), (n,), "float"))
            S = I.new(st, Arr(bad(I, "eigenvectors of a matrix taken to be Hermitian"), (n, n), "complex"))
            return w if vals_only else Tup((w, S))
        return eig_h(vals_only)(I, st, args, kw, node)
    return h


def expm_h(I, st, args, kw, node):
    a = as_arr(I, st, args[0], node)
    if a is None:
        return I.opaque_value("expm")
    fault(I, st, "expm", node)
    I.ev(st, "expm", node, src=a)
    if isinstance(a, (Num, Bool)):
        return Num(T.exp(a.p), promote("float", a.ty))
    dt = promote("float", a.dtype)
    b = to_op(a)
    if b is not None:
        if b.axes and mk_cmp("eq", b.axes[0][0], b.axes[1][0]) is not TRUE:
            square(I, st, b, node)
        return I.new(st, Arr(T.exp(b.content), b.axes, dt, "op"))
    if a.rep == "idx":
        if len(a.axes) != 2:
            I.exc(st, "ValueError", None, node)
        d = T.assume(numify(a.content), mk_cmp("eq", I0, I1), False)
        if d is ZERO:
            return I.new(st, Arr(T.ite(mk_cmp("eq", I0, I1), T.exp(T.assume(numify(a.content), mk_cmp("eq", I0, I1), True)), ZERO), a.axes, dt, space=a.space))
        return I.new(st, Arr(P(Atom("app", "expm", (Lam(numify(a.content), a.axes),), (I0, I1))), a.axes, dt))
    return I.new(st, Arr(bad(I, "matrix exponential"), a.axes, dt))


def cond_h(I, st, args, kw, node):
    a = as_arr(I, st, args[0], node)
    if not isinstance(a, Arr):
        return I.opaque_value("cond")
    I.ev(st, "condition-number", node, src=a)
    return Num(P(Atom("app", "cond", (Lam(numify(a.content), a.axes, (a.rep,)),))), "float")


def scalar_fn(nm):
    def h(I, st, args, kw, node):
        a = as_arr(I, st, args[0], node)
        if not isinstance(a, Arr):
            return I.opaque_value(nm)
        return Num(P(Atom("app", nm, (Lam(numify(a.content), a.axes, (a.rep,)),))), "any")
    return h


def einsum_h(I, st, args, kw, node):
    s = args[0]
    if isinstance(s, Str) and s.known:
        f = s.s.replace(" ", "")
        pats = {"ij,j->i": 1, "ij,j": 1, "ij,jk->ik": 1, "ij,jk": 1, "i,i->": 1, "i,i": 1}
        import re
        m = re.fullmatch(r"([a-z]),([a-z])([a-z])([a-z])(?:->([a-z])([a-z]))?", f)
        if m and m[1] == m[2] and len({m[2], m[3], m[4]}) == 3 and (m[5], m[6]) in ((m[3], m[4]), (None, None)) and (m[5] is not None or m[3] < m[4]):
            return I.handlers["numpy.tensordot"](I, st, [args[1], args[2], Num(P(1), "int")], {}, node)
        m = re.fullmatch(r"([a-z]{1,2}),([a-z]{1,2})(?:->([a-z]{0,2}))?", f)
        if m:
            trans = {}
            canon = "".join(trans.setdefault(c, "ijkl"[len(trans)]) if c.isalpha() else c for c in f)
            if canon in pats:
                return dot_h(I, st, args[1:3], {}, node)
            if canon in ("i,i->i", "ij,ij->ij"):
                from .ops import binop
                return binop(I, st, "Mult", args[1], args[2], node)
    return I.opaque_value("einsum")


def install(I):
    R = lambda names, h: N.reg(I, names, h)
    T.APP_HOOKS["mm"] = mm_hook
    R("numpy.dot numpy.matmul numpy.inner numpy.vdot ndarray.dot scipy.linalg.blas.dgemm", dot_h)
    R("numpy.linalg.multi_dot", multi_dot_h)
    R("numpy.linalg.inv scipy.linalg.inv numpy.linalg.pinv scipy.linalg.pinv", inv_h)
    R("numpy.linalg.solve scipy.linalg.solve", solve_h)
    R("numpy.linalg.matrix_power", matrix_power_h)
    R("numpy.linalg.eig scipy.linalg.eig", eig_h(False))
    R("numpy.linalg.eigvals scipy.linalg.eigvals", eig_h(True))
    R("numpy.linalg.eigh scipy.linalg.eigh", eigh_h(False))
    R("numpy.linalg.eigvalsh scipy.linalg.eigvalsh", eigh_h(True))
    R("scipy.linalg.expm", expm_h)
    R("numpy.linalg.cond", cond_h)
    R("numpy.linalg.det numpy.trace numpy.linalg.matrix_rank", scalar_fn("det"))
    R("numpy.einsum", einsum_h)
