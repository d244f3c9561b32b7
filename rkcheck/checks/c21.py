"""Spectral derivatives: the order-n derivative is (ik)^n in Fourier space, the n-th power of the matrix on a Chebyshev grid."""
from ..client import *
from ..client import Undecided
from ..evalf import compare, points, thresholds, corners
from ..values import Arr, idx
from ..arrays import as_arr
from ..terms import Atom, Fraction
from ..pure import pure

I0, I1 = P(idx(0)), P(idx(1))
M = T.sym("m", int=True, real=True, pos=True)
Q = T.sym("q", int=True, real=True, pos=True)
NN = T.sym("n", int=True, real=True)
m, q = P(M), P(Q)

SPEC = """
import numpy as np
def rfft_ref(kx, u, n):
    return np.fft.irfft((1j * kx) ** n * np.fft.rfft(u), n=u.shape[-1])
def fft_ref(kx, u, n):
    return np.fft.ifft((1j * kx) ** n * np.fft.fft(u))
def cheb_ref(D, u, n):
    for _ in range(n):
        u = D @ u
    return u
def cheb_sym(D, u, n):
    return np.linalg.matrix_power(D, n) @ u
"""
for nm in ("k", "u", "D", "W", "k'", "u'", "D'", "W'"):
    T.sym(nm, real=True)


def vec(I, st, nm, n, dt):
    return I.new(st, Arr(P(Atom("elem", nm, (I0,))), ((n, None),), dt, owner="user"))


def mat(I, st, nm, rows, cols, dt):
    return I.new(st, Arr(P(Atom("elem", nm, (I1, I0))), ((cols, None), (rows, None)), dt, owner="user"))


def scene(R, facts=()):
    C = Client(R, SPEC)
    st = C.st.fork(mk_cmp("le", P(2), m), mk_cmp("le", P(2), q), *facts)
    return C, C.I, st


def content(I, st, v):
    if isinstance(v, IteV):
        v = I.pick(st, v)
    if isinstance(v, (IteV, Num)):
        return as_arr(I, st, v)
    o = st.heap.get(v.oid) if isinstance(v, Ref) else None
    return o if isinstance(o, Arr) else None


def value(R, con, I, st, got, ref, dtype, envs, soft=False):
    a, b = content(I, st, got), content(I, st, ref)
    if not isinstance(a, Arr):
        if not soft:
            R.verdict(False if isinstance(got, (NoneV, Num, Str)) else None, "value", con, "not an array: %r" % (got,))
        return
    if len(a.axes) != len(b.axes):
        return None if soft else R.viol("value", con, "%d axes instead of %d" % (len(a.axes), len(b.axes)))
    if a.rep != b.rep and not soft:
        return R.unk("value", con, "operator-valued array")
    for k, (x, y) in enumerate(zip(a.axes, b.axes)):
        if x[0] is not y[0]:
            if soft and T.uncertain(x[0]):
                return
            compare(R, "value", con + ": length %d" % k, x[0], y[0], [{M: s, Q: 3} for s in (2, 3, 4)])
    if dtype and a.dtype != dtype and a.dtype != "any":
        R.viol("value", con + ": kind", "result is %s, not %s" % (a.dtype, dtype))
    if soft:
        try:
            if T.equal(a.content, b.content):
                R.ok("value", con, "for every order at once")
        except Exception:
            pass
        return a
    compare(R, "value", con, a.content, b.content, envs)
    return a


FUNS = [("dx_rfft", "rfft_ref"), ("dx_fft", "fft_ref"), ("dx_cheb", "cheb_ref")]


def operands(name, par):
    """(description, maker(I, st) -> arguments, result dtype, sample points) for every kind of admissible input"""
    if name == "dx_rfft":
        for dt in ("float", "int"):
            N = 2 * m + par
            yield "%s values, %s length" % (dt, "odd" if par else "even"), (lambda I, st, dt=dt, N=N: [vec(I, st, "k", m + 1, "float"), vec(I, st, "u", N, dt)]), "float", [e for s in (2, 3) for e in points([2 * s + par], {M: s})]
    elif name == "dx_fft":
        if par:
            return
        for dt in ("float", "complex"):
            nm = "u" if dt == "float" else "z"
            yield "%s values" % dt, (lambda I, st, dt=dt, nm=nm: [vec(I, st, "k", m, "float"), vec(I, st, nm, m, dt)]), "complex", [e for s in (3, 4) for e in points([s], {M: s})]
    else:
        if par:
            return
        for dt in ("float", "complex"):
            yield "%s vector" % dt, (lambda I, st, dt=dt: [mat(I, st, "D", m, m, "float"), vec(I, st, "u" if dt == "float" else "z", m, dt)]), dt, [e for s in (3,) for e in points([s], {M: s})]
            yield "%s matrix" % dt, (lambda I, st, dt=dt: [mat(I, st, "D", m, m, "float"), mat(I, st, "W" if dt == "float" else "Z", m, q, dt)]), dt, points([2, 3], {M: 3, Q: 2})


def one(R, name, ref, what, mk, dt, envs, order, con, facts=(), soft=False):
    C, I, st = scene(R, facts)
    args = mk(I, st)
    f = I.glob("rkstiff.derivatives", name)
    try:
        ok, ex = C.run(st.fork(), f, *args, order) if order is not None else C.run(st.fork(), f, *args)
    except Undecided:
        if soft:  # not expressible for every order at once: the orders one by one decide
            R.notes.append(con + ": not expressible at once")
            return None
        raise
    R.absorb(I)
    if ex:
        R.verdict(None if all(T.uncertain(s.path) for _, _, s in ex) else False, "accepts", con, "%s raised at %s" % (excname(ex[0][0]), ex[0][1]), ex[0][1])
        return None
    if ok is None:
        return R.unk("accepts", con, "no outcome")
    R.ok("accepts", con)
    st2, got = ok
    n = order if order is not None else Num(ONE, "int")
    r, _ = C.run(st2, ref, *args, n)
    if n.p.const() == 0:
        # unchanged values, whatever the transform
        u = content(I, st2, args[1])
        a = content(I, st2, got)
        R.verdict(None if a is None else a.content is u.content and a.axes == u.axes and a.dtype == u.dtype, "order-zero", con, "the values come back as %r" % (a,))
        return None
    if r is None:
        return R.unk("value", con, "no reference")
    return value(R, con, I, r[0], got, r[1], dt, envs, soft)


def check(R):
    R.rule("precision", "no value on the way is held in a type narrower than double precision")
    R.rule("accepts", "every non-negative order, matching length and kind of values is accepted")
    R.rule("value", "the result equals the inverse transform, with the length of the input, of (i k)^n times the transform (Fourier), or the matrix applied n times (Chebyshev)")
    R.rule("order-zero", "order 0 returns the values unchanged")
    R.rule("no-memory", "the result of a call does not depend on earlier calls, and stays right when the caller overwrote earlier results or changed the arguments in place")
    R.rule("refuses", "non-integer and negative orders, operators or wave numbers of another length and complex values given to the real transform raise TypeError or ValueError")
    R.assumptions += ["numpy.fft transforms are the discrete Fourier transforms of their documentation", "real arithmetic (no rounding)"]
    top = 6 if R.tier == "quick" else 10
    for name, ref in FUNS:
        orders = set(range(top))
        for par in (0, 1):
            for what, mk, dt, envs in operands(name, par):
                con = "derivatives.%s, %s" % (name, what)
                fs = [mk_cmp("le", ONE, P(NN))]
                a = one(R, name, ref if name != "dx_cheb" else "cheb_sym", what, mk, dt, envs, Num(P(NN), "int"), con + ", every order n >= 1", fs, soft=True)
                extra = set()
                if isinstance(a, Arr):
                    extra = {v for v in thresholds(a.content, NN) if top <= v <= 40}
                for o in sorted(orders | extra):
                    one(R, name, ref, what, mk, dt, envs, Num(P(o), "int"), con + ", order %d" % o)
                one(R, name, ref, what, mk, dt, envs, None, con + ", default order")
    memory(R)
    refusals(R)


def memory(R):
    for name, ref in FUNS:
        for par in (0, 1):
            for what, mk, dt, envs in operands(name, par):
                for o in (1, 2, 3):
                    C, I, st = scene(R)
                    A = mk(I, st)
                    B = [I.new(st, renamed(st.heap[a.oid])) for a in A]
                    n = Num(P(o), "int")
                    pure(R, "no-memory", "derivatives.%s, %s, order %d" % (name, what, o), C, st, I.glob("rkstiff.derivatives", name), A + [n], B + [n], envs[:4])


def renamed(a):
    """other data of the same kind"""
    e = a.content.atom()
    return Arr(P(Atom("elem", e.args[0] + "'", e.args[1])), a.axes, a.dtype, owner="user")


def refusals(R):
    ks = P(T.sym("kk", int=True, real=True, pos=True))
    neg = T.sym("nneg", int=True, real=True)
    nf = T.sym("nf", real=True)
    for name, _ in FUNS:
        for par in (0, 1):
            for what, mk, dt, envs in operands(name, par):
                con = "derivatives.%s, %s" % (name, what)
                for w, v, f in (("negative order", Num(P(neg), "int"), [mk_cmp("lt", P(neg), ZERO)]), ("order -1", Num(P(-1), "int"), []), ("float order", Num(P(nf), "float"), []), ("order 1.0", Num(ONE, "float"), []), ("order '1'", Str("1"), []), ("order None", NONE, [])):
                    C, I, st = scene(R, f)
                    refused(R, C, st, name, mk(I, st) + [v], con + ", " + w)
    one1 = Num(ONE, "int")
    for par in (0, 1):
        C, I, st = scene(R)
        refused(R, C, st, "dx_rfft", [vec(I, st, "k", m + 1, "float"), vec(I, st, "z", 2 * m + par, "complex"), Num(ZERO, "int")], "derivatives.dx_rfft, complex values, order 0, %s length" % ("odd" if par else "even"))
    for o in (Num(ONE, "int"), Num(P(2), "int"), Num(P(NN), "int")):
        fs = [mk_cmp("le", ONE, P(NN))]
        on = "order %s" % o.p
        for par in (0, 1):
            C, I, st = scene(R, fs + [mk_not(mk_cmp("eq", ks, m + 1))])
            refused(R, C, st, "dx_rfft", [vec(I, st, "k", ks, "float"), vec(I, st, "u", 2 * m + par, "float"), o], "derivatives.dx_rfft, wave numbers of another length, %s, %s length" % (on, "odd" if par else "even"))
            C, I, st = scene(R, fs)
            refused(R, C, st, "dx_rfft", [vec(I, st, "k", m + 1, "float"), vec(I, st, "z", 2 * m + par, "complex"), o], "derivatives.dx_rfft, complex values, %s" % on)
        for k in (ONE, m, m + 2, 2 * m):
            for par in (0, 1):
                C, I, st = scene(R, fs + [mk_cmp("le", P(3), m)])
                refused(R, C, st, "dx_rfft", [vec(I, st, "k", k, "float"), vec(I, st, "u", 2 * m + par, "float"), o], "derivatives.dx_rfft, %s wave numbers for %s values, %s" % (k, 2 * m + par, on))
            if k is not m:
                C, I, st = scene(R, fs + [mk_cmp("le", P(3), m)])
                refused(R, C, st, "dx_fft", [vec(I, st, "k", k, "float"), vec(I, st, "u", m, "float"), o], "derivatives.dx_fft, %s wave numbers for m values, %s" % (k, on))
        C, I, st = scene(R, fs + [mk_not(mk_cmp("eq", ks, m))])
        refused(R, C, st, "dx_fft", [vec(I, st, "k", ks, "float"), vec(I, st, "u", m, "float"), o], "derivatives.dx_fft, wave numbers of another length, %s" % on)
        for w, r, c in (("matrix of another size", ks, ks), ("matrix with other columns", m, ks), ("matrix with other rows", ks, m)):
            for vn in ("vector", "matrix"):
                C, I, st = scene(R, fs + [mk_not(mk_cmp("eq", ks, m))])
                u = vec(I, st, "u", m, "float") if vn == "vector" else mat(I, st, "W", m, q, "float")
                refused(R, C, st, "dx_cheb", [mat(I, st, "D", r, c, "float"), u, o], "derivatives.dx_cheb, %s values, %s, %s" % (vn, w, on))
        C, I, st = scene(R, fs)
        u3 = I.new(st, Arr(P(Atom("elem", "u3", (P(idx(2)), I1, I0))), ((q, None), (q, None), (m, None)), "float", owner="user"))
        refused(R, C, st, "dx_cheb", [mat(I, st, "D", m, m, "float"), u3, o], "derivatives.dx_cheb, 3-d values, %s" % on)


def refused(R, C, st, name, args, con):
    try:
        ok, ex = C.run(st, C.I.glob("rkstiff.derivatives", name), *args)
    except Undecided:
        if isinstance(args[-1], Num) and args[-1].p is P(NN):  # the orders 1 and 2 decide
            R.notes.append(con + ": not expressible for every order at once")
            return
        raise
    if ok is not None:
        R.verdict(None if T.uncertain(ok[0].path) else False, "refuses", con, "accepted when %s" % (ok[0].path[2:],))
        return
    if not ex:
        return R.unk("refuses", con, "no outcome")
    for names, w, s in ex:
        good = {"TypeError", "ValueError"} & {excname([n]) for n in names}
        R.verdict(True if good else None if not names or T.uncertain(s.path) else False, "refuses", con, "raises %s" % excname(names), w)
