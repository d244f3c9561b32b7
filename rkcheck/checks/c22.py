"""The model problems are the equations they claim to be."""
from ..client import *
from ..client import Undecided
from ..evalf import compare, points, thresholds, same_on, Eval
from ..calculus import diff, NoDerivative
from ..values import Arr, idx
from ..arrays import as_arr
from ..terms import Atom, Fraction
from ..pure import pure
from .c21 import vec, mat, content, renamed

I0, I1 = P(idx(0)), P(idx(1))
M = T.sym("m", int=True, real=True, pos=True)
m = P(M)
MU, EPS = T.sym("mu", real=True), T.sym("eps", real=True)
X, AMP, X0, TT = (T.sym(n, real=True) for n in ("X", "A", "x0", "t"))
for nm in ("k", "x", "xs", "D", "As", "zs", "k'", "x'", "xs'", "D'", "As'", "zs'"):
    T.sym(nm, real=True)

SPEC = """
import numpy as np
def whole(f, args, u):
    L, N = f(*args)
    n = N(u)
    if L.ndim == 1:
        return L, n, L * u + n
    return L, n, L @ u + n
def spread(f, *a):
    return whole(f, a[:-1], a[-1])
def apply(L, N, u):
    n = N(u)
    if L.ndim == 1:
        return L * u + n
    return L @ u + n
def kdv(k, uf):
    u = np.fft.irfft(uf)
    ux = np.fft.irfft(1j * k * uf)
    return -6 * np.fft.rfft(u * ux) - (1j * k) ** 3 * uf
def burgers(k, mu, uf):
    u = np.fft.irfft(uf)
    ux = np.fft.irfft(1j * k * uf)
    return -np.fft.rfft(u * ux) + mu * (1j * k) ** 2 * uf
def allen_cahn(x, D, eps, w):
    D2 = D @ D
    W = w + x[1:-1]
    return eps * (D2[1:-1, 1:-1] @ w) + W - W * W * W
def soliton(x, a, x0, t):
    s = a / 2 * (x - x0 - a * a * t)
    return 2 * a * a / (np.exp(s) + np.exp(-s)) ** 2
def multi(x, a, x0, t):
    u = 0 * x
    for i in range(len(a)):
        u = u + soliton(x, a[i], x0[i], t)
    return u
"""


def scene(R, *facts):
    C = Client(R, SPEC)
    return C, C.I, C.st.fork(mk_cmp("le", P(3), m), *facts)


def outcome(R, rule, con, ok, ex):
    if ex:
        R.verdict(None if all(T.uncertain(s.path) for _, _, s in ex) else False, rule, con, "%s raised at %s" % (excname(ex[0][0]), ex[0][1]), ex[0][1])
        return None
    if ok is None:
        R.unk(rule, con, "no outcome")
        return None
    return ok


def pair(v, st):
    if isinstance(v, Tup) and len(v.items) == 2:
        return v.items
    return None


def arrays(R, rule, con, I, st, got, ref, envs, dtype=None):
    a, b = content(I, st, got), content(I, st, ref)
    if not isinstance(a, Arr):
        return R.verdict(False if isinstance(got, (NoneV, Num, Str, Tup)) else None, rule, con, "not an array: %r" % (got,))
    if len(a.axes) != len(b.axes):
        return R.viol(rule, con, "%d axes instead of %d" % (len(a.axes), len(b.axes)))
    if a.rep != b.rep:
        return R.unk(rule, con, "operator-valued array")
    for k, (p, q) in enumerate(zip(a.axes, b.axes)):
        if p[0] is not q[0]:
            compare(R, rule, con + ": length %d" % k, p[0], q[0], [{M: s} for s in (3, 4, 5)])
    if dtype and a.dtype not in (dtype, "any"):
        R.viol(rule, con + ": kind", "result is %s, not %s" % (a.dtype, dtype))
    compare(R, rule, con, a.content, b.content, envs)


def equation(R, name, extra, specname, rule):
    """spectral pairs"""
    con = "models.%s" % name
    C, I, st = scene(R)
    k = vec(I, st, "k", m + 1, "float")
    ok, ex = C.run(st, I.glob("rkstiff.models", name), k, *extra)
    R.absorb(I)
    r = outcome(R, "defined", con, ok, ex)
    if r is None:
        return
    st, v = r
    it = pair(v, st)
    if it is None:
        return R.verdict(None if isinstance(v, (Opaque, IteV)) else False, "defined", con, "returns %r, not a pair" % (v,))
    R.ok("defined", con)
    uf = vec(I, st, "uf", m + 1, "complex")
    for what in ("first call", "second call"):
        ok, ex = C.run(st, "apply", it[0], it[1], uf)
        r = outcome(R, "defined", con + ": right-hand side, " + what, ok, ex)
        if r is None:
            return
        st, got = r
        ref, _ = C.run(st, specname, k, *extra, uf)
        envs = [e for s in (3, 4) for e in points([s + 1], {M: s})]
        arrays(R, rule, con + ": L u + N(u), " + what, I, ref[0], got, ref[1], envs, "complex")
    lo = content(I, st, it[0])
    R.verdict(None if lo is None else len(lo.axes) == 1, rule, con + ": operator is diagonal", "%r" % (lo,))


def allen_cahn(R, dflt):
    con = "models.allen_cahn_ops" + (" with its default parameter" if dflt else "")
    C, I, st = scene(R)
    x, D = vec(I, st, "x", m + 1, "float"), mat(I, st, "D", m + 1, m + 1, "float")
    eps = Num(P(EPS)) if not dflt else None
    ok, ex = C.run(st, I.glob("rkstiff.models", "allen_cahn_ops"), x, D, *([eps] if eps else []))
    R.absorb(I)
    r = outcome(R, "defined", con, ok, ex)
    if r is None:
        return
    st, v = r
    it = pair(v, st)
    if it is None:
        return R.verdict(None if isinstance(v, (Opaque, IteV)) else False, "defined", con, "returns %r, not a pair" % (v,))
    R.ok("defined", con)
    for dt, nm in (("float", "xs"), ("complex", "ws")):
        w = vec(I, st, nm, m - 1, dt)
        ok, ex = C.run(st, "apply", it[0], it[1], w)
        r = outcome(R, "defined", con + ": right-hand side of %s states" % dt, ok, ex)
        if r is None:
            return
        s2, got = r
        ref, _ = C.run(s2, "allen_cahn", x, D, eps or Num(P(Fraction(1, 100))), w)
        envs = [e for s in (3, 4, 5) for e in points([s - 1], {M: s})]
        arrays(R, "allen-cahn", con + ": L w + N(w), %s states" % dt, I, ref[0], got, ref[1], envs)
    lo = content(I, st, it[0])
    R.verdict(None if lo is None else len(lo.axes) == 2, "allen-cahn", con + ": operator is a matrix", "%r" % (lo,))


def at_point(p):
    """the content at one grid point as a function of the symbol X"""
    sub = {a: P(X) for a in p.deps if a.kind == "elem" and a.args[0] == "x"}
    return T.subst(p, sub)


def soliton(R):
    con = "models.kdv_soliton"
    C, I, st = scene(R)
    x = vec(I, st, "x", m, "float")
    args = [Num(P(AMP)), Num(P(X0)), Num(P(TT))]
    ok, ex = C.run(st, I.glob("rkstiff.models", "kdv_soliton"), x, *args)
    R.absorb(I)
    r = outcome(R, "defined", con, ok, ex)
    if r is None:
        return
    st, v = r
    a = content(I, st, v)
    if not isinstance(a, Arr) or a.rep != "idx" or len(a.axes) != 1:
        return R.unk("soliton-formula", con, "not an array over the points: %r" % (v,))
    ref, _ = C.run(st, "soliton", x, *args)
    envs = points([3], {M: 3})
    envs = envs + [{**e, **z} for e in envs[:2] for z in ({AMP: 6.0}, {X0: 40.0}, {X0: -11.0, TT: 0.3}, {AMP: 1e-3}, {TT: 25.0}, {AMP: 40.0, X0: 1.5})]
    arrays(R, "soliton-formula", con, I, ref[0], v, ref[1], envs, "float")
    u = at_point(a.content)
    try:
        ux = diff(u, X)
        res = diff(u, TT) + 6 * u * ux + diff(diff(ux, X), X)
    except NoDerivative as e:
        # a formula without a symbolic derivative: through the closed form it was shown equal to
        bad = [i for i in R.items if i["rule"] == "soliton-formula" and i["construct"] == con and i["status"] != "ok"]
        u = at_point(content(I, ref[0], ref[1]).content)
        ux = diff(u, X)
        res = diff(u, TT) + 6 * u * ux + diff(diff(ux, X), X)
        if bad:
            return R.unk("soliton-solves", con, str(e))
    zero = res is ZERO or not res.t or T.is_zero_rational(res)
    if zero:
        R.ok("soliton-solves", con, "u_t + 6 u u_x + u_xxx = 0 as a rational identity")
    else:
        pts = [{X: a, AMP: b, X0: c, TT: d} for a in (-0.7, 0.4, 1.9) for b in (0.3, 1.1) for c in (0.2, -1.3) for d in (-0.5, 0.8)]
        sc, d = same_on(res + 1, ONE, pts, seeds=1)
        if sc:
            R.notes.append(con + ": u_t + 6 u u_x + u_xxx vanishes at every sample point")
        R.verdict(sc if sc is not False or not T.uncertain(res) else None, "soliton-solves", con, d)
    for dargs, val, what in ((0, (Fraction(1, 2), 0, 0), "all defaults"), (1, (P(AMP), 0, 0), "default position and time"), (2, (P(AMP), P(X0), 0), "default time")):
        C, I, st = scene(R)
        x = vec(I, st, "x", m, "float")
        ok, ex = C.run(st, I.glob("rkstiff.models", "kdv_soliton"), x, *args[:dargs])
        r = outcome(R, "defined", con + ", " + what, ok, ex)
        if r:
            ref, _ = C.run(r[0], "soliton", x, *[Num(P(z)) for z in val])
            arrays(R, "soliton-formula", con + ", " + what, I, ref[0], r[1], ref[1], envs, "float")


def multi(R, top):
    con = "models.kdv_multi_soliton"
    for n in range(1, top):
        for kind in ("list", "tuple", "array"):
            for tgiven in (True, False):
                C, I, st = scene(R)
                x = vec(I, st, "x", m, "float")
                A = [Num(P(T.sym("A%d" % i, real=True))) for i in range(n)]
                Z = [Num(P(T.sym("z%d" % i, real=True))) for i in range(n)]
                def seq(its):
                    if kind == "tuple":
                        return Tup(tuple(its))
                    l = I.new(st, ListO(tuple(its)))
                    return l if kind == "list" else I.call_ext(st, "numpy.array", [l], {}, None)
                sa, sz = seq(A), seq(Z)
                t = Num(P(TT)) if tgiven else Num(ZERO, "float")
                c = "%s of %d solitons (%s)%s" % (con, n, kind, "" if tgiven else ", default time")
                ok, ex = C.run(st, I.glob("rkstiff.models", "kdv_multi_soliton"), x, sa, sz, *([t] if tgiven else []))
                R.absorb(I)
                r = outcome(R, "defined", c, ok, ex)
                if r is None:
                    continue
                ref, _ = C.run(r[0], "multi", x, sa, sz, t)
                arrays(R, "superposition", c, I, ref[0], r[1], ref[1], points([3], {M: 3}), "float")
    for n1, n2 in ((1, 2), (2, 1), (3, 2), (2, 4), (0, 1)):
        C, I, st = scene(R)
        x = vec(I, st, "x", m, "float")
        mk = lambda k, p: I.new(st, ListO(tuple(Num(P(T.sym("%s%d" % (p, i), real=True))) for i in range(k))))
        ok, ex = C.run(st, I.glob("rkstiff.models", "kdv_multi_soliton"), x, mk(n1, "A"), mk(n2, "z"))
        c = "%s with %d amplitudes and %d positions" % (con, n1, n2)
        if ok is not None:
            R.verdict(None if T.uncertain(ok[0].path) else False, "mismatch", c, "accepted")
        elif ex:
            R.verdict(any("ValueError" in [excname([q]) for q in e[0]] for e in ex), "mismatch", c, "raises %s" % excname(ex[0][0]))
        else:
            R.unk("mismatch", c, "no outcome")


def memory(R):
    """factories, returned functions and profiles depend on nothing but their arguments"""
    MU2, EPS2 = T.sym("mu'", real=True), T.sym("eps'", real=True)
    for name in ("kdv_ops", "burgers_ops", "allen_cahn_ops"):
        C, I, st = scene(R)
        if name == "allen_cahn_ops":
            A = [vec(I, st, "x", m + 1, "float"), mat(I, st, "D", m + 1, m + 1, "float"), Num(P(EPS))]
            u = vec(I, st, "xs", m - 1, "float")
            envs = [e for e in points([2], {M: 3})]
        else:
            A = [vec(I, st, "k", m + 1, "float")] + ([Num(P(MU))] if name == "burgers_ops" else [])
            u = vec(I, st, "uf", m + 1, "complex")
            envs = points([4], {M: 3})
        other = lambda a: I.new(st, renamed(st.heap[a.oid])) if isinstance(a, Ref) else Num(P(MU2 if a.p is P(MU) else EPS2))
        B = [other(a) for a in A]
        u2 = other(u)
        f = I.glob("rkstiff.models", name)
        flat = "def whole%d(f, *a):\n    return whole(f, a[:-1], a[-1])\n"
        pure(R, "no-memory", "models.%s" % name, C, st, C.fn("spread"), [f] + A + [u], [f] + B + [u2], envs)
        ok, ex = C.run(st.fork(), f, *A)
        it = pair(ok[1], ok[0]) if ok else None
        if it:
            pure(R, "no-memory", "models.%s: returned function" % name, C, ok[0], it[1], [u], [u2], envs)
            # another pair made in between
            s1, v1 = ok
            ok2, ex = C.run(s1.fork(), f, *B)
            ref, _ = C.run(s1.fork(), it[1], u)
            got = C.run(ok2[0], it[1], u)[0] if ok2 else None
            con = "models.%s: returned function, after another pair was made" % name
            if ref and got:
                from ..pure import same, data
                same(R, "no-memory", con, I, got[0], got[1], ref[0], ref[1], envs, data(I, s1, B))
            else:
                R.unk("no-memory", con, "no outcome")
    C, I, st = scene(R)
    x = vec(I, st, "x", m, "float")
    A = [x] + [Num(P(q)) for q in (AMP, X0, TT)]
    B = [I.new(st, renamed(st.heap[x.oid]))] + [Num(P(T.sym(q.args[0] + "'", real=True))) for q in (AMP, X0, TT)]
    pure(R, "no-memory", "models.kdv_soliton", C, st, I.glob("rkstiff.models", "kdv_soliton"), A, B, points([3], {M: 3}))
    A = [x] + [I.new(st, Arr(P(Atom("elem", q, (I0,))), ((P(2), None),), "float", owner="user")) for q in ("As", "zs")] + A[3:]
    B = [I.new(st, renamed(st.heap[a.oid])) for a in A[:3]] + B[3:]
    pure(R, "no-memory", "models.kdv_multi_soliton", C, st, I.glob("rkstiff.models", "kdv_multi_soliton"), A, B, points([3], {M: 3}))


def check(R):
    R.rule("precision", "no value on the way is held in a type narrower than double precision")
    R.rule("defined", "the factories and the returned functions are defined for every admissible input and return a pair (operator, function)")
    R.rule("kdv", "L u + N(u) of the returned pair is -6 F(u u_x) - (ik)^3 uf for every spectrum and wave-number array, on every call")
    R.rule("burgers", "L u + N(u) is -F(u u_x) + mu (ik)^2 uf")
    R.rule("allen-cahn", "L w + N(w) on the interior points is eps D^2 w + (w+x) - (w+x)^3")
    R.rule("soliton-formula", "the profile is A^2/2 sech^2(A (x - x0 - A^2 t)/2)")
    R.rule("soliton-solves", "the derived profile satisfies u_t + 6 u u_x + u_xxx = 0 identically (exact derivatives of the derived term)")
    R.rule("superposition", "the multi-soliton profile is the sum of the single profiles")
    R.rule("no-memory", "factories, returned functions and profiles give the same result whatever was called before, also when the caller overwrote earlier results or changed arguments in place")
    R.rule("mismatch", "amplitude and position lists of different lengths raise ValueError")
    R.assumptions += ["real arithmetic (no rounding)", "numpy.fft transforms are the discrete Fourier transforms of their documentation"]
    equation(R, "kdv_ops", [], "kdv", "kdv")
    equation(R, "burgers_ops", [Num(P(MU))], "burgers", "burgers")
    allen_cahn(R, False)
    allen_cahn(R, True)
    memory(R)
    soliton(R)
    multi(R, 4 if R.tier == "quick" else 7)
