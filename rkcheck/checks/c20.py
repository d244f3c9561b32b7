"""Grids, wave numbers, Chebyshev and Hankel grids, mirrored grids: closed forms for every size and interval."""
from ..client import *
from ..evalf import compare, points, thresholds, corners
from ..values import Arr, idx
from ..arrays import as_arr
from ..terms import Atom, Fraction

M, A, B, RM = T.sym("m", int=True, real=True), T.sym("a", real=True), T.sym("b", real=True), T.sym("rmax", real=True, pos=True)
N_ = T.sym("n", int=True, real=True)
I0, I1 = P(idx(0)), P(idx(1))
a, b, m, n, rm = P(A), P(B), P(M), P(N_), P(RM)
ORDER = mk_not(mk_cmp("eq", a, b))


def cospi(x):
    return (T.exp(T.IMAG * T.PI * x) + T.exp(-T.IMAG * T.PI * x)) / 2


def run(R, name, args, facts=(), **kw):
    C = Client(R)
    f = C.I.glob("rkstiff.grids", name)
    st = C.st.fork(*facts)
    R.I = C.I
    ok, ex = C.run(st, f, *args, **kw)
    R.absorb(C.I)
    return C, ok, ex


def accepted(R, con, ok, ex):
    if ex:
        R.verdict(None if all(T.uncertain(s.path) for _, _, s in ex) else False, "accepts", con, "%s raised at %s when %s" % (excname(ex[0][0]), ex[0][1], ex[0][2].path), ex[0][1])
        return False
    if ok is None:
        R.unk("accepts", con, "no outcome")
        return False
    R.ok("accepts", con)
    return True


def array(R, rule, con, st, v, axes, want, envs, what, grow=None):
    """one returned array against its closed form"""
    con = "%s: %s" % (con, what)
    if isinstance(v, IteV):
        v = R.I.pick(st, v)
    if isinstance(v, IteV):
        w = as_arr(R.I, st, v)
        if isinstance(w, Arr):
            v = R.I.new(st, w)
    if isinstance(v, Num):
        o = None
        if axes:
            return R.viol(rule, con, "a number instead of an array")
        return compare(R, rule, con, v.p, want, envs)
    if not isinstance(v, Ref) or not isinstance(st.heap.get(v.oid), Arr):
        return R.verdict(None if not isinstance(v, (NoneV, Str, Tup)) else False, rule, con, "not an array: %r" % (v,))
    o = st.heap[v.oid]
    if any(x[1] is not None for x in o.axes) or o.rep != "idx":
        return R.unk(rule, con, "masked or operator-valued array")
    if len(o.axes) != len(axes):
        if not axes and all(x[0].const() == 1 for x in o.axes):
            pass
        else:
            return R.viol(rule, con, "%d axes instead of %d" % (len(o.axes), len(axes)))
    for k, (x, w) in enumerate(zip(reversed(o.axes), axes)):
        compare(R, rule, con + " length %d" % k, x[0], w, [{q: v for q, v in e.items() if q.kind != "idx"} for e in envs], grow=grow and (grow[0], grow[1], lambda v: []))
    compare(R, rule, con, o.content, want, envs, grow=grow)


def elements(st, v, k):
    if isinstance(v, Tup) and len(v.items) == k:
        return v.items
    if isinstance(v, Ref) and isinstance(st.heap.get(v.oid), ListO):
        o = st.heap[v.oid]
        if o.sym is None and len(o.items) == k:
            return o.items
    return None


def outcome(R, con, st, v, k):
    its = elements(st, v, k)
    if its is None:
        R.verdict(None if isinstance(v, (Opaque, IteV)) else False, "shape", con, "returns %r, not %d values" % (v, k))
    else:
        R.ok("shape", con)
    return its


# ------------------------------------------------------------------------------------------ builders
def periodic(R, name, real, big):
    con = "grids.%s" % name
    even = 2 * m
    for what, facts, N, sizes in (("n even", [mk_cmp("le", P(2), m)], even, range(2, big)),):
        C, ok, ex = run(R, name, [Num(N, "int"), Num(a), Num(b)], facts + [ORDER])
        if not accepted(R, con + " for every even n > 2", ok, ex):
            return
        st, v = ok
        its = outcome(R, con, st, v, 2)
        if its is None:
            return
        nk = m + 1 if real else N
        envs, kenvs = [], []
        for q in sizes:
            envs += points([2 * q], {M: q})
            kenvs += points([q + 1 if real else 2 * q], {M: q})
        array(R, "points", con, st, its[0], (N,), a + I0 * (b - a) / N, envs, "x", (M, 2, lambda v: [2 * v]))
        k = I0 if real else T.ite(mk_cmp("lt", I0, m), I0, I0 - N)
        array(R, "wave-numbers", con, st, its[1], (nk,), 2 * T.PI * k / (b - a), kenvs, "kx", (M, 2, lambda v: [v + 1 if real else 2 * v]))
    for what, N, facts in (("odd n", 2 * m + 1, []), ("even n of at most 2", 2 * m, [mk_cmp("le", m, ONE)])):
        refused(R, con, what, name, [Num(N, "int"), Num(a), Num(b)], facts + [ORDER], ("ValueError",))
    for x in (Num(P(8), "float"), Num(P(Fraction(17, 2)), "float"), Str("8"), NONE):
        refused(R, con, "n=%s" % show(x), name, [x, Num(a), Num(b)], [ORDER], ("TypeError",))
    refused(R, con, "n any float", name, [Num(P(T.sym("nf", real=True)), "float"), Num(a), Num(b)], [ORDER], ("TypeError",))
    # defaults: one period of length 2 pi
    C, ok, ex = run(R, name, [Num(even, "int")], [mk_cmp("le", P(2), m)])
    if accepted(R, con + " default interval", ok, ex):
        its = outcome(R, con + " default interval", ok[0], ok[1], 2)
        if its:
            array(R, "points", con + " default interval", ok[0], its[0], (even,), I0 * 2 * T.PI / even, envs, "x")
            array(R, "wave-numbers", con + " default interval", ok[0], its[1], (nk,), k, kenvs, "kx")


def show(x):
    return repr(x.s) if isinstance(x, Str) else str(x.p) + "." if isinstance(x, Num) else "None"


def refused(R, con, what, name, args, facts, excs):
    con = "%s with %s" % (con, what)
    C, ok, ex = run(R, name, args, facts)
    if ok is not None:
        R.verdict(None if T.uncertain(ok[0].path) else False, "refuses", con, "accepted when %s" % (ok[0].path,))
        return
    if not ex:
        R.unk("refuses", con, "no outcome")
        return
    for names, w, s in ex:
        good = any(n in excs or getattr(n, "name", None) in excs or n in ("TypeError", "ValueError") for n in names)
        R.verdict(True if good else None if T.uncertain(s.path) else False, "refuses", con, "raises %s" % excname(names), w)


def cheb_points(N, j):
    return a + (b - a) * (1 - cospi(j / N)) / 2


def cheb(R, name, big):
    con = "grids.%s" % name
    matrix = name == "construct_x_dx_cheb"
    N = n
    C, ok, ex = run(R, name, [Num(N, "int"), Num(a), Num(b)], [mk_cmp("le", P(2), N), ORDER])
    if not accepted(R, con + " for every n >= 2", ok, ex):
        return
    st, v = ok
    envs = [e for q in range(2, big) for e in points([q + 1], {N_: q})]
    if matrix:
        its = outcome(R, con, st, v, 2)
        if its is None:
            return
        array(R, "points", con, st, its[0], (N + 1,), cheb_points(N, I0), envs, "x", (N_, 2, lambda v: [v + 1]))
        diffmat(R, con, st, its[1], N, big)
    else:
        array(R, "points", con, st, v, (N + 1,), cheb_points(N, I0), envs, "x", (N_, 2, lambda v: [v + 1]))
    for dflt in ([Num(N, "int")],):
        C, ok, ex = run(R, name, dflt, [mk_cmp("le", P(2), N)])
        if accepted(R, con + " default interval", ok, ex):
            x = elements(ok[0], ok[1], 2)[0] if matrix and elements(ok[0], ok[1], 2) else ok[1]
            array(R, "points", con + " default interval", ok[0], x, (N + 1,), -cospi(I0 / N), envs, "x")
    refused(R, con, "n < 2", name, [Num(N, "int"), Num(a), Num(b)], [mk_cmp("lt", N, P(2)), ORDER], ("ValueError",))
    for x in (Num(P(8), "float"), Str("8"), NONE, Num(P(T.sym("nf", real=True)), "float")):
        refused(R, con, "n=%s" % show(x), name, [x, Num(a), Num(b)], [ORDER], ("TypeError",))


def diffmat(R, con, st, v, N, big):
    """entry (i, j) of the matrix is the derivative at x_i of the Lagrange polynomial of x_j"""
    con = con + ": matrix"
    o = as_arr(R.I, st, v)
    if not isinstance(o, Arr):
        return R.unk("matrix", con, "not an array")
    if o.rep != "idx" or len(o.axes) != 2 or any(x[1] is not None for x in o.axes):
        return R.verdict(False if len(o.axes) != 2 else None, "matrix", con, "not a full matrix")
    e0 = [{N_: q} for q in range(2, big)]
    for k in (0, 1):
        compare(R, "matrix", con + " length %d" % k, o.axes[k][0], N + 1, e0)
    end = lambda i: T.ite(mk_cmp("eq", i, ZERO), P(2), T.ite(mk_cmp("eq", i, N), P(2), ONE))
    sgn = lambda i: T.exp(T.IMAG * T.PI * i)
    x = lambda i: cheb_points(N, i)
    # every n at once: off the diagonal
    off = [(mk_cmp("eq", I0, I1), False)]
    # storage axis 0 is the last numpy axis: row #1, column #0
    want = end(I1) * sgn(I1 - I0) / end(I0) / (x(I1) - x(I0))
    envs = [e for q in range(2, big) for e in points([q + 1, q + 1], {N_: q}) if e[idx(0)] != e[idx(1)]]
    got = o.content
    for l, val in off:
        got = T.assume(got, l, val)
    for q in thresholds(o.content, N_):
        if q >= big:
            envs += [{N_: q, idx(0): i, idx(1): j} for i, j in corners([q + 1, q + 1]) if i != j]
    compare(R, "matrix", con + " off the diagonal", got, want, envs, facts=off)
    # the diagonal, as Lagrange derivative at concrete sizes (exact nodes)
    bad = None
    cnt = 0
    from ..evalf import Eval, Unknown, close
    for q in sorted(set(range(2, big)) | {t for t in thresholds(o.content, N_) if big <= t < 400}):
        for s in range(2 if q < big else 1):
            ev = Eval({N_: q}, s)
            xs = [ev.poly(T.subst(x(I0), {idx(0): P(i)})) for i in range(q + 1)]
            for i in (range(q + 1) if q < big else (0, 1, q // 2, q)):
                for j in (range(q + 1) if q < big else (0, 1, q // 2, q)):
                    if i == j:
                        w = sum(1 / (xs[i] - xs[k]) for k in range(q + 1) if k != i)
                    else:
                        w = 1 / (xs[j] - xs[i])
                        for k in range(q + 1):
                            if k != i and k != j:
                                w *= (xs[i] - xs[k]) / (xs[j] - xs[k])
                    try:
                        g = ev.inside({idx(1): i, idx(0): j}).poly(o.content)
                    except (Unknown, OverflowError, ZeroDivisionError) as e:
                        bad = bad or (None, "entry (%d,%d) for n=%d cannot be evaluated: %s" % (i, j, q, e))
                        continue
                    cnt += 1
                    if not close(g, w, 1e-7):
                        bad = (False, "entry (%d,%d) for n=%d is %.6g, the derivative of the Lagrange polynomial is %.6g" % (i, j, q, g.real, w.real))
                        break
    if bad and bad[0] is False and T.uncertain(o.content):
        bad = (None, bad[1])
    R.verdict(True if bad is None else bad[0], "matrix", con + " as Lagrange derivatives, n=2..%d" % (big - 1), bad[1] if bad else "%d entries" % cnt)
    # rows sum to zero, as a statement about the derived entries for every n: D_ii = -(sum of the others)
    R.notes.append("construct_x_dx_cheb: %d matrix entries compared" % cnt)


def hankel(R, big):
    name = "construct_r_kr_hankel"
    con = "grids." + name
    z = lambda i: P(Atom("app", "besselzero", (ZERO,), (i,)))
    C, ok, ex = run(R, name, [Num(n, "int"), Num(rm)], [mk_cmp("le", P(4), n), mk_cmp("lt", ZERO, rm)])
    if not accepted(R, con + " for every nr >= 4, rmax > 0", ok, ex):
        return
    st, v = ok
    its = outcome(R, con, st, v, 4)
    if its is None:
        return
    envs = [e for q in range(4, big + 2) for e in points([q], {N_: q})]
    top = z(n + 1)
    array(R, "points", con, st, its[0], (n,), z(I0 + 1) / top * rm, envs, "r", (N_, 4, lambda v: [v]))
    array(R, "wave-numbers", con, st, its[1], (n,), z(I0 + 1) / rm, envs, "kr", (N_, 4, lambda v: [v]))
    array(R, "points", con, st, its[2], (n,), z(I0 + 1), envs, "bessel_zeros", (N_, 4, lambda v: [v]))
    array(R, "points", con, st, its[3], (), top, envs, "jN")
    refused(R, con, "nr < 4", name, [Num(n, "int"), Num(rm)], [mk_cmp("lt", n, P(4))], ("ValueError",))
    neg = T.sym("rneg", real=True)
    for what, v, f in (("rmax <= 0", Num(P(neg)), [mk_cmp("le", P(neg), ZERO)]), ("rmax NaN", NAN, []), ("rmax = 0", Num(ZERO, "float"), [])):
        refused(R, con, what, name, [Num(n, "int"), v], [mk_cmp("le", P(4), n)] + f, ("ValueError",))


def mirror(R, big):
    con = "grids.mirror_grid"
    p, q = T.sym("p", int=True, real=True, pos=True), T.sym("q", int=True, real=True, pos=True)
    pp, qq = P(p), P(q)
    for dt in ("float", "complex"):
        for ax, shape in (("default", (pp,)), (-1, (pp,)), (0, (pp, qq)), (1, (pp, qq)), (None, None)):
            C = Client(R)
            I = R.I = C.I
            st = C.st.fork(mk_cmp("le", ONE, pp), mk_cmp("le", ONE, qq))
            rlen = pp if ax != 1 else qq
            rl = q if ax == 1 else p
            r = I.new(st, Arr(P(Atom("elem", "r", (I0,))), ((rlen, None),), "float", owner="user"))
            args = [r]
            if shape is not None:
                u = I.new(st, Arr(P(Atom("elem", "u", (I0,) if len(shape) == 1 else (I1, I0))), tuple((s, None) for s in reversed(shape)), dt, owner="user"))
                args.append(u)
            if isinstance(ax, int):
                args.append(Num(P(ax), "int"))
            c = "%s axis=%s %s" % (con, ax, dt) if shape else con + " without values"
            ok, ex = C.run(st, I.glob("rkstiff.grids", "mirror_grid"), *args)
            R.absorb(I)
            if not accepted(R, c, ok, ex):
                continue
            its = outcome(R, c, ok[0], ok[1], 2)
            if its is None:
                continue
            el = lambda nm, *i: P(Atom("elem", nm, i))
            envs = [e for x in range(1, big) for e in points([2 * x], {rl: x})]
            array(R, "mirror", c, ok[0], its[0], (2 * rlen,), T.ite(mk_cmp("lt", I0, rlen), -el("r", rlen - 1 - I0), el("r", I0 - rlen)), envs, "r", (N_, 4, lambda v: [v]))
            if shape is None:
                R.verdict(True if isinstance(its[1], NoneV) else False, "mirror", c + ": values", "not None")
            elif len(shape) == 1:
                array(R, "mirror", c, ok[0], its[1], (2 * pp,), T.ite(mk_cmp("lt", I0, pp), el("u", pp - 1 - I0), el("u", I0 - pp)), envs, "values")
            elif ax == 0:
                envs = [e for x in range(1, 4) for y in range(1, 4) for e in points([y, 2 * x], {p: x, q: y})]
                array(R, "mirror", c, ok[0], its[1], (2 * pp, qq), T.ite(mk_cmp("lt", I1, pp), el("u", pp - 1 - I1, I0), el("u", I1 - pp, I0)), envs, "values")
            else:
                envs = [e for x in range(1, 4) for y in range(1, 4) for e in points([2 * y, x], {p: x, q: y})]
                array(R, "mirror", c, ok[0], its[1], (pp, 2 * qq), T.ite(mk_cmp("lt", I0, qq), el("u", I1, qq - 1 - I0), el("u", I1, I0 - qq)), envs, "values")
    for ax in (2, 3, -2, -3):
        C = Client(R)
        I = C.I
        st = C.st.fork()
        r = I.new(st, Arr(P(Atom("elem", "r", (I0,))), ((pp, None),), "float", owner="user"))
        u = I.new(st, Arr(P(Atom("elem", "u", (I1, I0))), ((qq, None), (pp, None)), "float", owner="user"))
        ok, ex = C.run(st, I.glob("rkstiff.grids", "mirror_grid"), r, u, Num(P(ax), "int"))
        R.verdict(True if ok is None and ex and all("ValueError" in [excname([x]) for x in e[0]] for e in ex) else False if ok is not None else None, "refuses", con + " axis=%d" % ax, "accepted" if ok else "raises %s" % [excname(e[0]) for e in ex])


def memory(R):
    from ..pure import pure
    from .c21 import renamed
    N2, A2, B2, R2 = T.sym("n'", int=True, real=True), T.sym("a'", real=True), T.sym("b'", real=True), T.sym("rmax'", real=True, pos=True)
    M2 = T.sym("m'", int=True, real=True)
    for name in ("construct_x_kx_rfft", "construct_x_kx_fft", "construct_x_cheb", "construct_x_dx_cheb", "construct_r_kr_hankel", "mirror_grid"):
        C = Client(R)
        I = C.I
        f = I.glob("rkstiff.grids", name)
        if name == "mirror_grid":
            q = P(T.sym("p", int=True, real=True, pos=True))
            st = C.st.fork(mk_cmp("le", ONE, q))
            A = [I.new(st, Arr(P(Atom("elem", nm, (I0,))), ((q, None),), "float", owner="user")) for nm in ("r", "u")]
            B = [I.new(st, renamed(st.heap[x.oid])) for x in A]
            runs = [(A, B, points([6], {q.atom(): 3}))]
        elif name == "construct_r_kr_hankel":
            st = C.st.fork(mk_cmp("le", P(4), n), mk_cmp("le", P(4), P(N2)))
            runs = [([Num(n, "int"), Num(rm)], [Num(k, "int"), Num(P(R2))], points([4], {N_: 4})) for k in (n, P(N2))]
        else:
            per = "kx" in name
            st = C.st.fork(mk_cmp("le", P(2), n), mk_cmp("le", P(2), P(N2)), mk_cmp("le", P(2), m), mk_cmp("le", P(2), P(M2)), ORDER, mk_not(mk_cmp("eq", P(A2), P(B2))))
            k1, k2 = (2 * m, 2 * P(M2)) if per else (n, P(N2))
            runs = [([Num(k1, "int"), Num(a), Num(b)], [Num(k, "int"), Num(p), Num(q)], points([3], {M: 2, N_: 4})) for k, p, q in ((k2, P(A2), P(B2)), (k1, a, P(B2)), (k1, P(A2), b), (k2, a, b))]
        for A_, B_, envs in runs:
            pure(R, "no-memory", "grids.%s%s" % (name, "" if len(runs) == 1 else " (others: %s)" % ", ".join(str(x.p) for x in B_)), C, st, f, A_, B_, envs)
        R.absorb(I)


def check(R):
    R.rule("precision", "no value on the way is held in a type narrower than double precision")
    R.rule("no-memory", "the builders give the same grid whatever was built before, also when the caller overwrote the arrays of an earlier call")
    R.rule("accepts", "every size of the documented range and every interval is accepted")
    R.rule("refuses", "every size outside the documented range, and every size of another type, raises ValueError or TypeError")
    R.rule("shape", "the documented number of values is returned")
    R.rule("points", "the returned grid equals its closed form as a term in n, a, b and the position: equally spaced points, mapped Chebyshev extrema, scaled Bessel zeros")
    R.rule("wave-numbers", "the returned wave numbers equal 2 pi k/(b-a) in the order of the matching transform (r j/rmax for the Hankel grid)")
    R.rule("matrix", "entry (i,j) of the differentiation matrix: for every n the closed form off the diagonal; for small n every entry equals the derivative of the Lagrange polynomial of the returned points")
    R.rule("mirror", "mirrored grids and values equal the reflected array followed by the array on the requested axis")
    R.assumptions += ["scipy.special.jn_zeros returns the positive zeros of J0 in increasing order", "numpy.fft.fftfreq/rfftfreq and numpy.polynomial.chebyshev.chebpts2 follow their documentation", "a != b", "real arithmetic (no rounding)"]
    big = 9 if R.tier == "quick" else 17
    periodic(R, "construct_x_kx_rfft", True, big)
    periodic(R, "construct_x_kx_fft", False, big)
    cheb(R, "construct_x_cheb", big)
    cheb(R, "construct_x_dx_cheb", big if R.tier != "quick" else 8)
    hankel(R, big)
    mirror(R, big)
    memory(R)
