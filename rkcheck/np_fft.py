"""Fourier transforms, Chebyshev points and Bessel functions as uninterpreted (linear where they are) functions."""
from __future__ import annotations
from .terms import *
from .terms import P, Fraction
from . import terms as T
from .values import *
from .arrays import *
from .arrays import ew, put, as_arr, write, numify, axis_len
from .ops import divide, condify, floor_p, is_int_poly, mod_p
from . import npmodel as N
from .np_shape import const_int
from .linalg import const_factor

I0 = P(idx(0))


def free_of(c, k):
    """free indices other than #k"""
    return sorted({a.args[0] for a in free_idx(c)} - {k})


def lin_app(nm, c, ax, extra, out_index=I0):
    """nm applied along index #0; linear over scalar factors and sums"""
    out = ZERO
    for m, cf in c.t.items():
        t = Poly({m: cf})
        q, core = split0(t, nm in ("irfft", "hfft"))
        free = free_of(core, 0)
        ren = {idx(k): P(idx(i + 1)) for i, k in enumerate(free) if k != i + 1}
        body = T.subst(core, ren) if ren else core
        out = out + q * T.mk_app(nm, (Lam(body, (ax,)),) + extra, (out_index,) + tuple(P(idx(k)) for k in free))
    return out


def split0(t, real=False):
    """factor not depending on #0 (and real, when the function is linear over the reals only), and the rest"""
    (pw, ex), cf = next(iter(t.t.items()))
    q, r = P(cf), ONE
    b = idx(0)
    for a, e in pw:
        if b in a.deps or real and not T.is_real(T.power(P(a), e)):
            r = r * T.power(P(a), e)
        else:
            q = q * T.power(P(a), e)
    if ex is not None:
        keep, rest = ZERO, ZERO
        for m, c2 in ex.t.items():
            x = Poly({m: c2})
            if b in x.deps or real and not T.is_real(x):
                keep = keep + x
            else:
                rest = rest + x
        r = r * T.exp(keep)
        q = q * T.exp(rest)
    return q, r


def half(I, st, n):
    """n//2"""
    c = n.const()
    if c is not None:
        return P(int(c) // 2)
    h = n * P(Fraction(1, 2))
    if is_int_poly(h):
        return h
    for par in (0, 1):
        if I.decide(st, mk_cmp("eq", mod_p(I, st, n, P(2)), P(par))) is True:
            return (n - P(par)) * P(Fraction(1, 2))
    return floor_p(I, st, h)


def axis_ok(I, st, a, args, kw, node):
    v = kw.get("axis", args[2] if len(args) > 2 else num(-1))
    if len(a.axes) <= 1 or isinstance(v, NoneV):
        return True
    k = const_int(I, st, v)
    return k is not None and k % len(a.axes) == len(a.axes) - 1


def length_arg(I, st, args, kw, node):
    v = I.pick(st, args[1] if len(args) > 1 else kw.get("n", NONE))
    if isinstance(v, NoneV):
        return None
    a = as_arr(I, st, v, node)
    return a.p if isinstance(a, Num) else "?"


def fft_h(nm):
    def h(I, st, args, kw, node):
        a = as_arr(I, st, args[0], node)
        if not isinstance(a, Arr) or not a.axes:
            return I.opaque_value(nm)
        n = length_arg(I, st, args, kw, node)
        norm = kw.get("norm", args[3] if len(args) > 3 else NONE)
        extra = ()
        if not (isinstance(norm, NoneV) or norm == Str("backward")):
            extra = (P(T.sym("fftnorm:%s" % (getattr(norm, "s", "?"),))),)
        if n == "?" or not axis_ok(I, st, a, args, kw, node) or a.rep != "idx" or a.axes[0][1] is not None:
            return I.new(st, replace(N.fresh_copy(a), content=I.opq(nm), dtype="complex", rep="idx"))
        m = a.axes[0][0]
        c = numify(a.content)
        I.ev(st, "fft", node, name=nm, src=a, n=n)
        if nm in ("rfft", "ihfft"):
            if a.dtype in ("complex",):
                I.exc(st, "TypeError", None, node)
            nn = m if n is None else n
            ln = half(I, st, nn) + ONE
            dt = "complex"
            if I.decide(st, mk_cmp("eq", m, ZERO)) is None and nm == "rfft" and n is None and m.const() is None:
                pass
            if nn.const() == 0:
                I.exc(st, "ValueError", None, node)
        elif nm in ("irfft", "hfft"):
            nn = (m - ONE) * P(2) if n is None else n
            ln = nn
            dt = "float"
        else:
            nn = m if n is None else n
            ln = nn
            dt = "complex"
        # zero padding / truncation is part of the function when the length differs
        need = m if nm in ("rfft", "fft", "ifft", "ihfft") else None
        ex = () if (need is not None and nn is need) else (nn,)
        r = lin_app(nm, c, a.axes[0], ex + extra)
        return I.new(st, Arr(r, ((ln, None),) + a.axes[1:], dt))
    return h


def fft_hook(nm, other):
    """rfft(irfft(x, n)) is x up to the imaginary part of the end points: left alone; fft(ifft(x)) is x"""
    def h(args, ix):
        if len(args) != 1:
            return None
        lam = args[0]
        a = lam.body.atom() if isinstance(lam.body, Poly) else None
        if a is not None and a.kind == "app" and a.args[0] == other and len(a.args[1]) == 1 and len(a.args) > 2 and a.args[2][0] is I0:
            inner = a.args[1][0]
            if inner.axes == lam.axes and len(ix) == 1 and len(a.args[2]) == 1:
                return T.subst(inner.body, {idx(0): ix[0]})
        return None
    return h


def freq_h(real):
    def h(I, st, args, kw, node):
        n = as_arr(I, st, args[0] if args else kw["n"], node)
        d = as_arr(I, st, args[1] if len(args) > 1 else kw.get("d", num(1)), node)
        if not isinstance(n, Num) or not isinstance(d, Num):
            return I.opaque_value("fftfreq")
        if n.ty == "float":
            I.exc(st, "ValueError", None, node)
        den = n.p * d.p
        I.ev(st, "div", node, num=num(1), den=Num(den, "float"))
        if real:
            return I.new(st, Arr(divide(I0, den), ((half(I, st, n.p) + ONE, None),), "float"))
        # 0..(n-1)//2, then -(n//2)..-1
        k = half(I, st, n.p)
        pos = n.p - k  # number of non-negative entries = (n-1)//2+1 = n - n//2
        c = T.ite(mk_cmp("lt", I0, pos), I0, I0 - n.p)
        return I.new(st, Arr(divide(c, den), ((n.p, None),), "float"))
    return h


def chebpts2_h(I, st, args, kw, node):
    n = as_arr(I, st, args[0], node)
    if not isinstance(n, Num):
        return I.opaque_value("chebpts2")
    # cos(linspace(-pi, 0, n)): ascending
    t = -PI + I0 * PI / (n.p - ONE)
    from .np_elem import e_cos
    return I.new(st, Arr(e_cos(t), ((n.p, None),), "float"))


def jnz_h(I, st, args, kw, node):
    o, n = as_arr(I, st, args[0], node), as_arr(I, st, args[1], node)
    if not isinstance(o, Num) or not isinstance(n, Num):
        return I.opaque_value("jn_zeros")
    if n.ty == "float" and n.p.const() is not None and n.p.const().denominator != 1:
        I.exc(st, "ValueError", None, node)
    # k-th positive zero, counted from one
    return I.new(st, Arr(P(Atom("app", "besselzero", (o.p,), (I0 + ONE,))), ((n.p, None),), "float"))


def elem_app(nm, k=1):
    def h(I, st, args, kw, node):
        xs = [as_arr(I, st, a, node) for a in args[:k]]
        if any(x is None for x in xs):
            return I.opaque_value(nm)
        return put(I, st, ew(I, st, nm, lambda *p: T.mk_app(nm, p), xs, node, ty="float"))
    return h


def jv_h(I, st, args, kw, node):
    o = as_arr(I, st, args[0], node)
    if isinstance(o, Num) and o.p.const() in (0, 1):
        return elem_app("j%d" % int(o.p.const()))(I, st, args[1:], kw, node)
    return elem_app("jv", 2)(I, st, args, kw, node)


def bessel_hook(nm):
    def h(args, ix):
        return None
    return h


def install(I):
    R = lambda names, h: N.reg(I, names, h)
    for lib in ("numpy.fft.", "scipy.fft.", "scipy.fftpack."):
        for nm in ("rfft", "irfft", "fft", "ifft", "hfft", "ihfft"):
            if lib == "scipy.fftpack." and nm in ("rfft", "irfft"):
                continue
            R(lib + nm, fft_h(nm))
        R(lib + "rfftfreq", freq_h(True))
        R(lib + "fftfreq", freq_h(False))
    T.APP_HOOKS["fft"] = fft_hook("fft", "ifft")
    T.APP_HOOKS["ifft"] = fft_hook("ifft", "fft")
    R("numpy.polynomial.chebyshev.chebpts2", chebpts2_h)
    R("scipy.special.jn_zeros", jnz_h)
    for nm in ("j0", "j1", "y0", "y1", "i0", "i1", "gamma", "erf"):
        R("scipy.special." + nm, elem_app(nm))
    R("scipy.special.jv scipy.special.jn", jv_h)
