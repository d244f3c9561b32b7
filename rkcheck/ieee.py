"""Evaluation of extracted terms in floating-point semantics: infinities, NaN and zero divisors behave as in numpy."""
from __future__ import annotations
import math
from .terms import *
from .terms import P, Atom
from .values import idx
from . import terms as T

NAN = float("nan")
INF = float("inf")


class Unknown(Exception):
    pass


def cabs(z):
    return math.hypot(z.real, z.imag) if isinstance(z, complex) else abs(z)


def mul(a, b):
    try:
        return a * b
    except OverflowError:
        return INF


def div(a, b):
    if b == 0:
        if isinstance(a, complex) or isinstance(b, complex):
            return complex(NAN, NAN) if a == 0 else complex(INF, NAN)
        if a == 0 or a != a:
            return NAN
        return math.copysign(INF, a) * math.copysign(1.0, b)
    try:
        return a / b
    except OverflowError:
        return INF


def fpow(x, e):
    """x ** e for a rational e"""
    if isinstance(x, complex) and x.imag == 0:
        x = x.real
    if isinstance(x, complex):
        if e.denominator == 1:
            n = int(e)
            r = 1.0
            for _ in range(abs(n)):
                r = mul(r, x)
            return r if n >= 0 else div(1.0, r)
        return x ** (e.numerator / e.denominator)
    x = float(x)
    if x != x:
        return NAN
    if x < 0 and e.denominator != 1:
        return NAN
    if x == 0:
        return 0.0 if e > 0 else INF
    try:
        return math.pow(x, e.numerator / e.denominator) if e.denominator != 1 else math.pow(x, int(e))
    except OverflowError:
        return INF


def mx(vs):
    if any(v != v for v in vs):
        return NAN
    return max(vs)


def mn(vs):
    if any(v != v for v in vs):
        return NAN
    return min(vs)


def root(s):
    return NAN if s != s else math.sqrt(s)


PREP = {}


class IEval:
    """env: symbol atom -> number; elems: element name -> list of numbers"""

    def __init__(self, env, elems):
        self.env, self.elems = env, elems
        self.memo = {}
        self.ix = {}

    def poly(self, p):
        if p in self.memo:
            return self.memo[p]
        r = PREP.get(p)
        if r is None:
            r = PREP[p] = (p if not any(a.kind == "idx" for a in p.deps) else None, [(m, c.numerator / c.denominator) for m, c in sorted(p.t.items(), key=lambda t: str(t[0]))])
        k, terms = r
        s = None
        for (pw, ex), x in terms:
            for a, e in pw:
                v = self.atom(a)
                if e < 0:
                    x = div(x, fpow(v, -e))
                else:
                    x = mul(x, fpow(v, e) if e != 1 else v)
            if ex is not None:
                v = self.poly(ex)
                x = mul(x, math.exp(v.real if isinstance(v, complex) else v))
            s = x if s is None else s + x
        if s is None:
            s = 0.0
        if k is not None:
            self.memo[k] = s
        return s

    def real(self, p):
        v = self.poly(p)
        return v.real if isinstance(v, complex) else v

    def atom(self, a):
        k, g = a.kind, a.args
        if k in ("sym", "idx"):
            if a in self.env:
                return self.env[a]
            raise Unknown(repr(a))
        if k == "const":
            n = g[0]
            if n == "I":
                return 1j
            if a is T.INF_:
                return INF
            if a is T.NAN_:
                return NAN
            if a is T.PI_:
                return math.pi
            raise Unknown(n)
        if k == "base":
            return self.poly(g[0])
        if k == "ite":
            return self.poly(g[1] if self.cond(g[0]) else g[2])
        if k == "elem":
            if g[0] in self.elems:
                return self.elems[g[0]][int(self.real(g[1][0]))]
            raise Unknown(g[0])
        if k == "app" and a in self.env:
            return self.env[a]
        if k == "app":
            return self.app(g[0], g[1], g[2] if len(g) > 2 else ())
        raise Unknown(k)

    def lam(self, x):
        """values of a vector, masked entries left out"""
        if len(x.axes) != 1:
            raise Unknown("shape")
        n, m = x.axes[0]
        n = int(self.real(n))
        out = []
        i0 = idx(0)
        old = self.env.get(i0)
        for i in range(n):
            self.env[i0] = float(i)
            if m is None or self.cond(m):
                out.append(self.cond(x.body) if isinstance(x.body, Cond) else self.poly(x.body))
        if old is None:
            self.env.pop(i0, None)
        else:
            self.env[i0] = old
        return out

    def app(self, n, args, ix):
        if n == "sum" and not isinstance(args[0], Lam):
            raise Unknown(n)
        if args and isinstance(args[0], Lam):
            v = self.lam(args[0])
            if n in ("norm", "norm0"):
                od = args[0].tag if n == "norm0" else None
                if od == "inf":
                    return mx([cabs(z) for z in v]) if v else 0.0
                if od == 1:
                    return sum(cabs(z) for z in v)
                if od not in (None, 2):
                    raise Unknown("norm of order %s" % od)
                s = 0.0
                for z in v:
                    s += mul(cabs(z), cabs(z))
                return root(s)
            if n in ("max", "npmax"):
                return mx([z.real if isinstance(z, complex) else z for z in v])
            if n in ("min", "npmin"):
                return mn([z.real if isinstance(z, complex) else z for z in v])
            if n == "sum":
                s = 0.0
                for z in v:
                    s = s + z
                return s
            if n == "mean":
                s = 0.0
                for z in v:
                    s = s + z
                return div(s, float(len(v)))
            if n == "count":
                return float(sum(1 for z in v if z))
            raise Unknown(n)
        if n == "fl":
            return self.rounded(args[0])
        v = [self.poly(x) for x in args if isinstance(x, Poly)]
        if len(v) != len(args):
            raise Unknown(n)
        if n == "abs":
            return cabs(v[0])
        if n == "conj":
            return v[0].conjugate() if isinstance(v[0], complex) else v[0]
        if n == "real":
            return v[0].real if isinstance(v[0], complex) else v[0]
        if n == "imag":
            return v[0].imag if isinstance(v[0], complex) else 0.0
        if n in ("npmax",):
            return mx(v)
        if n in ("npmin",):
            return mn(v)
        if n in ("max", "pymax"):
            r = v[0]
            for x in v[1:]:
                if x > r:
                    r = x
            return r
        if n in ("min", "pymin"):
            r = v[0]
            for x in v[1:]:
                if x < r:
                    r = x
            return r
        if n == "pow":
            e = v[1]
            return fpow(v[0], Fraction(e).limit_denominator(10 ** 6))
        if n == "div0":
            return div(v[0], 0.0) if v else INF
        if n == "fl":
            return v[0]
        if n == "floor":
            return float(math.floor(v[0])) if math.isfinite(v[0]) else v[0]
        if n == "ceil":
            return float(math.ceil(v[0])) if math.isfinite(v[0]) else v[0]
        if n == "trunc":
            return float(math.trunc(v[0])) if math.isfinite(v[0]) else v[0]
        if n == "round" and len(v) == 1:
            return float(round(v[0])) if math.isfinite(v[0]) else v[0]
        if n == "roundto" and len(v) == 2:
            return float(round(float(v[0]), int(v[1]))) if math.isfinite(v[0]) else v[0]
        if n == "sign":
            return v[0] if v[0] != v[0] else float((v[0] > 0) - (v[0] < 0))
        if n == "mod":
            return v[0] % v[1] if v[1] else NAN
        if n in T.BITS and all(float(x).is_integer() for x in v):
            return float(T.BITS[n](int(v[0]), int(v[1])))
        if n == "log":
            return math.log(v[0]) if v[0] > 0 else (-INF if v[0] == 0 else NAN)
        raise Unknown(n)

    def rounded(self, p):
        """one rounding of the exact result of one operation"""
        s = Fraction(0)
        for (pw, ex), c in p.t.items():
            if ex is not None:
                return self.poly(p)
            x = Fraction(c)
            for a, e in pw:
                v = self.atom(a)
                if not isinstance(v, (int, float)) or v != v or abs(v) == INF or e.denominator != 1 or v == 0 and e < 0:
                    return self.poly(p)
                x *= Fraction(v) ** int(e)
            s += x
        try:
            return float(s)
        except OverflowError:
            return INF if s > 0 else -INF

    def cond(self, c):
        k = c.kind
        if k == "T":
            return True
        if c in self.env:
            return self.env[c]
        if k == "F":
            return False
        if k == "not":
            return not self.cond(c.args[0])
        if k == "and":
            return all([self.cond(x) for x in c.args[0]])
        if k == "or":
            return any([self.cond(x) for x in c.args[0]])
        if k == "cmp":
            a, b = self.poly(c.args[1]), self.poly(c.args[2])
            if isinstance(a, complex) or isinstance(b, complex):
                if c.args[0] == "eq":
                    return a == b
                a, b = (z.real if isinstance(z, complex) else z for z in (a, b))
            return a < b if c.args[0] == "lt" else a <= b if c.args[0] == "le" else a == b
        if k == "app":
            n, g = c.args[0], c.args[1]
            x = g[0]
            if isinstance(x, Lam):
                v = self.lam(x)
                if n == "any":
                    return any(v)
                if n == "all":
                    return all(v)
            if isinstance(x, Poly):
                v = self.poly(x)
                if n == "isnan":
                    return v != v
                if n == "isinf":
                    return abs(v) == INF
                if n == "isfinite":
                    return v == v and abs(v) != INF
            raise Unknown(n)
        raise Unknown("condition %s" % k)
