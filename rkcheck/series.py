"""Laurent series of normal forms in one atom, residues, and the contour-mean rule built on them."""
from fractions import Fraction
from .terms import *
from .terms import P, Poly, EMPTY, F0, F1, Atom, I_, PI_, power, exp, subst, rebuild


class NoSeries(Exception):
    pass


def s_add(a, b, s=1):
    d = dict(a)
    for k, v in b.items():
        w = d.get(k, ZERO) + v * s
        if w.t:
            d[k] = w
        else:
            d.pop(k, None)
    return d


def s_mul(a, b, hi):
    d = {}
    for k1, v1 in a.items():
        for k2, v2 in b.items():
            k = k1 + k2
            if k <= hi:
                w = d.get(k, ZERO) + v1 * v2
                d[k] = w
    return {k: v for k, v in d.items() if v.t}


def lowest(p, t):
    """a lower bound of the order of p in t (cheap)"""
    return None


def series(p, t, hi, depth=0):
    """coefficients of t^k for all k <= hi of the Laurent expansion of p at t=0"""
    if t not in p.deps:
        return {0: p} if p.t else {}
    if depth > 12:
        raise NoSeries("depth")
    out = {}
    for (pw, ex), c in p.t.items():
        out = s_add(out, mono_series(pw, ex, c, t, hi, depth))
    return {k: v for k, v in out.items() if k <= hi}


def mono_series(pw, ex, c, t, hi, depth):
    shift = F0
    const = Poly({EMPTY: c})
    facs = []
    for a, e in pw:
        if a is t:
            shift += e
        elif t not in a.deps:
            const = const * Poly({(((a, e),), None): F1})
        elif a.kind == "base":
            facs.append(("base", a.args[0], e))
        elif a.kind in ("app", "ite", "elem", "node"):
            raise NoSeries("atom %r" % (a,))
        else:
            raise NoSeries("atom %r" % (a,))
    if shift.denominator != 1:
        raise NoSeries("fractional power")
    if ex is not None:
        if t in ex.deps:
            facs.append(("exp", ex, None))
        else:
            const = const * exp(ex)
    # orders of the base factors
    lead = []
    tot = shift
    for kind, q, e in facs:
        if kind == "base":
            v = valuation(q, t, depth)
            lead.append(v)
            if (v * e).denominator != 1:
                raise NoSeries("branch point")
            tot += v * e
        else:
            lead.append(None)
    n = hi - tot  # number of extra orders needed
    if n < 0:
        return {}
    s = {int(shift): const}
    cur_hi = hi
    for (kind, q, e), v in zip(facs, lead):
        if kind == "base":
            f = base_series(q, e, v, t, n, depth)
        else:
            f = exp_series(q, t, n, depth)
        s = s_mul(s, f, hi)
    return s


def valuation(q, t, depth):
    for k in range(0, 14):
        s = series(q, t, k - 2, depth + 1)
        if s:
            return min(s)
    raise NoSeries("zero base")


def base_series(q, e, v, t, n, depth):
    """q^e = (c t^v)^e (1+x)^e up to n extra orders"""
    s = series(q, t, v + n, depth + 1)
    c = s[v]
    ci = power(c, -1)
    x = {k - v: w * ci for k, w in s.items() if k != v}
    out = {0: ONE}
    term = {0: ONE}
    co = F1
    j = 0
    while x and j < n + 1:
        co = co * (e - j) / (j + 1)
        j += 1
        if co == 0:
            break
        term = s_mul(term, x, n)
        if not term:
            break
        out = s_add(out, {k: w * co for k, w in term.items()})
    ce = power(c, e)
    return {int(k + v * e): w * ce for k, w in out.items()}


def exp_series(q, t, n, depth):
    s = series(q, t, n, depth + 1)
    if s and min(s) < 0:
        raise NoSeries("essential singularity")
    c0 = s.pop(0, ZERO)
    out = {0: ONE}
    term = {0: ONE}
    j = 0
    while s and j < n + 1:
        j += 1
        term = s_mul(term, {k: w * Fraction(1, j) for k, w in s.items()}, n)
        if not term:
            break
        out = s_add(out, term)
    e0 = exp(c0)
    return {k: w * e0 for k, w in out.items()}


# --------------------------------------------------------------------------------------------- contour means
class NotNode(Exception):
    pass


OMEGA = Atom("sym", "node.omega")


class Nodeify:
    """rewrite exp(2 pi i (b+delta)/n) as powers of omega"""

    def __init__(self, b, n):
        self.b, self.n, self.delta = b, n, None
        self.found = False
        self.unit = P(I_) * P(PI_) * power(n, -1)

    def __call__(self, p):
        if self.b not in p.deps:
            return p
        out = ZERO
        for (pw, ex), c in p.t.items():
            q = Poly({EMPTY: c})
            for a, e in pw:
                if self.b in a.deps:
                    if a is self.b:
                        raise NotNode("index outside exponential")
                    q = q * power(self.atom(a), e)
                else:
                    q = q * Poly({(((a, e),), None): F1})
            if ex is not None:
                q = q * self.ex(ex)
            out = out + q
        return out

    def atom(self, a):
        if a.kind == "base":
            return self(a.args[0])
        raise NotNode("atom %r" % (a,))

    def ex(self, ex):
        if self.b not in ex.deps:
            return exp(ex)
        linb, rest = ZERO, ZERO
        for (pw, e2), c in ex.t.items():
            m = Poly({(pw, e2): c})
            if any(a is self.b for a, _ in pw):
                linb = linb + m
            else:
                rest = rest + m
        if not linb.t:
            return exp(self(rest))
        m2 = linb * power(P(self.b) * self.unit, -1)
        k = m2.const()
        if k is None or (k / 2).denominator != 1:
            raise NotNode("not a full circle")
        k = k / 2
        self.found = True
        # constant phase
        u = self.unit.single()[1]
        c0 = rest.t.get(u)
        d = F0 if c0 is None else c0 / (2 * k)
        if self.delta is None:
            self.delta = d
        rest = rest - Poly({u: 2 * k * self.delta})
        return power(P(OMEGA), k) * exp(self(rest))


def contour_mean(body, b, n):
    """mean of body over the n equally spaced nodes, in the limit of exact quadrature: the sum of the residues of
    f(w)/w inside the circle.  None if the nodes are not a full circle or the residues cannot be computed."""
    nd = Nodeify(b, n)
    try:
        f = nd(body)
    except NotNode:
        return None
    if not nd.found:
        return None
    try:
        roots = set()
        collect_roots(f, roots)
        g = f * power(P(OMEGA), -1)
        res = series(f, OMEGA, 0).get(0, ZERO)
        t = Atom("sym", "node.t")
        for r in roots:
            if not r.t:
                continue
            s = series(subst(g, {OMEGA: r + P(t)}), t, -1)
            res = res + s.get(-1, ZERO)
        if OMEGA in res.deps or b in res.deps:
            return None
        return res
    except (NoSeries, OverflowError):
        return None


def collect_roots(f, roots):
    for (pw, ex), c in f.t.items():
        for a, e in pw:
            if a.kind == "base" and OMEGA in a.deps:
                if e.denominator != 1:
                    raise NoSeries("branch")
                s = series(a.args[0], OMEGA, 2)
                if not s or set(s) - {0, 1} or 1 not in s or OMEGA in s[1].deps:
                    raise NoSeries("non-linear denominator")
                if e < 0:
                    roots.add(-s.get(0, ZERO) * power(s[1], -1))
            elif a is not OMEGA and OMEGA in a.deps:
                raise NoSeries("atom")
