"""Taylor expansion of one step in the step size, for every linear operator L and every smooth nonlinear function N.

A vector is a formal sum of elementary differentials: rooted trees whose nodes are L (one child) or N (any number of
children, derivative of N).  Keys are (tree, power of h)."""
from __future__ import annotations
from fractions import Fraction
from itertools import combinations_with_replacement
from math import factorial
from .terms import *
from .terms import P
from . import terms as T
from .arrays import LAM

U = ()  # the initial value u0


def order(t):
    if t == U:
        return 0
    return 1 + (order(t[1]) if t[0] == "L" else sum(order(c) for c in t[1]))


def show(t):
    if t == U:
        return "u"
    if t[0] == "L":
        return "L" + show(t[1])
    return "N" + ("(%d)" % len(t[1]) if t[1] else "") + ("[%s]" % ",".join(show(c) for c in t[1]) if t[1] else "")


class NotExpandable(Exception):
    pass


def add(a, b, q=1):
    r = dict(a)
    for k, v in b.items():
        s = r.get(k, 0) + q * v
        if s:
            r[k] = s
        else:
            r.pop(k, None)
    return r


def scale(a, q, hp=0, lp=0, p=9):
    """q * h^hp * L^lp * a"""
    r = {}
    for (t, k), v in a.items():
        if k + hp > p:
            continue
        for _ in range(lp):
            t = ("L", t)
        r[(t, k + hp)] = r.get((t, k + hp), 0) + q * v
    return r


def nl(a, p):
    """N(a) where a = u0 + O(h)"""
    inc = {k: v for k, v in a.items() if k != (U, 0)}
    if a.get((U, 0)) != 1:
        raise NotExpandable("the nonlinear function is evaluated at a state that does not tend to u as h -> 0")
    if any(k[1] <= 0 for k in inc):
        raise NotExpandable("the nonlinear function is evaluated at a state that does not tend to u as h -> 0")
    keys = sorted(inc, key=repr)
    out = {}
    # prune: only keys with kp <= p
    keys = [k for k in keys if k[1] <= p]
    rec2(keys, inc, p, out)
    return {k: v for k, v in out.items() if v}


def rec2(keys, inc, p, out):
    """multisets of increments of total h-power <= p"""
    cur = {((), 0): Fraction(1)}
    for key in keys:
        t, kp = key
        nxt = dict()
        for (kids, hp), cf in cur.items():
            m = 0
            while hp + m * kp <= p:
                k = (kids + (t,) * m, hp + m * kp)
                nxt[k] = nxt.get(k, 0) + cf * inc[key] ** m / factorial(m)
                m += 1
        cur = nxt
    for (kids, hp), cf in cur.items():
        k = (("N", tuple(sorted(kids, key=repr))), hp)
        out[k] = out.get(k, 0) + cf


def exact(p, linear=True):
    """the exact flow"""
    E = {(U, 0): Fraction(1)}
    for _ in range(p):
        F = add(scale(E, 1, 0, 1, p), nl(E, p)) if linear else nl(E, p)
        E2 = {(U, 0): Fraction(1)}
        for (t, k), v in F.items():
            if k + 1 <= p:
                E2[(t, k + 1)] = E2.get((t, k + 1), 0) + v / (k + 1)
        E = E2
    return E


class Expander:
    def __init__(self, h, lam, u, p):
        self.h, self.lam, self.u, self.p = h, lam, u, p  # atoms
        self.cache = {}

    def vec(self, poly):
        """series of a vector content"""
        r = self.cache.get(poly)
        if r is not None:
            return r
        groups = {}
        for (pw, ex), cf in poly.t.items():
            v, hp, lp, q = None, 0, 0, Fraction(1)
            for a, e in pw:
                if a is self.h:
                    hp += e
                elif a is self.lam:
                    lp += e
                elif a is self.u or (a.kind == "app" and a.args[0] == "N"):
                    if v is not None or e != 1:
                        raise NotExpandable("a product of vectors: %s" % (a,))
                    v = a
                else:
                    raise NotExpandable("unexpected factor %s" % (repr(a)[:200],))
            g = groups.setdefault(v, {})
            g[(hp, lp, ex)] = g.get((hp, lp, ex), 0) + cf
        out = {}
        for v, g in groups.items():
            if v is None:
                raise NotExpandable("a term that is not proportional to u or N: %s" % (repr(poly)[:200],))
            base = {(U, 0): Fraction(1)} if v is self.u else self.nlatom(v)
            cs = self.coef(g)
            for (hp, lp), q in cs.items():
                if q == 0:
                    continue
                if lp < 0:
                    raise NotExpandable("coefficient of %s is singular at L = 0 (power %s of L, %s of h)" % (repr(v)[:120], lp, hp))
                if hp < 0:
                    raise NotExpandable("coefficient of %s is singular at h = 0" % (repr(v)[:120],))
                if hp > self.p:
                    continue
                out = add(out, scale(base, Fraction(q), hp, lp, self.p))
        self.cache[poly] = out
        return out

    def nlatom(self, a):
        return nl(self.vec(a.args[1][0].body), self.p)

    def coef(self, g):
        """expand the exponentials: {(hp, lp): rational}"""
        out = {}
        for (hp, lp, ex), cf in g.items():
            if not isinstance(cf, (int, Fraction)):
                raise NotExpandable("non-rational constant %r" % (cf,))
            if hp != int(hp) or lp != int(lp):
                raise NotExpandable("fractional power")
            hp, lp = int(hp), int(lp)
            if ex is None:
                k = (hp, lp)
                out[k] = out.get(k, 0) + cf
                continue
            # ex = c * lam * h
            if len(ex.t) != 1:
                raise NotExpandable("exponent %s" % (ex,))
            (pw, e2), c = next(iter(ex.t.items()))
            d = dict(pw)
            if e2 is not None or set(d) != {self.h, self.lam} or d[self.h] != 1 or d[self.lam] != 1 or not isinstance(c, (int, Fraction)):
                raise NotExpandable("exponent %s is not a rational multiple of h*L" % (ex,))
            top = self.p + 8
            for j in range(top + 1):
                if hp + j > self.p and lp + j >= 0:
                    break
                k = (hp + j, lp + j)
                out[k] = out.get(k, 0) + cf * Fraction(c) ** j / factorial(j)
        return out


def compare(A, E, p):
    """list of (tree, power, got, want) that differ up to h^p"""
    bad = []
    for k in sorted(set(A) | set(E), key=lambda k: (k[1], order(k[0]), repr(k))):
        if k[1] <= p and A.get(k, 0) != E.get(k, 0):
            bad.append((k[0], k[1], A.get(k, 0), E.get(k, 0)))
    return bad
