"""Exact derivatives of terms."""
from .terms import *
from .terms import P, Fraction
from . import terms as T


class NoDerivative(Exception):
    pass


def diff(p, x, memo=None):
    """derivative of a term with respect to the symbol x"""
    memo = {} if memo is None else memo
    p = P(p)
    if x not in p.deps:
        return ZERO
    r = memo.get(p)
    if r is not None:
        return r
    out = ZERO
    for (pw, ex), c in p.t.items():
        for i, (a, e) in enumerate(pw):
            if x not in a.deps and a is not x:
                continue
            rest = P(c)
            for j, (b, f) in enumerate(pw):
                rest = rest * T.power(P(b), f if j != i else f - 1)
            if ex is not None:
                rest = rest * T.exp(ex)
            out = out + rest * P(Fraction(e)) * diff_atom(a, x, memo)
        if ex is not None and x in ex.deps:
            t = P(c)
            for b, f in pw:
                t = t * T.power(P(b), f)
            out = out + t * T.exp(ex) * diff(ex, x, memo)
    memo[p] = out
    return out


def diff_atom(a, x, memo):
    if a is x:
        return ONE
    if x not in a.deps:
        return ZERO
    k, g = a.kind, a.args
    if k == "base":
        return diff(g[0], x, memo)
    if k == "ite":
        if x in g[0].deps:
            raise NoDerivative("the formula changes with %s" % x)
        return T.ite(g[0], diff(g[1], x, memo), diff(g[2], x, memo))
    if k == "app":
        n, args = g[0], g[1]
        if n == "log":
            return diff(args[0], x, memo) / args[0]
        if n == "pow" and x not in args[1].deps:
            return args[1] * P(Atom("app", "pow", (args[0], args[1] - 1))) * diff(args[0], x, memo)
    raise NoDerivative("%s is not differentiable symbolically" % (a,))
