"""Constant-step evolution takes the right number of equal steps."""
from fractions import Fraction
from ..evolution import *
from ..report import pmap

RULES = {
    "size": "the scheme is applied with the given step size, every time",
    "times": "the time after the k-th step is t0 + k*h, correct to the last places for any k",
    "count": "an interval that is m steps long takes m steps; otherwise evolve stops at the first such time beyond the final time",
    "chain": "every step starts from the result of the step before; evolve returns the result of the last one",
    "refused": "a step larger than the interval is refused with ValueError before the scheme is used",
    "ends": "a step size that is zero, negative or not a number never makes evolve run on",
}
U0 = [1.0, 0.5, 2.0]


def check(R):
    for k, v in RULES.items():
        R.rule(k, v)
    R.assumptions += ["final times within a relative 1e-9 of a whole number of steps count as that number"]

    def one(R, name):
        E = Evolution(R, name)
        if not E.found:
            return R.unk("count", name, "no loop over steps found", E.site)
        bad = set()
        deep = R.tier == "thorough"
        n = 0
        try:
            for t0, tf, h, m in cases(deep):
                n += 1
                examine(R, E, t0, tf, h, m, bad)
            for t0, tf, h, m in long(deep):
                n += 1
                far(R, E, t0, tf, h, m, bad)
            for t0, tf, h in ((0.0, 1.0, 1.5), (0.0, 0.1, 0.11), (2.0, 3.0, 1.001), (-1.0, 1.0, 1e9), (-1.0, 1.0, INF), (0.0, 1.0, 1.0001), (1.0, 1.0, 0.1), (2.0, 1.0, 0.1), (0.0, 1e-9, 1e-3)):
                n += 1
                tr = run(E, t0, tf, h)
                if tr.end != "ValueError" or tr.attempts:
                    fail(R, E, bad, "refused", "evolve from %r to %r with step %r: %s after %d steps" % (t0, tf, h, tr.end, len(tr.attempts)))
            Z = Evolution(R, name, h=Num(P(T.sym("hz", real=True, nan=True))))
            hs = T.sym("hz", real=True, nan=True)
            for t0, tf in ((0.0, 1.0), (-2.0, -1.0), (1.0, 1.0), (2.0, 1.0)):
                for h in (0.0, -0.0, -0.1, -3.0, NAN, -INF):
                    n += 1
                    tr = run(Z, t0, tf, h, hs)
                    if tr.end in ("unfinished", "lost", "rejected"):
                        fail(R, E, bad, "ends", "evolve from %r to %r with step %r: %s after %d steps" % (t0, tf, h, tr.end, tr.steps))
            Z.C.close()
        except Unknown as e:
            return R.unk("count", name, "the transition is not evaluated: %s" % e, E.site)
        for k in RULES:
            if k not in bad:
                R.ok(k, name, "%d runs of the extracted transition" % n, E.site)
        E.C.close()
    pmap(R, one, list(CONSTANT))


def cases(deep):
    """(t0, tf, h, number of steps)"""
    for tf, h, m in ((1.0, 0.1, 10), (0.3, 0.1, 3), (1.0, 1.0, 1), (0.7, 0.1, 7), (0.6, 0.2, 3), (2.0, 0.05, 40), (1.0, 0.01, 100), (1.1, 0.1, 11), (1e-3, 1e-4, 10), (1e6, 1e5, 10), (1.0, 1e-3, 1000)):
        yield 0.0, tf, h, m
    for t0, tf, h, m in ((1.0, 2.0, 0.1, 10), (-1.0, 1.0, 0.1, 20), (-0.3, 0.0, 0.1, 3), (10.0, 13.0, 0.3, 10), (-5.0, -4.4, 0.2, 3), (0.1, 0.4, 0.1, 3)):
        yield t0, tf, h, m
    for h in (0.1, 0.3, 1 / 3, 0.7, 1e-5, 123.456):
        for m in range(1, 41) if not deep else range(1, 400):
            yield 0.0, m * h, h, m
    for h in (0.1, 0.3, 0.07):
        for m in (1, 2, 3, 7, 12, 29):
            for t0 in (-2.0, 0.5, 3.3):
                yield t0, t0 + m * h, h, m
    for tf, h, m in ((1.0, 0.3, 4), (1.0, 0.4, 3), (1.0, 0.999, 2), (1.0, 0.6, 2), (2.0, 0.99, 3), (1.0, 0.0095, 106), (10.0, 0.101, 100), (1.0001, 0.1, 11), (0.999, 0.1, 10), (1.05, 1.0, 2), (3.000001, 1.0, 4), (2.999999, 1.0, 3)):
        for t0 in (0.0, 7.0):
            yield t0, t0 + tf, h, m


def long(deep):
    for m in (10 ** 5, 123457, 10 ** 6) + ((10 ** 7,) if deep else ()):
        for h in (0.1, 0.01, 1e-3, 0.3):
            yield 0.0, m * h, h, m
            yield 0.0, (m - 0.5) * h, h, m
        yield 5.0, 5.0 + m * 0.1, 0.1, m


def run(E, t0, tf, h, sym=None, limit=1500, first=0):
    if sym is None:
        return follow(E, {}, t0, tf, h, 1, policy({}, None, [0.0]), limit, first)
    old = E.base_env
    E.base_env = lambda *a: {**old(*a), sym: h}
    try:
        return follow(E, {}, t0, tf, h, 1, policy({}, None, [0.0]), 60, first)
    finally:
        E.base_env = old


def fail(R, E, bad, rule, msg):
    if rule not in bad:
        bad.add(rule)
        R.viol(rule, E.name, msg, E.site)


def accurate(t, t0, k, h):
    exact = Fraction(t0) + k * Fraction(h)
    return abs(Fraction(t) - exact) <= 2 * Fraction(2.3e-16) * max(abs(exact), abs(Fraction(t0)), k * Fraction(h))


def examine(R, E, t0, tf, h, m, bad):
    where = "evolve from %r to %r with step %r" % (t0, tf, h)
    tr = run(E, t0, tf, h)
    if tr.end != "returned":
        return fail(R, E, bad, "refused" if tr.end == "ValueError" else "count", "%s: %s after %d steps" % (where, tr.end, tr.steps))
    if len(tr.attempts) != m:
        return fail(R, E, bad, "count", "%s takes %d steps instead of %d" % (where, len(tr.attempts), m))
    walk(R, E, tr, t0, h, 0, where, bad)


def walk(R, E, tr, t0, h, first, where, bad):
    u = U0
    for k, a in enumerate(tr.attempts):
        if a[2] != h:
            fail(R, E, bad, "size", "%s: step %d is made with %r" % (where, first + k + 1, a[2]))
        if a[1] != u:
            fail(R, E, bad, "chain", "%s: step %d starts from %s, the state reached is %s" % (where, first + k + 1, a[1], u))
        u = a[3]
    if tr.result != u:
        fail(R, E, bad, "chain", "%s returns %s, the last step gives %s" % (where, tr.result, u))
    if len(tr.t) != len(tr.attempts) + 1:
        fail(R, E, bad, "times", "%s: %d times stored for %d steps" % (where, len(tr.t), len(tr.attempts)))
    for k, t in enumerate(tr.t[1:]):
        if not accurate(t, t0, first + k + 1, h):
            fail(R, E, bad, "times", "%s: the time after step %d is %r" % (where, first + k + 1, t))
            break


def far(R, E, t0, tf, h, m, bad):
    """the last steps of a long run; directly when nothing but the count decides, from the start otherwise"""
    where = "evolve from %r to %r with step %r" % (t0, tf, h)
    if any(not isinstance(a, str) for r in E.runs.values() for a in r.into):
        m0 = 3000
        tf = t0 + m0 * h
        where = "evolve from %r to %r with step %r" % (t0, tf, h)
        tr = run(E, t0, tf, h, limit=3010)
        if tr.end != "returned" or len(tr.attempts) != m0:
            return fail(R, E, bad, "count", "%s: %s after %d steps instead of %d" % (where, tr.end, len(tr.attempts), m0))
        return walk(R, E, tr, t0, h, 0, where, bad)
    tr = run(E, t0, tf, h, limit=6, first=m - 3)
    if tr.end != "returned" or tr.steps != m:
        return fail(R, E, bad, "count", "%s: %s after %d steps instead of %d" % (where, tr.end, tr.steps, m))
    walk(R, E, tr, t0, h, m - 3, where, bad)
