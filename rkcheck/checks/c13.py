"""Adaptive evolution moves strictly forward and ends at the final time."""
from ..evolution import *
from ..report import pmap

RULES = {
    "continues": "every attempt starts from the state accepted last (the initial state at first)",
    "sizes": "a step is first attempted with the suggested size, shortened only to end at the final time",
    "times": "the time after a step is the time before plus the accepted size, larger than before and never beyond the final time",
    "end": "evolve returns exactly when the final time is reached, with the state that belongs to it; an interval without extent makes no step",
    "advance": "a step too small to advance the time ends the evolution with MinimumStepReached",
}


def close(a, b, *scale):
    m = max([abs(a), abs(b)] + [abs(x) for x in scale])
    return abs(a - b) <= 4 * 2.3e-16 * m


def check(R):
    for k, v in RULES.items():
        R.rule(k, v)
    R.assumptions += ["a positive first step size", "the stages return arrays of the length of the state", "at most one rejection per step in the followed sequences"]

    def one(R, name):
        E = Evolution(R, name)
        if not E.found:
            return R.unk("end", name, "no loop over steps found", E.site)
        cfgs = configs(int(E.C.q))
        n = 0
        deep = R.tier == "thorough"
        bad = set()
        try:
            for t0, tf, h in intervals(deep):
                for pn, f in POLICIES.items():
                    if pn == "steady" and (tf - t0) / h > 400:
                        continue
                    for cfg in (cfgs if deep else cfgs[:2]):
                        n += 1
                        examine(R, E, cfg, t0, tf, h, pn, f, bad)
            # long runs: nothing depends on the number of steps made
            for h in (0.004, 0.0099):
                examine(R, E, cfgs[0], 0.0, 1.0, h, "steady", [0.9], bad)
                n += 1
            # minh stops failing attempts; it plays no part where the errors are small
            for t0, tf, h in intervals(deep)[1::1 if deep else 4]:
                for minh in (1.0, 0.05):
                    for pn in ("no error", "steady", "growing"):
                        if pn != "steady" or (tf - t0) / h <= 400:
                            n += 1
                            examine(R, E, dict(cfgs[n % 2], minh=minh), t0, tf, h, pn + ", minh=%r" % minh, POLICIES[pn], bad)
            for t0, tf in ((1.0, 1.0), (2.0, 1.0), (-1.0, -1.5)):
                empty(R, E, cfgs[0], t0, tf, bad)
            for t0, tf, h in ((1.0, 2.0, 1e-17), (-4.0, 7.0, 1e-18), (1e16, 2e16, 0.5)):
                stuck(R, E, cfgs[0], t0, tf, h, bad)
            D = Evolution(R, name, h=NONE)
            for t0, tf in ((0.0, 1.0), (-2.0, 5.0), (1.0, 1.5)):
                default(R, D, cfgs[0], t0, tf, bad)
        except Unknown as e:
            return R.unk("end", name, "the transition is not evaluated: %s" % e, E.site)
        for k in RULES:
            if k not in bad:
                R.ok(k, name, "%d runs of the extracted transition" % n, E.site)
        E.C.close()
    pmap(R, one, ADAPTIVE)


def fail(R, E, bad, rule, msg):
    if rule not in bad:
        bad.add(rule)
        R.viol(rule, E.name, msg, E.site)


def examine(R, E, cfg, t0, tf, h, pn, f, bad):
    q = int(E.C.q)
    tr = follow(E, cfg, t0, tf, h, 1, policy(cfg, q, f))
    where = "evolve from %r to %r with h_init=%r (%s)" % (t0, tf, h, pn)
    walk(R, E, tr, t0, tf, h, where, bad)


def walk(R, E, tr, t0, tf, h, where, bad):
    if tr.end == "MinimumStepReached" and tr.attempts and tr.t and tr.t[-1] + tr.attempts[-1][2] == tr.t[-1]:
        return
    if tr.end == "unfinished":
        # errors that shrink the steps for good: the end is not reached, with a correct scheme neither
        size = {}
        for a in tr.attempts:
            size[a[0]] = a[2]
        if t0 + sum(size.values()) < tf - 1e-9 * abs(tf - t0):
            return
    if tr.end != "returned":
        return fail(R, E, bad, "end", "%s: %s after %d steps" % (where, tr.end, tr.steps))
    t, u = t0, [1.0, 0.5, 2.0]
    sug = h
    last = -1
    done = 0
    pend = None
    for a in tr.attempts:
        step, uu, hh, x, e = a[:5]
        if step != last:
            if pend is not None:
                t = settle(R, E, tr, t, tf, pend, done, where, bad)
                u = pend[3]
                sug = pend[6] if len(pend) > 6 else None
            last, done = step, done + 1
            if sug is not None:
                rest = tf - t
                if not (close(hh, sug) and t + hh <= tf or close(hh, rest, t, tf) and t + sug >= tf - 4e-16 * max(abs(t), abs(tf))):
                    fail(R, E, bad, "sizes", "%s: step %d at t=%r is attempted with %r although %r was suggested and %r is left" % (where, done, t, hh, sug, rest))
        if uu != u:
            fail(R, E, bad, "continues", "%s: an attempt of step %d starts from %s, the state accepted last is %s" % (where, done, uu, u))
        pend = a
    if pend is not None:
        t = settle(R, E, tr, t, tf, pend, done, where, bad)
        u = pend[3]
    if len(tr.t) != done + 1:
        return fail(R, E, bad, "times", "%s: %d times stored for %d steps" % (where, len(tr.t), done))
    if tr.t[-1] != tf:
        fail(R, E, bad, "end", "%s ends at %r" % (where, tr.t[-1]))
    if tr.result != u:
        fail(R, E, bad, "end", "%s returns %s, the state at the end is %s" % (where, tr.result, u))


def settle(R, E, tr, t, tf, a, k, where, bad):
    """the time after the k-th step"""
    if k >= len(tr.t):
        return t
    new = tr.t[k]
    if not new > t:
        fail(R, E, bad, "times", "%s: the time does not increase in step %d (%r after %r)" % (where, k, new, t))
    if new > tf:
        fail(R, E, bad, "times", "%s: step %d passes the final time (%r)" % (where, k, new))
    if not close(new, t + a[2], t):
        fail(R, E, bad, "times", "%s: step %d of size %r leads from %r to %r" % (where, k, a[2], t, new))
    return new


def empty(R, E, cfg, t0, tf, bad):
    tr = follow(E, cfg, t0, tf, 0.1, 1, policy(cfg, int(E.C.q), [0.9]))
    if tr.attempts or tr.end == "returned" and tr.result != [1.0, 0.5, 2.0]:
        fail(R, E, bad, "end", "evolve from %r to %r makes %d attempts and returns %s" % (t0, tf, len(tr.attempts), tr.result))


def stuck(R, E, cfg, t0, tf, h, bad):
    tr = follow(E, cfg, t0, tf, h, 1, policy(cfg, int(E.C.q), [0.9]), 12)
    if tr.end != "MinimumStepReached":
        fail(R, E, bad, "advance", "evolve from %r to %r with h_init=%r, which never advances the time: %s after %d steps" % (t0, tf, h, tr.end, tr.steps))


def default(R, E, cfg, t0, tf, bad):
    tr = follow(E, cfg, t0, tf, None, 1, policy(cfg, int(E.C.q), [0.2]))
    if not tr.attempts:
        return fail(R, E, bad, "sizes", "evolve from %r to %r without h_init: %s without an attempt" % (t0, tf, tr.end))
    h = tr.attempts[0][2]
    if not 0 < h <= tf - t0:
        return fail(R, E, bad, "sizes", "evolve from %r to %r without h_init starts with %r" % (t0, tf, h))
    walk(R, E, tr, t0, tf, h, "evolve from %r to %r without h_init" % (t0, tf), bad)
