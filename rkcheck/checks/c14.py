"""The stored trajectory pairs each time with its own state."""
from ..evolution import *
from ..report import pmap

RULES = {
    "paired": "times and states are stored together: as many of the one as of the other, each time with the state reached at that time",
    "selection": "what is stored is the initial pair and then exactly the pairs after every store_freq-th step, in order, starting afresh in every evolve",
    "off": "with storage off both lists stay empty",
    "neutral": "attempts, step sizes, result and outcome are the same for every storage option",
}
U0 = [1.0, 0.5, 2.0]


def check(R):
    for k, v in RULES.items():
        R.rule(k, v)
    R.assumptions += ["store_freq is a positive integer"]

    def one(R, name):
        E = Evolution(R, name)
        N = Evolution(R, name, store=False)
        if not (E.found and N.found):
            return R.unk("selection", name, "no loop over steps found", E.site)
        bad = set()
        n = 0
        deep = R.tier == "thorough"
        try:
            for cfg, t0, tf, h, f in cases(E, deep):
                n += 1
                compare(R, E, N, cfg, t0, tf, h, f, bad, deep)
        except Unknown as e:
            return R.unk("selection", name, "the transition is not evaluated: %s" % e, E.site)
        for k in RULES:
            if k not in bad:
                R.ok(k, name, "%d runs of the extracted transition" % n, E.site)
        E.C.close()
        N.C.close()
    pmap(R, one, list(ADAPTIVE) + list(CONSTANT))


def cases(E, deep):
    if E.C.adaptive:
        for cfg in configs(int(E.C.q))[: 2 if deep else 1]:
            for t0, tf, h in [(0.0, 1.0, 0.01), (0.0, 1.0, 0.3), (-1.0, 0.1, 2.0), (2.0, 3.0, 0.25), (-1.0, 0.0, 0.07), (1.0, 1.0, 0.1)] + intervals()[11:17 if deep else 13]:
                for pn, f in POLICIES.items():
                    yield cfg, t0, tf, h, f
            yield cfg, 0.0, 1.0, 0.0048, [0.9]
    else:
        for t0, tf, h in [(0.0, 1.0, 0.1), (0.0, 1.0, 0.3), (-1.0, 1.0, 0.25), (2.0, 3.0, 1.0), (0.0, 1.0, 0.0095), (0.0, 2.2, 0.01)]:
            yield {}, t0, tf, h, None


def fail(R, E, bad, rule, msg):
    if rule not in bad:
        bad.add(rule)
        R.viol(rule, E.name, msg, E.site)


def compare(R, E, N, cfg, t0, tf, h, f, bad, deep):
    q = int(E.C.q) if E.C.adaptive else None

    def run(X, freq):
        return follow(X, cfg, t0, tf, h, freq, policy(cfg, q, f or [0.0]))
    base = run(E, 1)
    where = "evolve from %r to %r with step %r" % (t0, tf, h)
    # states reached after each step, in order
    states = [U0]
    last = None
    for a in base.attempts:
        if last is not None and a[0] != last[0]:
            states.append(last[3])
        last = a
    if last is not None and base.end == "returned":
        states.append(last[3])
    if base.end != "returned" and not base.attempts:
        # a refused call stores at most the initial pair
        if len(base.t) != len(base.u) or len(base.t) > 1:
            fail(R, E, bad, "paired", "%s (%s): %d times and %d states stored" % (where, base.end, len(base.t), len(base.u)))
        return
    if len(base.t) != len(base.u):
        return fail(R, E, bad, "paired", "%s: %d times and %d states stored" % (where, len(base.t), len(base.u)))
    k = len(states)
    if base.t[:1] != [t0] or base.u[:1] != [U0]:
        fail(R, E, bad, "selection", "%s: the first stored pair is %s, %s" % (where, base.t[:1], base.u[:1]))
    if len(base.t) != k:
        return fail(R, E, bad, "selection", "%s with store_freq=1: %d pairs stored for %d steps" % (where, len(base.t), k - 1))
    for i in range(k):
        if base.u[i] != states[i]:
            return fail(R, E, bad, "paired", "%s: the state stored with time %r is %s, the state reached then is %s" % (where, base.t[i], base.u[i], states[i]))
    # the time of each state: what the steps before it add up to
    t = t0
    used = []
    for i, a in enumerate(base.attempts):
        if i + 1 == len(base.attempts) or base.attempts[i + 1][0] != a[0]:
            used.append(a[2])
    for i, x in enumerate(used[:k - 1]):
        t += x
        tol = 1e-9 * (abs(tf - t0) + abs(x)) + 1e-13 * max(abs(t0), abs(tf))
        if not abs(base.t[i + 1] - t) <= tol:
            return fail(R, E, bad, "paired", "%s: the state after step %d is stored with time %r, its steps add up to %r" % (where, i + 1, base.t[i + 1], t))
    for freq in (1, 2, 3, 5, 7, 100) if not deep else range(1, 13):
        tr = run(E, freq)
        same(R, E, base, tr, "%s: store_freq=%d" % (where, freq), bad)
        if len(tr.t) != len(tr.u):
            fail(R, E, bad, "paired", "%s, store_freq=%d: %d times and %d states stored" % (where, freq, len(tr.t), len(tr.u)))
            continue
        if tr.t != base.t[::freq] or tr.u != base.u[::freq]:
            wrong = next((i for i, (x, y) in enumerate(zip(tr.t, base.t[::freq])) if x != y), None)
            fail(R, E, bad, "selection", "%s, store_freq=%d: %d pairs stored instead of %d%s" % (
                where, freq, len(tr.t), len(base.t[::freq]), ", entry %d is at t=%r" % (wrong, tr.t[wrong]) if wrong is not None else ""))
    tr = run(N, 1)
    same(R, E, base, tr, "%s: storage off" % where, bad)
    if tr.t or tr.u:
        fail(R, E, bad, "off", "%s with storage off: %d times and %d states stored" % (where, len(tr.t), len(tr.u)))


def same(R, E, a, b, where, bad):
    if a.end != b.end or a.result != b.result or [x[:5] for x in a.attempts] != [x[:5] for x in b.attempts]:
        i = next((i for i, (x, y) in enumerate(zip(a.attempts, b.attempts)) if x[:5] != y[:5]), min(len(a.attempts), len(b.attempts)))
        fail(R, E, bad, "neutral", "%s: %s after %d attempts instead of %s after %d; first difference at attempt %d" % (where, b.end, len(b.attempts), a.end, len(a.attempts), i + 1))
