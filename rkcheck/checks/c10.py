"""A step is accepted exactly when its error is within tolerance."""
from ..control import *
from ..evolution import Evolution, histories
from ..report import pmap

H0 = T.sym("h", real=True, pos=True)


KINDS = [("complex", "complex"), ("complex", "float"), ("float", "float")]


def fits(v, kind):
    return kind == "complex" or not any(isinstance(z, complex) for z in v)


def sequences(C, deep):
    for cfg, xs, es in plans(C, deep):
        if all(fits(x, C.kinds[0]) for x in xs) and all(fits(e, C.kinds[1]) for e in es):
            yield cfg, xs, es


def plans(C, deep):
    """(config, solutions, errors) of one and two attempts"""
    for cfg in configs(int(C.q), deep):
        firsts = []
        for x in XS:
            for e in errors(cfg, int(C.q), x):
                firsts.append((x, e))
        for x, e in firsts:
            yield cfg, [x], [e]
        rej = [(x, e) for x, e in firsts if not estimate(cfg, int(C.q), x, e)[0]]
        step = max(1, len(rej) // (24 if deep else 6))
        for x1, e1 in rej[::step]:
            for x, e in firsts[:: 3 if deep else 11]:
                yield cfg, [x1, x], [e1, e]
        # estimates next to the limit, after any number of rejected attempts
        for k in range(1, (DEEP if deep else ATTEMPTS) + 1):
            for x in XS[:3]:
                for e in errors(cfg, int(C.q), x, NEAR):
                    for x1, e1 in (rej[0], rej[len(rej) // 2]):
                        yield cfg, [x1] * (k - 1) + [x], [e1] * (k - 1) + [e]


NEAR = [1 - 1e-5, 1 - 1e-10, 1 + 1e-10, 1 + 1e-5]
ATTEMPTS = 4
DEEP = 7


def check(R):
    R.rule("accepts", "step() returns after the k-th attempt exactly when the documented estimate rejects the attempts before and accepts this one; NaN, infinite and zero estimates included")
    R.rule("returns", "what it returns is the solution of that attempt and the step size the attempt was made with")
    R.rule("histories", "the decision is the documented one in every step of an evolution, whatever the steps before were")
    R.assumptions += ["estimates whose squares neither overflow nor underflow"]

    def one(R, what):
        name, kinds = what
        later = kinds is None
        kinds = kinds or KINDS[0]
        C = Control(R, name, loops=ATTEMPTS + 3 if R.tier == "quick" else DEEP + 3, kinds=kinds, later=later)
        name0, name = name, name + ", configured after it was built" if later else name if kinds == KINDS[0] else "%s, %s state and %s error" % (name, *kinds)
        m = C.I.modules.get(MODS[name0])
        site = "%s %s.step" % (m.path, name0)
        if C.q is None:
            return R.unk("accepts", name, "the order of the error estimate is not a constant", site)
        runs = {}
        for k in range(1, (ATTEMPTS if R.tier == "quick" else DEEP) + 1):
            ok, rs = C.call("step", k, Num(P(H0)))
            runs[k] = ([(st, v) for st, v in ok if C.num(st) == k], [(st, e, w) for st, e, w in rs if C.num(st) == k])
            if not runs[k][0]:
                R.viol("accepts", "%s attempt %d" % (name, k), "is never accepted", site)
                return
            for st, v in runs[k][0]:
                returned(R, C, name, k, st, v, site)
        n = 0
        for cfg, xs, es in sequences(C, R.tier == "thorough"):
            k = len(xs)
            want = estimate(cfg, int(C.q), xs[-1], es[-1])[0]
            ev = env_of(C, cfg, 0.37, xs, es)
            try:
                got = any(holds(ev, numeric(st.path)) for st, v in runs[k][0])
                fail = next((C.names(st, e)[0] for st, e, w in runs[k][1] if holds(ev, numeric(st.path))), None)
            except Unknown as ex:
                return R.unk("accepts", name, "condition not evaluated: %s" % ex, site)
            n += 1
            if got != want or fail:
                return R.viol("accepts", name, "attempt %d with solution %s and error %s is %s; the documented decision for epsilon=%g safety_f=%g adapt_cutoff=%g is to %s" % (
                    k, xs[-1], es[-1], "ended by %s" % fail if fail else "accepted" if got else "rejected", cfg["epsilon"], cfg["safety_f"], cfg["adapt_cutoff"], "accept" if want else "reject"), site)
        R.ok("accepts", name, "%d estimates" % n, site)
        C.close()

    def later(R, name):
        E = Evolution(R, name)
        C, site = E.C, E.site
        if not E.found or C.q is None:
            return R.unk("histories", name, "the transition was not extracted", site)
        n = 0
        try:
            for what, cfg, at, tr in histories(E, configs(int(C.q))):
                for a, b in zip(at, at[1:] + [None]):
                    if b is None and not a[5] and tr.end == "unfinished":
                        continue
                    want = estimate(cfg, int(C.q), a[3], a[4])[0]
                    n += 1
                    if want != a[5]:
                        return R.viol("histories", name, "estimates %s: in step %d solution %s with error %s is %s (epsilon=%g safety_f=%g adapt_cutoff=%g)" % (
                            what, a[0] + 1, a[3], a[4], "accepted" if a[5] else "rejected", cfg["epsilon"], cfg["safety_f"], cfg["adapt_cutoff"]), site)
        except Unknown as ex:
            return R.unk("histories", name, "not evaluated: %s" % ex, site)
        R.verdict(True if n else None, "histories", name, "no attempts", site)
        C.close()
    pmap(R, lambda R, w: w[0](R, w[1]), [(later, name) for name in ADAPTIVE] + [(one, (name, kinds)) for kinds in KINDS + [None] for name in ADAPTIVE])


def returned(R, C, name, k, st, v, site):
    I = C.I
    v = I.pick(st, v)
    con = "%s attempt %d" % (name, k)
    if not isinstance(v, Tup) or len(v.items) != 3:
        return R.viol("returns", con, "step() does not return (state, step size, suggestion)", site)
    last = C.log(st)[-1].items
    a = as_arr(I, st, v.items[0])
    want = P(Atom("elem", "x.%d" % k, (IX,)))
    h = v.items[1]
    if not (isinstance(a, Arr) and T.equal(a.content, want, []) is True):
        return R.viol("returns", con, "the state returned is %s, not the solution of the accepted attempt" % (a.content if isinstance(a, Arr) else a,), site)
    if not (isinstance(h, Num) and isinstance(last[1], Num) and T.equal(h.p, last[1].p, []) is True):
        return R.viol("returns", con, "the step size returned is %s, the attempt was made with %s" % (h, last[1]), site)
    R.ok("returns", con, "", site)
