"""Step-size changes stay within the configured bounds."""
from ..control import *
from ..report import pmap
from ..evolution import Evolution, histories
from .c10 import sequences, H0

TOL = 1e-9


def check(R):
    R.rule("growth", "after acceptance the suggested step is the accepted one or larger by a factor in [incr_f, MAX_S]")
    R.rule("shrink", "after rejection the next attempt is smaller by a factor in [min(MIN_S, decr_f), decr_f]; a NaN or infinite estimate shrinks by MIN_S")
    R.rule("histories", "the same bounds hold in every step of an evolution, whatever the steps before were")
    R.assumptions += ["decr_f in (0,1)"]

    def one(R, name):
        C = Control(R, name, loops=5)
        site = "%s %s.step" % (C.I.modules[MODS[name]].path, name)
        if None in (C.q, C.maxs, C.mins):
            return R.unk("growth", name, "MAX_S, MIN_S or the order of the estimate is not constant", site)
        acc = accepted(C, 1)
        two = accepted(C, 2)
        grow = shrink = 0
        lo, hi = float(C.mins), float(C.maxs)
        cfg = None
        try:
            for cfg, xs, es in sequences(C, R.tier == "thorough"):
                if len(xs) == 1 and estimate(cfg, int(C.q), xs[0], es[0])[0]:
                    ev = env_of(C, cfg, 0.37, xs, es)
                    for st, v in acc:
                        if not holds(ev, numeric(st.path)):
                            continue
                        r = ev.real(v.items[2].p) / ev.real(v.items[1].p)
                        grow += 1
                        if not (abs(r - 1) < TOL or cfg["incr_f"] * (1 - TOL) <= r <= hi * (1 + TOL)):
                            return R.viol("growth", name, "after solution %s with error %s the suggestion is %.6g times the accepted step (incr_f=%g, MAX_S=%g)" % (xs[0], es[0], r, cfg["incr_f"], hi), site)
                elif len(xs) == 1:
                    # the next attempt after this rejection: make it exact, hence accepted
                    ev = env_of(C, cfg, 0.37, xs + [[1.0, 2.0, 3.0]], es + [[0.0, 0.0, 0.0]])
                    s = estimate(cfg, int(C.q), xs[0], es[0])[1]
                    for st, v in two:
                        if not holds(ev, numeric(st.path)):
                            continue
                        h1, h2 = (ev.real(x.items[1].p) for x in C.log(st)[-2:])
                        r = h2 / h1
                        shrink += 1
                        d = cfg["decr_f"]
                        if s is None:
                            good = abs(r - lo) < TOL
                        elif s == 0.0:
                            good = abs(r - lo) < TOL or abs(r - min(lo, d)) < TOL
                        else:
                            good = min(lo, d) * (1 - TOL) <= r <= d * (1 + TOL)
                        if not good:
                            return R.viol("shrink", name, "after solution %s with error %s the next attempt is %.6g times as long (decr_f=%g, MIN_S=%g)" % (xs[0], es[0], r, d, lo), site)
        except Unknown as ex:
            return R.unk("shrink", name, "not evaluated: %s" % ex, site)
        if not grow or not shrink:
            return R.unk("growth", name, "no outcome matched the estimates", site)
        R.ok("growth", name, "%d accepted estimates" % grow, site)
        R.ok("shrink", name, "%d rejected estimates" % shrink, site)
        C.close()

    def later(R, name):
        E = Evolution(R, name)
        C, site = E.C, E.site
        if not E.found or None in (C.q, C.maxs, C.mins):
            return R.unk("histories", name, "the transition was not extracted", site)
        lo, hi = float(C.mins), float(C.maxs)
        n = 0
        try:
            for what, cfg, at, tr in histories(E, configs(int(C.q))):
                d = cfg["decr_f"]
                for a, b in zip(at, at[1:] + [None]):
                    if a[5]:
                        r = a[6] / a[2]
                        n += 1
                        if not (abs(r - 1) < TOL or cfg["incr_f"] * (1 - TOL) <= r <= hi * (1 + TOL)):
                            return R.viol("histories", name, "estimates %s: in step %d the suggestion is %.6g times the accepted step (incr_f=%g, MAX_S=%g)" % (what, a[0] + 1, r, cfg["incr_f"], hi), site)
                    elif b is not None and b[0] == a[0]:
                        r = b[2] / a[2]
                        n += 1
                        if not (min(lo, d) * (1 - TOL) <= r <= max(d, lo if estimate(cfg, int(C.q), a[3], a[4])[1] in (None, 0.0) else d) * (1 + TOL)):
                            return R.viol("histories", name, "estimates %s: in step %d the attempt after a rejection is %.6g times as long (decr_f=%g, MIN_S=%g)" % (what, a[0] + 1, r, d, lo), site)
        except Unknown as ex:
            return R.unk("histories", name, "not evaluated: %s" % ex, site)
        R.verdict(True if n else None, "histories", name, "no attempts", site)
        C.close()
    pmap(R, lambda R, w: w[0](R, w[1]), [(f, name) for f in (later, one) for name in ADAPTIVE])


def accepted(C, k):
    ok, rs = C.call("step", k, Num(P(H0)))
    out = []
    for st, v in ok:
        v = C.I.pick(st, v)
        if C.num(st) != k:
            continue
        if not isinstance(v, Tup) or len(v.items) != 3 or not all(isinstance(x, Num) for x in v.items[1:]):
            raise Undecided("step() does not return (state, number, number)")
        if not all(isinstance(x.items[1], Num) for x in C.log(st)):
            raise Undecided("step size of an attempt is not a number")
        out.append((st, v))
    return out
