"""Exactness on linear problems and for a constant nonlinear term."""
from ..steps import *
from ..report import pmap


def zero_model(I, st, x):
    return ZERO


CV = P(Atom("elem", "c", (IX,)))


def const_model(I, st, x):
    return CV


def check(R):
    R.rule("precision", "no value on the way is held in a type narrower than double precision")
    R.rule("linear", "with N = 0 one step multiplies the state by exp(hL)")
    R.rule("linear-error", "with N = 0 the error estimate is zero")
    R.rule("constant", "with N = c one step of an ETD scheme is exp(hL) u + L^-1 (exp(hL) - 1) c")
    R.rule("constant-error", "with N = c the error estimate of an ETD scheme is zero")
    R.rule("zero-error-accepted", "an attempt whose error estimate is zero (and whose solution is finite) is accepted at once, the zero state included")
    R.rule("basis", "solution and error estimate are returned in the basis of the state")
    R.assumptions += ["contour averages are replaced by the Cauchy integral they approximate"]
    for name, rep in forms(R):
        con = "%s[%s]" % (name, rep)
        todo = [("linear", zero_model)] + ([("constant", const_model)] if name in ETD else [])
        for rule, model in todo:
            S = first_step(R, name, rep, nl_model=model)
            lam = P(S.lam)
            E = T.exp(lam * P(H))
            want = E * UV + (ZERO if rule == "linear" else (E - 1) * T.power(lam, -1) * CV)
            if not space_ok(R, "basis", con, S.u, rep, S.site):
                continue
            R.ok("basis", con, "", S.site)
            judge(R, rule, con, S.u.content, want, S.site, "the step is not exact")
            if S.err is not None:
                judge(R, rule + "-error", con, S.err.content, ZERO, S.site, "the error estimate is not zero")
    pmap(R, controller, ADAPTIVE)


def controller(R, name):
    """what follows an exact step"""
    from ..control import Control, XS, configs, env_of, holds, numeric, Unknown
    C = Control(R, name, loops=5)
    site = "%s %s.step" % (C.I.modules[MODS[name]].path, name)
    if C.q is None:
        return R.unk("zero-error-accepted", name, "the order of the error estimate is not a constant", site)
    ok, rs = C.call("step", 1, Num(P(H)))
    n = 0
    xs = [x for x in XS if all(z == z and abs(z) != float("inf") for z in x)] + [[0.0, 0.0, 0.0], [1e-200, 0.0, 0.0], [1.0, 1e-8, 1e-12], [2j, 1 - 1j, -3.0]]
    for cfg in configs(int(C.q), True):
        for x in xs:
            ev = env_of(C, cfg, 0.37, [x], [[0.0, 0.0, 0.0]])
            try:
                good = any(C.num(st) == 1 and holds(ev, numeric(st.path)) for st, v in ok)
            except Unknown as e:
                return R.unk("zero-error-accepted", name, "condition not evaluated: %s" % e, site)
            n += 1
            if not good:
                return R.viol("zero-error-accepted", name, "an attempt with solution %s and error zero is rejected" % (x,), site)
    R.ok("zero-error-accepted", name, "%d solutions" % n, site)
    C.close()
