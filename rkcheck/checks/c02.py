"""The error estimate."""
from ..steps import *
from .. import bseries as B
from .c01 import cases, where

Q = {"ETD34": 4, "IF34": 4, "ETD35": 4, "IF45DP": 5}


def check(R):
    R.rule("documented-gap", "the error estimate equals (up to sign) the difference between the solution and the documented embedded solution, as a term in the evaluated stages")
    R.rule("basis", "the error estimate is returned in the basis of the state")
    R.rule("vanishing", "the Taylor expansion of the error estimate vanishes below h^q and not at h^q")
    R.rule("controller-exponent", "the exponent used by the controller is 1/q for that q")
    R.assumptions += ["N is smooth", "contour averages are replaced by the Cauchy integral they approximate"]
    for name, rep in forms(R):
        if name not in ADAPTIVE:
            continue
        S = first_step(R, name, rep)
        con = "%s[%s]" % (name, rep)
        if not space_ok(R, "basis", con, S.err, rep, S.site):
            continue
        R.ok("basis", con, "", S.site)
        q = quotient(R, S, name, con)
        c = S.err.content
        b, o = bad_in(c), opaque_in(c)
        if b is not None:
            R.viol("documented-gap", con, b.args[0][4:], S.site)
            continue
        ref = err_reference(name, rep, S.nls, S.u.content)
        if ref is None:
            R.viol("documented-gap", con, "only %d evaluations of the nonlinear function in a step" % len(S.nls), S.site)
        elif T.equal(c, ref) or T.equal(-c, ref):
            R.ok("documented-gap", con, "", S.site)
        elif o is not None:
            R.unk("documented-gap", con, "not interpreted: %r" % (o,), S.site)
        else:
            judge(R, "documented-gap", con, c, ref, S.site, "the error estimate is not the gap to the embedded solution")
        if o is not None:
            R.unk("vanishing", con, "not interpreted: %r" % (o,), S.site)
            continue
        qq = Q[name] if q is None else q
        for lits, x, part in cases(c):
            try:
                A = B.Expander(H, S.lam, UV.atom(), qq).vec(x)
            except B.NotExpandable as e:
                R.viol("vanishing", con, "%s%s" % (e, where(lits)), S.site)
                continue
            low = sorted((k, t) for (t, k) in A if k < qq)
            if low:
                R.viol("vanishing", con, "the error estimate has a term h^%d %s although the controller uses q = %d%s" % (low[0][0], B.show(low[0][1]), qq, where(lits)), S.site)
            elif not any(k == qq for (t, k) in A):
                R.viol("vanishing", con, "the error estimate has no term h^%d although the controller uses q = %d%s" % (qq, qq, where(lits)), S.site)
            elif part:
                R.unk("vanishing", con, "schemes that differ from mode to mode%s" % where(lits), S.site)
            else:
                R.ok("vanishing", con, "%d terms of order h^%d%s" % (sum(1 for (t, k) in A if k == qq), qq, where(lits)), S.site)


def quotient(R, S, name, con):
    I = S.p.I
    ok, rs = S.p.call(S.state, S.obj, "_q")
    if len(ok) != 1 or not isinstance(ok[0][1], Num) or ok[0][1].p.const() is None:
        R.unk("controller-exponent", con, "_q is not a constant: %r" % (ok[0][1] if ok else None,), S.site)
        return None
    q = ok[0][1].p.const()
    R.verdict(q == Q[name], "controller-exponent", con, "_q() returns %s, the embedded solution has q = %d" % (q, Q[name]), S.site)
    return int(q) if q == int(q) else None
