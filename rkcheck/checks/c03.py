"""Independence of the operator form."""
from ..steps import *


def check(R):
    R.rule("precision", "no value on the way is held in a type narrower than double precision")
    R.rule("same-step", "the step of the full-matrix and of the diagonalised form is the same function of L, h, u and N as the step of the vector form")
    R.rule("same-error", "the same for the error estimate")
    R.rule("basis", "solution and error estimate are returned in the basis of the state")
    R.rule("same-modes", "in the vector form, slow and fast modes get the same coefficient functions")
    R.rule("accepts", "every documented operator form can be constructed")
    R.assumptions += ["L is diagonalizable where diagonalisation is requested", "contour averages are replaced by the Cauchy integral they approximate",
                      "a full matrix that is a function of L acts like that function (functions of one matrix commute)"]
    ref = {}
    for name, rep in forms(R):
        con = "%s[%s]" % (name, rep)
        S = first_step(R, name, rep)
        for what, a in (("same-step", S.u), ("same-error", S.err)):
            if a is None:
                continue
            if not space_ok(R, "basis", con + ":" + what[5:], a, rep, S.site):
                continue
            R.ok("basis", con + ":" + what[5:], "", S.site)
            c = to_scalar(a.content)
            if rep == "diagonal":
                ref[name, what] = c
                modes(R, con + ":" + what[5:], c, S)
            elif (name, what) in ref:
                judge(R, what, con, c, ref[name, what], S.site, "the %s form gives a different %s than the vector form" % (rep, "solution" if what == "same-step" else "error estimate"))


def modes(R, con, c, S):
    """the vector form must not depend on which side of the cut-off a mode is"""
    from .c01 import cases, where
    cs = cases(c)
    if len(cs) == 1:
        R.ok("same-modes", con, "one formula for all modes", S.site)
        return
    live = [(l, x) for l, x, part in cs]
    for lits, x in live[1:]:
        if not T.equal(x, live[0][1]):
            if opaque_in(x) or opaque_in(live[0][1]):
                R.unk("same-modes", con, "not interpreted", S.site)
            else:
                R.viol("same-modes", con, "modes differ%s: %s  versus%s: %s" % (where(live[0][0]), repr(live[0][1])[:600], where(lits), repr(x)[:600]), S.site)
            return
    if any(part for l, x, part in cs):
        R.unk("same-modes", con, "schemes that differ from mode to mode", S.site)
    else:
        R.ok("same-modes", con, "%d cases agree" % len(live), S.site)
