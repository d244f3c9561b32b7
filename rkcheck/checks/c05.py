"""Slow modes are never computed by the formula that cancels."""
from ..steps import *
from ..order import prove
from .c01 import cases, where
from .c03 import modes


def negative_powers(p, lam):
    """monomials that divide by the eigenvalue outside a contour average (arguments of N are separate vectors)"""
    out = []
    for (pw, ex), cf in p.t.items():
        for a, e in pw:
            if a is lam and e < 0:
                out.append(Poly({(pw, ex): cf}))
            elif a.kind == "base" and e < 0 and lam in a.deps:
                # a denominator such as (h*lam)^2 + ...: vanishes with lam?
                if T.subst(a.args[0], {lam: ZERO}) is ZERO:
                    out.append(Poly({(pw, ex): cf}))
            elif a.kind == "app" and a.args[0] in ("div0",):
                out.append(Poly({(pw, ex): cf}))
    return out


def vectors(content, seen):
    """the content and the arguments of N inside it"""
    todo = [content]
    while todo:
        c = todo.pop()
        if c in seen:
            continue
        seen.append(c)
        for a in c.deps:
            if a.kind == "app" and a.args[0] == "N":
                todo.append(a.args[1][0].body)


def top(p):
    """p with N-atoms replaced by plain symbols, so that only its own coefficients are inspected"""
    return T.subst(p, {a: P(T.sym("N#%d" % a.uid)) for a in p.deps if a.kind == "app" and a.args[0] == "N"})


def check(R):
    R.rule("no-division", "for every mode with |h lambda| below the cut-off no coefficient of the step divides by a power of lambda outside the contour average")
    R.rule("contour", "the averages used for those modes run over the configured number of points and use the configured radius")
    R.rule("all-modes", "every mode gets the same coefficient functions, whichever side of the cut-off it and the other modes are on")
    R.assumptions += ["modecutoff in (0,1], contour_points >= 2, contour_radius > 0"]
    for name, rep in forms(R):
        if name not in ETD or rep == "matrix":
            continue
        con = "%s[%s]" % (name, rep)
        S = first_step(R, name, rep)
        for what, a in (("solution", S.u), ("error", S.err)):
            if a is not None:
                alls(R, con + ":" + what, to_scalar(a.content), S)
        S = first_step(R, name, rep, collapse=False)
        seen = []
        vectors(S.u.content, seen)
        if S.err is not None:
            vectors(S.err.content, seen)
        slow = mk_cmp("lt", P(H) * T.absval(P(S.lam)), P(T.sym("modecutoff")))
        found = False
        for k, c in enumerate(seen):
            o = opaque_in(c)
            b = bad_in(c)
            if b is not None:
                R.viol("no-division", "%s:vector%d" % (con, k), b.args[0][4:], S.site)
                continue
            if o is not None:
                R.unk("no-division", "%s:vector%d" % (con, k), "not interpreted %r" % (o,), S.site)
                continue
            c = top(c)
            done = False
            for lits, x, part in cases(c):
                facts = list(S.state.path) + [l if v else mk_not(l) for l, v in lits]
                try:
                    if prove(facts, mk_not(slow)) or prove(facts + [slow], FALSE):
                        continue
                except Exception:
                    pass
                if any(T.inconsistent(((slow, True),), l, v) for l, v in lits):
                    continue
                neg = negative_powers(x, S.lam)
                if neg:
                    R.viol("no-division", con, "a mode with |h lambda| below the cut-off is computed with the term %s%s" % (repr(neg[0])[:300], where(lits)), S.site)
                    done = True
                    break
                for a in x.deps:
                    if a.kind == "app" and a.args[0] == "sum":
                        found = True
                        lam = a.args[1][0]
                        n = lam.axes[0][0] if lam.axes and isinstance(lam.axes[0], tuple) else None
                        if n is not P(T.sym("M")):
                            R.viol("contour", con, "the average runs over %r points, not over contour_points" % (n,), S.site)
                        elif T.sym("R") not in lam.deps:
                            R.viol("contour", con, "the average does not use contour_radius", S.site)
                        else:
                            R.ok("contour", con, "", S.site)
            if not done:
                R.ok("no-division", "%s:vector%d" % (con, k), "", S.site)
        if not found:
            R.viol("contour", con, "no contour average is used for slow modes", S.site)


def alls(R, con, c, S):
    cs = cases(c)
    if len(cs) == 1:
        o = opaque_in(c)
        if o is not None:
            R.unk("all-modes", con, repr(o), S.site)
        else:
            R.ok("all-modes", con, "one formula", S.site)
        return
    ref = None
    for lits, x, part in cs:
        if ref is None:
            ref = (lits, x)
        elif not T.equal(x, ref[1]):
            if opaque_in(x) or opaque_in(ref[1]):
                R.unk("all-modes", con, "not interpreted", S.site)
            else:
                R.viol("all-modes", con, "modes differ%s: %s versus%s: %s" % (where(ref[0]), repr(ref[1])[:500], where(lits), repr(x)[:500]), S.site)
            return
    if any(part for l, x, part in cs):
        R.unk("all-modes", con, "schemes that differ from mode to mode", S.site)
    else:
        R.ok("all-modes", con, "%d cases agree" % len(cs), S.site)
