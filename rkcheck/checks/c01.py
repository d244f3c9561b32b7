"""Order of accuracy."""
from ..steps import *
from .. import bseries as B


def check(R):
    R.rule("precision", "no value on the way is held in a type narrower than double precision")
    R.rule("order", "the Taylor expansion of one step in h (bicoloured rooted trees: L and N nodes) equals the exact flow through h^p")
    R.rule("basis", "the solution is returned in the basis of the state that was passed in")
    R.assumptions += ["N is smooth; L is fixed during the step", "contour averages are replaced by the Cauchy integral they approximate"]
    E = {}
    for name, rep in forms(R):
        S = first_step(R, name, rep)
        p = ORDER[name]
        con = "%s[%s]" % (name, rep)
        if not space_ok(R, "basis", con, S.u, rep, S.site):
            continue
        R.ok("basis", con, "", S.site)
        order_of(R, "order", con, S, S.u.content, p, E)


def order_of(R, rule, con, S, content, p, E):
    b = bad_in(content)
    if b is not None:
        R.viol(rule, con, b.args[0][4:], S.site)
        return
    o = opaque_in(content)
    if o is not None:
        R.unk(rule, con, "not interpreted: %s" % (repr(o)[:300],), S.site)
        return
    for lits, c, part in cases(content):
        try:
            A = B.Expander(H, S.lam, UV.atom(), p).vec(c)
        except B.NotExpandable as e:
            R.viol(rule, con, "%s%s" % (e, where(lits)), S.site)
            continue
        if p not in E:
            E[p] = B.exact(p)
        d = B.compare(A, E[p], p)
        if d:
            t, k, g, w = d[0]
            import hashlib
            dig = hashlib.sha256(";".join("%d:%s=%s" % (k, B.show(t), g) for t, k, g, w in d).encode()).hexdigest()[:12]
            R.viol(rule, "%s:%d-coefficients-from-h^%d:%s" % (con, len(d), d[0][1], dig), "the coefficient of h^%d %s is %s, the exact flow has %s; %d of the coefficients through h^%d differ%s" % (k, B.show(t), g, w, len(d), p, where(lits)), S.site)
        elif part:
            R.unk(rule, con, "schemes that differ from mode to mode%s" % where(lits), S.site)
        else:
            R.ok(rule, con, "%d elementary differentials through h^%d agree%s" % (len(E[p]), p, where(lits)), S.site)


def where(lits):
    return "" if not lits else " when " + ", ".join(("" if v else "not ") + repr(l) for l, v in lits)


def cases(c, limit=64):
    """split a content on the conditions inside it; (literals, content, whether only the cases with all modes alike are covered)"""
    todo = [((), c, False)]
    out = []
    while todo:
        lits, x, part = todo.pop()
        ls = sorted(T.conds_in(x), key=lambda l: l in [k for k, v in lits])
        if not ls:
            out.append((lits, x, part))
            continue
        l = ls[0]
        if len(lits) > 6 or len(out) > limit:
            raise Undecided("too many cases")
        if any(l == k for k, v in lits):
            # the same literal about the other components
            val = next(v for k, v in lits if k == l)
            todo.append((lits, T.assume(x, l, val, True), True))
            if l in T.conds_in(todo[-1][1]):
                raise Undecided("a condition that is not decided by its case: %r" % (l,))
            continue
        for v in (True, False):
            todo.append((lits + ((l, v),), T.assume(x, l, v), part))
    return out
