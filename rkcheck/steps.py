"""First step of every solver on every operator form, as a term in u, h, L and the user's N."""
from __future__ import annotations
from .kit import *
from .kit import Problem
from .terms import *
from .terms import P
from . import terms as T
from .values import *
from .arrays import as_arr, LAM
from fractions import Fraction

H = T.sym("h", real=True, pos=True)
ORDER = {"ETD4": 4, "IF4": 4, "ETD34": 4, "IF34": 4, "ETD5": 5, "ETD35": 5, "IF45DP": 5}
ETD = ["ETD4", "ETD5", "ETD34", "ETD35"]
LAMV = P(Atom("elem", "lam", (IX,)))
UV = P(Atom("elem", "u", (IX,)))


class Step:
    pass


def forms(R):
    """(solver, operator form) pairs the solvers accept"""
    out = []
    for name in SOLVERS:
        for rep in REPS:
            if rep == "diagonalized" and name in CONSTANT + ["IF45DP"]:
                continue
            if rep == "matrix" and name == "IF45DP":
                continue
            out.append((name, rep))
    return out


def first_step(R, name, rep, h=None, collapse=True, nl_model=None):
    p = Problem(R, name, rep, collapse=collapse)
    p.I.nl_model = nl_model
    st, c = p.etd_config(p.st)
    st, o = p.make(st, **({"etd_config": c} if c is not None else {}))
    u = p.vec(st)
    hv = Num(P(H)) if h is None else h
    n0 = len(p.I.events)
    ok, rs = p.call(st, o, "_update_stages", u, hv)
    if not ok:
        raise Undecided("%s._update_stages has no normal outcome (%s)" % (name, [w for _, _, w in rs][:2]))
    s, v = ok[0]
    S = Step()
    S.p, S.state, S.obj, S.raised = p, s, o, rs
    adaptive = name in ADAPTIVE
    if adaptive:
        if not isinstance(v, Tup) or len(v.items) != 2:
            raise Undecided("%s._update_stages does not return (solution, error)" % name)
        S.u, S.err = as_arr(p.I, s, v.items[0]), as_arr(p.I, s, v.items[1])
        vals = v.items
    else:
        S.u, S.err = as_arr(p.I, s, v), None
        vals = (v,)
    for x in vals:
        if as_arr(p.I, s, x) is None:
            raise Undecided("%s._update_stages returns a value that is not interpreted: %r" % (name, x))
    S.nls = []
    for e in p.I.events[n0:]:
        if e["kind"] == "nl" and e["arr"].content not in S.nls:
            S.nls.append(e["arr"].content)
    S.where = ""
    m = p.I.modules.get(MODS[name])
    S.site = "%s %s._update_stages" % (m.path if m else "?", name)
    S.lam = LAMV.atom() if rep == "diagonal" else LAM
    p.R.absorb(p.I)
    return S


def to_scalar(c):
    """name the eigenvalue the same way in all operator forms"""
    return T.subst(c, {LAMV.atom(): P(LAM)})


def opaque_in(c):
    for a in T.deps(c):
        if a.kind == "app" and isinstance(a.args[0], str) and a.args[0].startswith("opq:"):
            return a
    return None


def bad_in(c):
    for a in T.deps(c):
        if a.kind == "app" and isinstance(a.args[0], str) and a.args[0].startswith("bad:"):
            return a
    return None


def judge(R, rule, construct, got, want, site, what):
    """compare two contents; obligations ok / violation / undecided"""
    b = bad_in(got)
    if b is not None:
        R.viol(rule, construct, "%s: %s" % (what, b.args[0][4:]), site)
        return False
    o = opaque_in(got)
    if T.equal(got, want):
        R.ok(rule, construct, "", site)
        return True
    if o is not None:
        R.unk(rule, construct, "not interpreted: %s" % (repr(o)[:200],), site)
        return None
    d = got - want
    R.viol(rule, construct, "%s\n got:  %s\n want: %s\n difference: %s" % (what, repr(got)[:1200], repr(want)[:1200], repr(d)[:800]), site)
    return False


def space_ok(R, rule, construct, a, rep, site):
    if not isinstance(a, Arr):
        R.viol(rule, construct, "the result is not an array but %r" % (a,), site)
        return False
    if len(a.axes) != 1:
        R.viol(rule, construct, "the result has %d dimensions" % len(a.axes), site)
        return False
    if rep != "diagonal" and a.space == "eig":
        R.viol(rule, construct, "the result is expressed in the eigenbasis, not in the basis of u", site)
        return False
    return True


# ------------------------------------------------------------------------------------------ reference formulas
def phis(c, h, lam):
    """psi1, psi2, psi3 of c*h*lam as documented"""
    z = lam * h * P(Fraction(c))
    E = T.exp(z)
    i = T.power(z, -1)
    return (E - 1) * i, 2 * (E - 1 - z) * i * i, 6 * (E - 1 - z - z * z * P(Fraction(1, 2))) * i * i * i


def lawson(tab, cs, h, lam, u, nl):
    """stages and N-values of an integrating-factor method with tableau rows tab and nodes cs"""
    Ns, ys = [], []
    for i, row in enumerate(tab):
        y = T.exp(lam * h * P(cs[i])) * u
        for j, a in enumerate(row):
            if a:
                y = y + h * P(a) * T.exp(lam * h * P(cs[i] - cs[j])) * Ns[j]
        ys.append(y)
        Ns.append(nl(y))
    return ys, Ns


F = Fraction
DP_C = [F(0), F(1, 5), F(3, 10), F(4, 5), F(8, 9), F(1), F(1)]
DP_A = [[], [F(1, 5)], [F(3, 40), F(9, 40)], [F(44, 45), F(-56, 15), F(32, 9)],
        [F(19372, 6561), F(-25360, 2187), F(64448, 6561), F(-212, 729)],
        [F(9017, 3168), F(-355, 33), F(46732, 5247), F(49, 176), F(-5103, 18656)],
        [F(35, 384), F(0), F(500, 1113), F(125, 192), F(-2187, 6784), F(11, 84)]]
DP_E = [F(71, 57600), F(0), F(-71, 16695), F(71, 1920), F(-17253, 339200), F(22, 525), F(-1, 40)]
RK4_C = [F(0), F(1, 2), F(1, 2), F(1), F(1)]
RK4_A = [[], [F(1, 2)], [F(0), F(1, 2)], [F(0), F(0), F(1)], [F(1, 6), F(1, 3), F(1, 3), F(1, 6)]]


def err_reference(name, rep, nls, u):
    """documented error estimate in terms of the stages the solver evaluates"""
    h = P(H)
    lam = LAMV if rep == "diagonal" else P(LAM)
    N = [nl_of(c) for c in nls]
    p1, p2, p3 = phis(1, h, lam)
    if name == "ETD34":
        if len(N) < 5:
            return None
        a54 = h * (P(F(-1, 2)) * p2 + P(F(2, 3)) * p3)
        return a54 * (N[3] - N[4])
    if name == "IF34":
        if len(N) < 5:
            return None
        return h * (N[3] - N[4]) * P(F(1, 6))
    if name == "ETD35":
        if len(N) < 6:
            return None
        a75 = h * (P(F(-313, 1350)) * p1 + P(F(883, 1350)) * p2 - P(F(90, 1350)) * p3)
        return a75 * (-N[0] + 4 * N[2] - 6 * N[3] + 4 * N[4] - N[5])
    if name == "IF45DP":
        if len(N) < 7:
            return None
        r = ZERO
        for j, e in enumerate(DP_E):
            if e:
                r = r + h * P(e) * T.exp(lam * h * P(1 - DP_C[j])) * N[j]
        return r
    return None
