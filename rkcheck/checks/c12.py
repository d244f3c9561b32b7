"""Adaptive stepping always terminates with a step or a documented error."""
from ..control import *
from ..order import prove, saturate
from ..report import pmap
from .c10 import H0

DOC = ("MaxLoopsExceeded", "MinimumStepReached")
LIMIT = 1000


def check(R):
    R.rule("bounded", "every loop that makes attempts can repeat only a fixed number of times")
    R.rule("outcomes", "step() returns (state, step size, suggestion) or raises MaxLoopsExceeded or MinimumStepReached, nothing else")
    R.rule("minimum", "every attempt after the first of a step is made with a step size of at least minh")
    R.assumptions += ["a positive step size is passed to step()", "stages raise no exception of their own (C09)"]

    def one(R, name):
        C = Control(R, name, mode="widen")
        site = "%s %s.step" % (C.I.modules[MODS[name]].path, name)
        n0 = len(C.I.loops)
        ok, rs = C.call("step", 1, Num(P(H0)))
        loops = [l for l in C.I.loops[n0:] if l["forn"] is None]
        fors = [l for l in C.I.loops[n0:] if l["forn"] is not None]
        bad = False
        for l in loops:
            b = l["back"]
            if b is None:
                R.ok("bounded", "%s %s" % (name, l["site"]), "the body never repeats", l["site"])
                continue
            k = P(l["kappa"])
            v = prove(list(b.path), mk_cmp("le", k, P(LIMIT)))
            R.verdict(True if v else False, "bounded", "%s %s" % (name, l["site"]), "nothing bounds the number of attempts", l["site"])
        for l in fors:
            v = prove(list(l["entry"].path), mk_cmp("le", l["forn"], P(LIMIT)))
            R.verdict(True if v else False, "bounded", "%s %s" % (name, l["site"]), "nothing bounds the number of attempts", l["site"])
        if not loops and not fors and C.I.opaque_seen:
            R.unk("bounded", name, "%s" % (C.I.opaque_seen[:2],), site)
        outcomes(R, C, name, ok, rs, site)
        for l in loops:
            inductive(R, C, name, l)
        C.close()
        # attempts after the first
        for loops_ in (1, 5):
            B = Control(R, name, loops=loops_)
            for k in (1, 2, 3):
                ok, rs = B.call("step", k, Num(P(H0)))
                outcomes(R, B, "%s attempt %d" % (name, k), [x for x in ok if B.num(x[0]) == k], [x for x in rs if B.num(x[0]) == k], site)
                states = [s for s, _ in ok] + [s for s, _, _ in rs]
                for st in states:
                    if B.num(st) != k:
                        continue
                    for i, a in enumerate(B.log(st)[1:]):
                        h = a.items[1]
                        v = kept_above(B, st, h)
                        R.verdict(True if v else False, "minimum", "%s attempt %d" % (name, i + 2), "made with a step size that may be below minh: %s" % (h,), site)
            B.close()
    pmap(R, one, ADAPTIVE)


def heads(l):
    """what every generalised cell of a loop head becomes after one pass"""
    m = {}
    for oid, o in l["head"].heap.items():
        b = l["back"].heap.get(oid)
        for f in ("vars", "f"):
            d, e = getattr(o, f, None), getattr(b, f, None)
            if not isinstance(d, dict) or not isinstance(e, dict):
                continue
            for k, v in d.items():
                w = e.get(k)
                if isinstance(v, Num) and isinstance(w, Num) and v.p != w.p:
                    a = v.p.atom()
                    if a is not None:
                        m[a] = w.p
    if l["back"] is not None:
        m[l["kappa"]] = P(l["kappa"]) + 1
    return m


def inductive(R, C, name, l):
    """an attempt made in the next pass of the loop has a step size of at least minh"""
    if l["back"] is None:
        return
    m = heads(l)
    n = len(l["head"].path)
    for path, u, h in C.args:
        if path[:n] != l["head"].path or not isinstance(h, Num):
            continue
        h2 = T.subst(h.p, m)
        st = State(l["back"].heap, l["back"].path)
        try:
            for c in path[n:]:
                C.I.assume(st, T.subst(c, m))
        except Dead:
            R.ok("minimum", "%s next pass" % name, "no further attempt", l["site"])
            continue
        R.verdict(bool(kept_above(C, st, Num(h2))), "minimum", "%s next pass" % name, "a later attempt may have a step size below minh", l["site"])


def kept_above(C, st, h):
    """the path refutes h < minh (which a NaN never satisfies)"""
    if not isinstance(h, Num):
        return False
    low = mk_cmp("lt", h.p, P(C.cfg["minh"]))
    return C.I.decide(st, mk_cmp("le", P(C.cfg["minh"]), h.p)) is True or C.I.decide(st, low) is False or prove(list(st.path), mk_not(low)) or prove(saturate(st.path), mk_not(low))


def outcomes(R, C, con, ok, rs, site):
    for st, v in ok:
        v = C.I.pick(st, v)
        R.verdict(isinstance(v, Tup) and len(v.items) == 3, "outcomes", con + " returns", "step() returns %s" % (v,), site)
    from ..order import prove_leaf
    for st, e, w in rs:
        ns = C.names(st, e)
        if any(x in DOC for x in ns) and "SolverError" not in ns:
            R.viol("outcomes", "%s raises %s" % (con, ns[0]), "not one of the documented solver errors: a kind of %s only" % (ns[1:],), str(w))
            continue
        if any(x in DOC for x in ns):
            R.ok("outcomes", "%s raises %s" % (con, ns[0]), "", str(w))
            continue
        try:
            dead = prove_leaf(list(st.path), FALSE) or prove(list(st.path), FALSE)
        except Exception:
            dead = False
        if not dead:
            R.viol("outcomes", "%s raises %s" % (con, ns[0]), "an exception that is not documented: %s at %s" % (ns[0], w), str(w))
