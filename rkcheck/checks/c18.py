"""Configuration objects never hold a value outside their documented range."""
from ..client import *
from ..order import prove

# documented ranges: (lower bound, strict), (upper bound, strict); only documented bounds are asserted
SPEC = [
    ("rkstiff.solveras", "SolverConfig", (), [
        ("epsilon", "float", (0, True), None, "ValueError"),
        ("incr_f", "float", (1, True), None, "ValueError"),
        ("decr_f", "float", None, (1, True), "ValueError"),
        ("safety_f", "float", None, (1, False), "ValueError"),
        ("adapt_cutoff", "float", None, (1, True), "ValueError"),
        ("minh", "float", (0, True), None, "ValueError"),
    ]),
    ("rkstiff.etd", "ETDConfig", (), [
        ("modecutoff", "float", (0, True), (1, False), "ValueError"),
        ("contour_points", "int", (1, True), None, "ValueError"),
        ("contour_radius", "float", (0, True), None, "ValueError"),
    ]),
    ("rkstiff.transforms", "HankelTransform", (("nr", "int", 4, None), ("rmax", "float", 0, True)), [
        ("nr", "int", (4, False), None, "ValueError"),
        ("rmax", "float", (0, True), None, "ValueError"),
    ]),
]


def cells(ty, lo, hi):
    """partition of the argument's values: (name, value, facts, inside)"""
    x = T.sym("x.new", real=True, **({"int": True} if ty == "int" else {}))
    v = Num(P(x), "int" if ty == "int" else "float")
    X = P(x)
    out = []
    base_lo = lo[0] if lo else 0  # undocumented lower bounds: only positive values are asserted to be accepted
    low = mk_cmp("lt", P(base_lo), X)
    inside = [low]
    if hi:
        inside.append(mk_cmp("lt", X, P(hi[0])))
    one = 1 if ty == "int" else None
    out.append(("inside the range", v, inside, True))
    if lo:
        out.append(("at the lower bound %s" % lo[0], Num(P(lo[0]), ty), [], not lo[1]))
        out.append(("below %s" % lo[0], v, [mk_cmp("lt", X, P(lo[0]))], False))
        if ty == "float":
            out.append(("-inf", NINF, [], False))
    if hi:
        out.append(("at the upper bound %s" % hi[0], Num(P(hi[0]), ty), [], not hi[1]))
        out.append(("above %s" % hi[0], v, [mk_cmp("lt", P(hi[0]), X)], False))
        if ty == "float":
            out.append(("inf", INF, [], False))
    if ty == "float":
        out.append(("NaN", NAN, [], False))
    return out


def default_kwargs(req):
    kw = {}
    facts = []
    for n, ty, lo, strict in req:
        s = T.sym(n + ".old", real=True, **({"int": True} if ty == "int" else {}))
        kw[n] = Num(P(s), ty)
        facts.append(mk_cmp("lt" if strict else "le", P(lo), P(s)))
    return kw, facts


def old_value(p, ty, lo, hi):
    s = T.sym(p + ".old", real=True, **({"int": True} if ty == "int" else {}))
    facts = []
    facts.append(mk_cmp("lt", P(lo[0] if lo else 0), P(s)))
    if hi:
        facts.append(mk_cmp("lt", P(s), P(hi[0])))
    return Num(P(s), ty), facts


def reads(C, st, o, params):
    out = {}
    for p in params:
        ok, rs = C.run(st, "get_" + p, o)
        out[p] = ok[1] if ok and not rs else None
        if ok:
            st = ok[0]
    return st, out


def same(a, b):
    if isinstance(a, Num) and isinstance(b, Num):
        return a.p is b.p or (a.p.atom() is NAN_ and b.p.atom() is NAN_)
    return a == b


def check(R):
    R.rule("rejects", "a value outside the documented range (NaN and infinities included) is refused with the documented exception, by constructor argument and by attribute")
    R.rule("keeps", "after a refused assignment every parameter reads as before")
    R.rule("accepts", "a value inside the documented range is accepted")
    R.rule("reads-back", "an accepted value is read back unchanged and no other parameter changes")
    src = ""
    for _, _, _, ps in SPEC:
        for p, *_ in ps:
            src += "def get_%s(o):\n    return o.%s\ndef set_%s(o, v):\n    o.%s = v\n" % (p, p, p, p)
    for mod, cname, req, ps in SPEC:
        names = [p[0] for p in ps]
        for p, ty, lo, hi, exc in ps:
            cs = [(n, v, f, i, exc) for n, v, f, i in cells(ty, lo, hi)]
            if cname == "ETDConfig" and ty == "int":
                cs += [("a float", Num(P(T.sym("x.f", real=True))), [mk_cmp("lt", P(2), P(T.sym("x.f", real=True)))], False, "TypeError"), ("a string", Str("32"), [], False, "TypeError")]
            if cname == "HankelTransform" and ty == "int":
                cs += [("a float", Num(P(T.sym("x.f", real=True))), [mk_cmp("lt", P(5), P(T.sym("x.f", real=True)))], False, "ValueError")]
            for route in ("constructor", "attribute"):
                for cell, v, facts, inside, ex in cs:
                    if cell == "a float" and cname == "HankelTransform" and route == "constructor":
                        continue  # the size is then checked by scipy
                    con = "%s.%s %s: %s" % (cname, p, route, cell)
                    try:
                        one(R, src, mod, cname, req, names, p, ty, lo, hi, route, v, facts, inside, ex, con)
                    except Undecided as e:
                        R.unk("accepts" if inside else "rejects", con, str(e))


def one(R, src, mod, cname, req, names, p, ty, lo, hi, route, v, facts, inside, ex, con):
    C = Client(R, src)
    cls = C.cls(mod, cname)
    kw, f0 = default_kwargs(req)
    if route == "constructor":
        kw[p] = v
        f0 = [f for f in f0 if T.sym(p + ".old") not in f.deps]
        ref = {}
        if not req:
            ok, _ = C.run(C.st, cls)
            if ok:
                _, ref = reads(C, ok[0], ok[1], names)
        st = C.st.fork(*f0, *facts)
        ok, rs = C.run(st, cls, **kw)
        before = dict(ref)
        o = ok[1] if ok else None
    else:
        ov, of = old_value(p, ty, lo, hi)
        kw[p] = ov
        st = C.st.fork(*[f for f in f0 if T.sym(p + ".old") not in f.deps], *of, *facts)
        k, rs = C.run(st, cls, **kw)
        if k is None or rs:
            R.unk("accepts", con, "construction with admissible values: %s" % ([r[0][:1] for r in rs],))
            return
        st, o = k
        st, before = reads(C, st, o, names)
        inst0 = dict(st.heap[o.oid].f)
        ok, rs = C.run(st, "set_" + p, o, v)
    R.absorb(C.I)
    site = rs[0][1] if rs else "%s.%s" % (cname, p)
    if inside:
        if rs:
            R.verdict(None if all(T.uncertain(s.path) for _, _, s in rs) else False, "accepts", con, "raises %s" % rs[0][0][0], site)
            return
        R.ok("accepts", con)
        st2, after = reads(C, ok[0], o, names)
        if after[p] is None or isinstance(after[p], (IteV, Opaque)):
            R.unk("reads-back", con, "reads %r" % (after[p],))
        elif not same(after[p], v):
            R.viol("reads-back", con, "reads back as %r" % (after[p],), site)
        else:
            bad = [q for q in names if q != p and q in before and before[q] is not None and not same(before[q], after[q])]
            if bad:
                R.viol("reads-back", con, "also changes %s to %r" % (bad[0], after[bad[0]]), site)
            else:
                R.ok("reads-back", con)
        return
    if ok is not None:
        R.verdict(None if T.uncertain(ok[0].path) else False, "rejects", con, "accepted", site)
        return
    bad = [r for r in rs if ex not in r[0]]
    if not rs:
        R.unk("rejects", con, "no outcome")
    elif bad:
        R.viol("rejects", con, "raises %s, documented is %s" % (bad[0][0][0], ex), bad[0][1])
    else:
        R.ok("rejects", con, "", site)
        if route == "attribute":
            for _, w, s in rs:
                _, after = reads(C, s, o, names)
                ch = [q for q in names if not same(before[q], after[q])]
                if ch:
                    R.viol("keeps", con, "%s reads %r after the refusal, was %r" % (ch[0], after[ch[0]], before[ch[0]]), w)
                    break
                f1 = s.heap[o.oid].f
                d = [k for k in inst0 if f1.get(k) != inst0[k]]
                if d:
                    R.viol("keeps", con, "attribute %s changed by the refused assignment" % d[0], w)
                    break
            else:
                R.ok("keeps", con, "", site)
