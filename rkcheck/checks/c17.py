"""Solver instances are independent of each other."""
from ..client import reach, refs, excname
from ..kit import stubbed
from ..report import pmap
from ..steps import *
from ..values import objs_equal, Inst, Arr, ListO, DictO, Opaque


def second(p, st, own_op):
    """arguments of the other instance"""
    I = p.I
    if not own_op:
        return {"lin_op": p.lin_ref}
    if p.rep == "diagonal":
        a = Arr(P(Atom("elem", "mu", (IX,))), ((NLEN, None),), "any", owner="user:lin_op2")
    else:
        a = Arr(P(LAM) * 2 + 1, ((NLEN, None), (NLEN, None)), "any", "op", owner="user:lin_op2")
    return {"lin_op": I.new(st, a)}


def activities(name, rep):
    num = lambda n, **k: Num(P(T.sym(n, real=True, **k)), "int" if k.get("int") else "float")
    h2 = num("h2", pos=True)
    out = []

    def conf(I, st, p, o, only=None):
        st2 = st
        for f, v in (("config", [("epsilon", num("eps.new", pos=True)), ("minh", num("minh.new", pos=True)), ("incr_f", Num(P(Fraction(3, 2)))), ("decr_f", Num(P(Fraction(1, 2)))), ("safety_f", Num(P(Fraction(1, 2)))), ("adapt_cutoff", Num(P(Fraction(1, 4))))]),
                     ("etd_config", [("modecutoff", Num(P(Fraction(1, 2)))), ("contour_points", Num(P(64), "int")), ("contour_radius", num("rad.new", pos=True))])):
            c = st2.heap[o.oid].f.get(f)
            if c is None:
                continue
            for k, v1 in v:
                if only and k not in only:
                    continue
                ok, rs = I.run(st2, I.glob("client", "put"), [c, Str(k), v1])
                if not ok:
                    raise Undecided("%s.%s cannot be set" % (f, k))
                st2 = ok[0][0]
        return st2
    out.append(("changing its configuration", conf))

    def call(meth, *mk):
        def run(I, st, p, o):
            ok, rs = p.call(st, o, meth, *[m(p, st) for m in mk])
            return ok[0][0] if ok else rs[0][0] if rs else None
        return run
    u = lambda p, st: p.vec(st, "w")
    hh = lambda p, st: Num(P(H))
    h2f = lambda p, st: h2
    out.append(("a step", call("_update_stages", u, hh)))
    out.append(("a step of another size", call("_update_stages", u, h2f)))

    def seq(*fs):
        def run(I, st, p, o):
            for f in fs:
                st = f(I, st, p, o)
                if st is None:
                    raise Undecided("activity has no outcome")
            return st
        return run
    out.append(("a step and a reset", seq(call("_update_stages", u, h2f), call("reset"))))
    out.append(("new configuration, then a step", seq(conf, call("_update_stages", u, h2f))))
    if name.startswith("ETD"):
        for k in ("modecutoff", "contour_points", "contour_radius"):
            out.append(("a new %s, then a step" % k, seq(lambda I, st, p, o, k=k: conf(I, st, p, o, (k,)), call("_update_stages", u, hh))))
    t0 = lambda p, st: num("t0")
    tf = lambda p, st: num("tf")
    ev = ("evolve", u, t0, tf) if name in ADAPTIVE else ("evolve", u, t0, tf, hh)

    def evolve(I, st, p, o):
        if name not in ADAPTIVE:
            return call(*ev)(I, st, p, o)
        with stubbed(I, p.cls):
            return call(*ev)(I, st, p, o)
    out.append(("an evolution", evolve))
    out.append(("construction of a third instance", lambda I, st, p, o: p.make(st)[0]))
    return out


def observe(p, st, o, u2):
    """what a user sees of an instance: configuration, records, and its next step"""
    I = p.I
    out = {}
    f = st.heap[o.oid].f
    for c in ("config", "etd_config"):
        if c in f and isinstance(f[c], Ref):
            for k, v in st.heap[f[c].oid].f.items():
                out["%s.%s" % (c, k)] = v
    for k in ("t", "u"):
        try:
            v = I.getattr(st, o, k, None)
        except Exception:
            v = "missing"
        its = I.iter_items(st, v, None) if isinstance(v, Ref) else None
        out[k] = ("list", tuple(its)) if its is not None else v
    n0 = len(I.events)
    ok, rs = p.call(st, o, "_update_stages", u2, Num(P(H)))
    if ok:
        s, v = ok[0]
        vs = v.items if isinstance(v, Tup) else (v,)
        for k, x in enumerate(vs):
            a = as_arr(I, s, x)
            out["step result %d" % k] = a.content if isinstance(a, Arr) else x
    out["raises"] = tuple(sorted({excname(I.exc_names(I.exc_class(s, e))) for s, e, w in rs}))
    return out


SRC = "def put(o, k, v):\n    setattr(o, k, v)\n"


def check(R):
    R.rule("own-config", "two instances built with default configurations share no configuration object")
    R.rule("construction", "an instance built after another one was built and stepped is, term by term, the instance built alone")
    R.rule("state", "no object reachable from one instance changes while another instance is configured, stepped, reset, evolved or constructed")
    R.rule("results", "configuration, records and the next step of one instance are the same terms whatever the other instance did before")
    R.assumptions += ["both instances may share lin_op and nl_func; explicitly shared configuration objects and the per-class logger level are the user's sharing"]
    todo = []
    for name, rep in forms(R):
        others = [name] if R.tier == "quick" else [n for n in SOLVERS if (n, rep) in forms(R)]
        if R.tier == "quick":
            k = SOLVERS.index(name)
            oth = [n for n in SOLVERS[k + 1:] + SOLVERS[:k] if (n, rep) in forms(R)]
            if oth:
                others.append(oth[0])
        for other in others:
            for own_op in (False, True):
                todo.append((name, rep, other, own_op))
    pmap(R, lambda r, a: pair(r, *a), todo)


def differs(ref, got):
    """None, or (what, False if different / None if not decided)"""
    d = None
    for k in ref:
        x, y = ref[k], got.get(k)
        if x is y or x == y:
            continue
        if isinstance(x, Opaque) or isinstance(y, Opaque):
            d = d or (k, None, x, y)
            continue
        if isinstance(x, Poly) and isinstance(y, Poly):
            if opaque_in(x) or opaque_in(y):
                d = d or (k, None, x, y)
                continue
            if T.equal(x, y):
                continue
        return k, False, x, y
    return d


def alone(R, p, base, name, other, a, st0, st, cls, kw, b):
    """an instance built after another one behaves like one built first"""
    I = p.I
    ok, rs = I.run(st0, cls, [], kw)
    if not ok:
        raise Undecided("%s cannot be constructed" % other)
    s0, b0 = ok[0]
    ref = observe(p, s0, b0, p.vec(s0, "v2"))
    todo = [("constructed", st, b)]
    u = p.vec(st, "w")
    s1 = st.fork()
    ok, rs = p.call(s1, a, "_update_stages", u, Num(P(H)))
    if ok:
        ok2, rs = I.run(ok[0][0], cls, [], kw)
        if ok2:
            todo.append(("constructed and stepped", *ok2[0]))
    for what, s, o in todo:
        con = "%s: constructed after %s was %s" % (base, name, what)
        s = s.fork()
        d = differs(ref, observe(p, s, o, p.vec(s, "v2")))
        if d is None:
            R.ok("construction", con)
        else:
            R.verdict(d[1], "construction", con, "%s of %s is not that of an instance built alone: %s instead of %s" % (d[0], other, repr(d[2])[:150], repr(d[3])[:150]))


def pair(R, name, rep, other, own_op):
    base = "%s and %s[%s%s]" % (name, other, rep, ", different operators" if own_op else "")
    try:
        p = Problem(R, name, rep, collapse=True)
        p.I.load_source("client", SRC)
        I = p.I
        st = I.st0.fork()
        st, a = p.make(st)
        cls = I.glob(MODS[other], other)
        kw = {"nl_func": Ext("ghost.nl"), **second(p, st, own_op)}
        if rep == "diagonalized":
            kw["diagonalize"] = Bool(TRUE)
        st0 = p.st.fork()
        st0.heap[kw["lin_op"].oid] = st.heap[kw["lin_op"].oid]
        ok, rs = I.run(st, cls, [], kw)
        if not ok:
            raise Undecided("%s cannot be constructed after %s" % (other, name))
        st, b = ok[0]
        alone(R, p, base, name, other, a, st0, st, cls, kw, b)
        user = {p.lin_ref.oid, kw["lin_op"].oid}
        ra, rb = reach(st, [(name, a)]), reach(st, [(other, b)])
        shared = [o for o in set(ra) & set(rb) if o not in user and isinstance(st.heap[o], Inst)]
        if shared:
            R.viol("own-config", base, "%s and %s are one object" % (ra[shared[0]], rb[shared[0]]))
        else:
            R.ok("own-config", base)
        # the other instance in three states: fresh, one step done
        states = [("fresh", st)]
        u0 = p.vec(st, "v")
        ok, rs = p.call(st, b, "_update_stages", u0, Num(P(H)))
        if ok:
            states.append(("after a step", ok[0][0]))
        for sname, s0 in states:
            u2 = p.vec(s0, "v2")
            ref = observe(p, s0.fork(), b, u2)
            rb = reach(s0, [(other, b)])
            for aname, act in activities(name, rep):
                con = "%s: %s of %s, %s %s" % (base, aname, name, other, sname)
                try:
                    s1 = act(I, s0.fork(), p, a)
                    if s1 is None:
                        R.unk("results", con, "no outcome")
                        continue
                except Undecided as e:
                    R.unk("results", con, str(e))
                    continue
                bad = [o for o in rb if s1.heap.get(o) is not s0.heap[o] and not objs_equal(s1.heap.get(o), s0.heap[o])]
                if bad:
                    R.viol("state", con, "%s is changed" % rb[bad[0]])
                else:
                    R.ok("state", con)
                got = observe(p, s1, b, u2)
                d = differs(ref, got)
                if d is None:
                    R.ok("results", con)
                else:
                    R.verdict(d[1], "results", con, "%s of %s is %r instead of %r" % (d[0], other, got.get(d[0]), ref[d[0]]))
    except Undecided as e:
        R.unk("results", base, str(e))
    R.absorb(p.I)
