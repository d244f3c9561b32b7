"""A Hankel transform object always belongs to its current size and radius."""
import itertools
from ..client import *
from ..client import Undecided
from ..evalf import compare, points, same_on
from ..values import Arr, idx
from ..arrays import as_arr
from ..terms import Atom, Fraction
from .c21 import vec, content

I0, I1 = P(idx(0)), P(idx(1))
SRC = """
def make(cls, n, r):
    return cls(n, r)
def make1(cls, n):
    return cls(n)
def set_nr(h, v):
    h.nr = v
def set_rmax(h, v):
    h.rmax = v
def look(h):
    return (h.nr, h.rmax, h.r, h.kr, h.bessel_zeros(), h.hankel_matrix())
def ht(h, f):
    return h.ht(f)
def iht(h, g):
    return h.iht(g)
def scribble(h):
    m = h.hankel_matrix()
    m[...] = 7.0
    z = h.bessel_zeros()
    z[...] = 7.0
def another(cls, n, r):
    h = cls(n, r)
    h.r[...] = 7.0
    h.kr[...] = 7.0
    scribble(h)
def use(h, f):
    return (h.ht(f), h.iht(f), h.hankel_matrix(), h.bessel_zeros())
def lin(c, Y, f):
    return c * (Y @ f)
"""
for nm in ("f", "g"):
    T.sym(nm, real=True)


def z(i):
    return P(Atom("app", "besselzero", (ZERO,), (i,)))


def j(k, x):
    return T.mk_app("j%d" % k, (x,))


def forms(n, r):
    top = z(n + 1)
    zi, zj = z(I0 + 1), z(I1 + 1)  # storage axis 0 is the column
    return [("r", (n,), zi / top * r), ("kr", (n,), zi / r), ("bessel_zeros()", (n,), zi),
            ("hankel_matrix()", (n, n), 2 * j(0, zi * zj / top) / (top * j(1, zi) ** 2))]


def int_sym(nm):
    return T.sym(nm, int=True, real=True, pos=True)


class World:
    def __init__(self, R):
        self.R = R
        self.C = Client(R, SRC)
        self.I = self.C.I
        self.cls = self.C.cls("rkstiff.transforms", "HankelTransform")
        self.radii = set()
        self.n = [int_sym("n%d" % i) for i in range(4)]
        self.r = [T.sym("r%d" % i, real=True, pos=True) for i in range(4)]
        self.st = self.C.st.fork(*[mk_cmp("le", P(4), P(x)) for x in self.n])

    def env(self, small=True):
        return {x: 4 + (i % 2) for i, x in enumerate(self.n)}

    def arr(self, st, con, what, v, axes, want, rule):
        R = self.R
        con = "%s: %s" % (con, what)
        a = content(self.I, st, v)
        if not isinstance(a, Arr):
            return R.verdict(False if isinstance(v, (NoneV, Num, Str, Tup)) else None, rule, con, "not an array: %r" % (v,))
        if len(a.axes) != len(axes) or a.rep != "idx":
            return R.verdict(False if len(a.axes) != len(axes) else None, rule, con, "%d axes instead of %d" % (len(a.axes), len(axes)))
        e = self.env()
        for x, w in zip(a.axes, axes):
            if x[0] is not w:
                compare(R, rule, con + " length", x[0], w, [e])
        ext = [int(e[next(iter(w.deps))]) for w in axes]
        compare(R, rule, con, a.content, want, [q for x in self.scales(e) for q in points(ext, x)])

    def scales(self, e):
        """radii of the usual size, tiny ones, and ones that nearly coincide"""
        out = [e]
        if len(self.radii) > 1:
            out += [{**e, **{x: 1e-9 * (i + 1) for i, x in enumerate(self.r)}}, {**e, **{x: 1 + 1e-7 * i for i, x in enumerate(self.r)}}, {**e, **{x: 2e9 + i for i, x in enumerate(self.r)}}]
        return out

    def consistent(self, st, h, n, r, con, rule):
        """everything observable belongs to size n and radius r"""
        self.radii.add(r)
        R, C, I = self.R, self.C, self.I
        ok, ex = C.run(st.fork(), "look", h)
        if ok is None or ex:
            return R.verdict(None if ok else False, rule, con, "the accessors raise %s" % [excname(e[0]) for e in ex])
        st, v = ok
        it = v.items
        for what, x, w in (("nr", it[0], n), ("rmax", it[1], r)):
            if isinstance(x, Num):
                compare(R, rule, con + ": " + what, x.p, w, self.scales(self.env()))
            else:
                R.verdict(None if isinstance(x, (IteV, Opaque)) else False, rule, con + ": " + what, repr(x))
        for (what, axes, want), x in zip(forms(n, r), it[2:]):
            self.arr(st, con, what, x, axes, want, rule)
        Y = I.new(st, Arr(forms(n, r)[3][2], ((n, None), (n, None)), "float"))
        c = r * r / z(n + 1)
        for fn, nm, sc in (("ht", "f", c), ("iht", "g", 1 / c)):
            for dt in ("float", "complex"):
                f = vec(I, st, nm if dt == "float" else nm + "c", n, dt)
                ok, ex = C.run(st.fork(), fn, h, f)
                if ok is None or ex:
                    R.verdict(None if ok else False, rule, con + ": " + fn, "raises %s" % [excname(e[0]) for e in ex])
                    continue
                ref, _ = C.run(ok[0], "lin", Num(sc), Y, f)
                b = content(I, ref[0], ref[1])
                self.arr(ref[0], con, "%s of %s values" % (fn, dt), ok[1], (n,), b.content, rule)


GOOD = ("nr", "rmax")


def actions(w):
    """name -> (setter or None, value maker(next index), good)"""
    bad = T.sym("nbad", int=True, real=True)
    neg = T.sym("rbad", real=True)
    return {
        "nr=new": ("set_nr", None, True), "rmax=new": ("set_rmax", None, True),
        "nr=first": ("set_nr", 0, True), "rmax=first": ("set_rmax", 0, True),
        "nr<4": ("set_nr", Num(P(bad), "int"), False), "nr float": ("set_nr", Num(P(Fraction(17, 2)), "float"), False), "nr text": ("set_nr", Str("8"), False),
        "rmax<=0": ("set_rmax", Num(P(neg)), False), "rmax NaN": ("set_rmax", NAN, False), "rmax text": ("set_rmax", Str("1"), False),
        "scribble": (None, None, True), "another": ("another", None, True), "transform": ("use", None, True),
    }, [mk_cmp("lt", P(bad), P(4)), mk_cmp("le", P(neg), ZERO)]


def follow(R, seq, faults):
    w = World(R)
    C, I = w.C, w.I
    acts, facts = actions(w)
    st = w.st.fork(*facts)
    n, r = P(w.n[0]), P(w.r[0])
    con = "HankelTransform(n0, r0)"
    ok, ex = C.run(st, "make", w.cls, Num(n, "int"), Num(r))
    if ok is None or ex:
        return R.verdict(None if not ex else False, "construct", con, "raises %s" % [excname(e[0]) for e in ex])
    st, h = ok
    if not seq:
        w.consistent(st, h, n, r, con, "construct")
    for k, a in enumerate(seq):
        fn, val, good = acts[a]
        con += " -> " + a
        last = k == len(seq) - 1
        if fn is None:
            ok, ex = C.run(st, "scribble", h)
            if ok is None:
                # read-only results cannot be scribbled over
                R.ok("copies", con, "the accessors' arrays refuse writing")
                return
            st = ok[0]
            if last:
                w.consistent(st, h, n, r, con, "copies")
            continue
        if fn == "another":
            # an unrelated object whose arrays its owner overwrites
            ok, ex = C.run(st, "another", w.cls, Num(n, "int"), Num(P(w.r[3])))
            if ok is None or ex:
                R.ok("others", con, "the arrays of another object refuse writing")
                return
            st = ok[0]
            if last:
                w.consistent(st, h, n, r, con, "others")
                ok, ex = C.run(st, "make", w.cls, Num(n, "int"), Num(r))
                if ok:
                    w.consistent(ok[0], ok[1], n, r, con + ", then a new object", "others")
            continue
        if fn == "use":
            f = vec(I, st, "f", n, "float")
            ok, ex = C.run(st, "use", h, f)
            if ok is None or ex:
                return R.verdict(None if ok else False, "accepted", con, "the transforms raise %s" % [excname(e[0]) for e in ex])
            st = ok[0]
            if last:
                w.consistent(st, h, n, r, con, "accepted")
            continue
        if val is None or isinstance(val, int):
            i = k + 1 if val is None else 0
            v = Num(P(w.n[i]), "int") if fn == "set_nr" else Num(P(w.r[i]))
        else:
            v = val
        before = st
        if good and faults and last:
            I.fault_ext = lambda p: "MemoryError" if p.split(".")[0] in ("numpy", "scipy") else None
            _, ex = C.run(st.fork(), fn, h, v)
            I.fault_ext = None
            for q, (names, site, s) in enumerate(ex):
                w.consistent(s, h, n, r, con + " failing at %s" % site, "failed-change")
        ok, ex = C.run(st.fork(), fn, h, v)
        if good:
            if ok is None or ex:
                R.verdict(None if not ex or all(T.uncertain(s.path) for _, _, s in ex) else False, "accepted", con, "raises %s" % [excname(e[0]) for e in ex])
                return
            st = ok[0]
            if fn == "set_nr":
                n = v.p
            else:
                w.radii |= {r, v.p}
                r = v.p
            if last:
                w.consistent(st, h, n, r, con, "accepted")
        else:
            if ok is not None:
                R.verdict(None if T.uncertain(ok[0].path) else False, "refused", con, "accepted")
                return
            if not ex:
                return R.unk("refused", con, "no outcome")
            if last:
                for names, site, s in ex:
                    w.consistent(s, h, n, r, con, "refused")
            st = ex[0][2]
    R.absorb(I)


def defaults(R):
    w = World(R)
    con = "HankelTransform(n0)"
    ok, ex = w.C.run(w.st, "make1", w.cls, Num(P(w.n[0]), "int"))
    if ok is None or ex:
        return R.verdict(None if not ex else False, "construct", con, "raises %s" % [excname(e[0]) for e in ex])
    w.consistent(ok[0], ok[1], P(w.n[0]), ONE, con, "construct")


def work(R, seq):
    follow(R, seq, True)


def check(R):
    from ..report import pmap
    R.rule("precision", "no value on the way is held in a type narrower than double precision")
    R.rule("construct", "after construction size, radius, grids, Bessel zeros, matrix and both transforms equal their closed forms in (nr, rmax); the two transforms scale the same kernel by reciprocal factors")
    R.rule("accepted", "the same after every accepted change of size or radius, following any earlier sequence of changes of the explored length")
    R.rule("refused", "a refused change raises and leaves everything observable as it was")
    R.rule("failed-change", "the same when a library routine raises in the middle of an admissible change")
    R.rule("others", "the same while other objects are made, and for an object made after another one whose arrays were overwritten by its owner")
    R.rule("copies", "writing into the arrays handed out by the accessors changes nothing")
    R.assumptions += ["sizes are integers of at least 4 and radii positive reals, otherwise arbitrary (symbolic)", "real arithmetic (no rounding)"]
    acts, _ = actions(World(R))
    names = list(acts)
    depth = 2 if R.tier == "quick" else 3
    seqs = [()]
    for d in range(1, depth + 1):
        seqs += list(itertools.product(names, repeat=d))
    defaults(R)
    pmap(R, work, seqs)
