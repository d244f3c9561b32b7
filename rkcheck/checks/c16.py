"""User arrays are never modified and results are never overwritten."""
from ..history import *
from ..report import pmap
from ..steps import forms
from ..client import Client, refs, excname
from ..arrays import roots
from .c21 import FUNS, operands, vec, mat, m, q, I0, I1
from .c23 import World

WHO = {"user:lin_op": "the operator passed by the caller", "nl": "an array obtained from the nonlinear function"}


def check(R):
    R.rule("solvers", "in every history of steps, rejections and evolutions no array of the caller, of the nonlinear function, returned, stored or passed to the nonlinear function is written to")
    deep = R.tier == "thorough"

    def one(R, form):
        name, rep = form
        con = "%s[%s]" % (name, rep)
        H = History(R, name, rep)
        H.owners = True
        H.I.expose = H.expose
        E = Explorer(H, targets=(1, 2, 3) if deep else (1, 2), resets=True, evolves=True if deep else "root", depth=8 if deep else 4, most=2000 if deep else 300).run()
        m = H.I.modules.get(MODS[name])
        n = report(R, "solvers", con, H.I.events)
        if not n:
            R.ok("solvers", con, "%s %s" % (m.path if m else "?", name), "%d states of the instance between calls, %d calls, %d writes to arrays; %s" % (
                E.nodes, E.edges, sum(e["kind"] == "mutate" for e in H.I.events), "no further states: all histories" if E.closed else "histories of up to %d calls" % (E.depth + 1)))
        H.close()
    pmap(R, one, forms(R))
    R.rule("functions", "no function of grids, derivatives, transforms, models and etd writes to an array it was given or to one it, or an earlier call, handed out")
    sc = scenarios(R)
    pmap(R, lambda R, k: sc[k](R), list(sc))


def foreign(owners):
    for o in sorted(owners):
        for x in o.split("|"):
            if x in WHO:
                return WHO[x]
            if x.startswith("user"):
                return "an array passed by the caller" + (" (%s)" % x[5:] if x[5:] and not x.startswith("user:w.") else "")
            if x.startswith("shared:"):
                return x[7:]
    return None


def report(R, rule, con, events):
    seen = set()
    for e in events:
        if e["kind"] != "mutate":
            continue
        w = foreign(e["owners"])
        if w is not None and (e["site"], w) not in seen:
            seen.add((e["site"], w))
            R.viol(rule, con, "%s writes to %s" % (e["fn"], w), e["site"])
    return len(seen)


# ------------------------------------------------------------------------------------------ the other modules
CLIENT = """
def apply(L, N, w):
    return N(w)
def make(cls, n, r):
    return cls(n, r)
def set_nr(h, v):
    h.nr = v
def set_rmax(h, v):
    h.rmax = v
def look(h):
    return (h.r, h.kr, h.bessel_zeros(), h.hankel_matrix())
def both(h, f, g):
    return (h.ht(f), h.iht(g))
"""
SMALL = T.sym("amp", real=True, pos=True)


class Session:
    """consecutive calls; what a call returns belongs to the caller from then on"""

    def __init__(self, R, con, C=None):
        self.R, self.con = R, con
        self.C = C or Client(R, CLIENT)
        self.I = self.C.I
        self.st = self.C.st.fork(mk_cmp("le", P(2), m), mk_cmp("le", P(2), q))
        self.last = None
        self.calls = 0
        self.lists = {}
        self.changed = set()

    def call(self, f, *args, **kw):
        if self.st is None:
            return None
        f = self.I.glob(*f.rsplit(".", 1)) if isinstance(f, str) and "." in f else f
        ok, ex = self.C.run(self.st, f, *args, **kw)
        self.calls += 1
        if ok is None:
            self.st = None
            return None
        self.st, v = ok
        for nm, (r, o) in self.lists.items():
            x = self.st.heap.get(r.oid)
            if x is not o and (not isinstance(x, ListO) or x.items != o.items):
                self.changed.add(nm)
        self.hand_out(v)
        return v

    def hand_out(self, v):
        seen = set()
        todo = refs(v)
        while todo:
            r = todo.pop()
            o = self.st.heap.get(r.oid)
            if r.oid in seen:
                continue
            seen.add(r.oid)
            if isinstance(o, Arr):
                for x in roots(self.st, r.oid):
                    a = self.st.heap.get(x)
                    if isinstance(a, Arr) and not a.owner.startswith(("user", "shared:")):
                        self.st.heap[x] = replace(a, owner="shared:an array returned by an earlier call")
            elif isinstance(o, ListO):
                todo += [r for x in o.items if isinstance(x, V) for r in refs(x)]

    def vec(self, nm, n, dt="float"):
        return self.own(vec(self.I, self.st, nm, n, dt), nm)

    def own(self, v, nm, dt=None):
        for r in refs(v):
            o = self.st.heap.get(r.oid)
            if isinstance(o, Arr):
                self.st.heap[r.oid] = replace(o, owner="user:" + nm, dtype=dt or o.dtype)
        return v

    def user_list(self, nm, items):
        r = self.I.new(self.st, ListO(tuple(items)))
        self.lists[nm] = (r, self.st.heap[r.oid])
        return r

    def done(self):
        self.R.absorb(self.I)
        n = report(self.R, "functions", self.con, self.I.events)
        for nm in sorted(self.changed):
            n += 1
            self.R.viol("functions", self.con, "the list %s passed by the caller is changed" % nm)
        if n == 0:
            self.R.ok("functions", self.con, "%d calls, %d writes to arrays%s" % (
                self.calls, sum(e["kind"] == "mutate" for e in self.I.events), "; the last call raises, nothing beyond it was analysed" if self.st is None else ""))


def scenarios(R):
    out = {}

    def add(con):
        def deco(f):
            def go(R):
                S = Session(R, con)
                try:
                    f(S)
                except Undecided as e:
                    R.unk("functions", con, str(e))
                S.done()
            out[con] = go
            return f
        return deco

    for name, _ in FUNS:
        for par in (0, 1):
            for what, mk, dt, _ in operands(name, par):
                for order, first in [(o, None) for o in (None, 0, 1, 2, 3)] + [(1, "complex"), (2, "complex")]:
                    @add("derivatives.%s: %s, order %s%s" % (name, what, "default" if order is None else order, ", first argument of %s type" % first if first else ""))
                    def f(S, name=name, mk=mk, order=order, first=first):
                        args = mk(S.I, S.st)
                        for x, nm in zip(args, ("the first argument", "the values")):
                            S.own(x, nm, first if nm == "the first argument" else None)
                        for _ in range(2):
                            S.call("rkstiff.derivatives." + name, *args, *([] if order is None else [Num(P(order), "int")]))
    even = Num(2 * m, "int")
    ab = [Num(P(T.sym("a", real=True))), Num(P(T.sym("b", real=True)))]
    for name, n in (("construct_x_kx_rfft", even), ("construct_x_kx_fft", even), ("construct_x_cheb", Num(m, "int")), ("construct_x_dx_cheb", Num(m, "int"))):
        @add("grids." + name)
        def f(S, name=name, n=n):
            S.call("rkstiff.grids." + name, n)
            S.call("rkstiff.grids." + name, n)
            S.call("rkstiff.grids." + name, n, *ab)

    @add("grids.construct_r_kr_hankel")
    def f(S):
        S.st = S.st.fork(mk_cmp("le", P(4), m))
        for nm in ("r1", "r2"):
            S.call("rkstiff.grids.construct_r_kr_hankel", Num(m, "int"), Num(P(T.sym(nm, real=True, pos=True))))
    for shape, ax in (((m,), None), ((m, q), 0), ((q, m), 1), (None, None)):
        @add("grids.mirror_grid: %s" % ("no values" if shape is None else "%d-dimensional values, axis %s" % (len(shape), ax)))
        def f(S, shape=shape, ax=ax):
            r = S.vec("r", m)
            u = []
            if shape is not None:
                u = [S.vec("u", m, "complex") if len(shape) == 1 else S.own(mat(S.I, S.st, "u", shape[0], shape[1], "complex"), "u")]
            for _ in range(2):
                S.call("rkstiff.grids.mirror_grid", r, *u, *([] if ax is None else [Num(P(ax), "int")]))

    @add("transforms.HankelTransform")
    def f(S):
        w = World(S.R)
        S.C, S.I, S.st = Client(S.R, CLIENT), None, None
        S.I = S.C.I
        S.st = S.C.st.fork(*[mk_cmp("le", P(4), P(x)) for x in w.n])
        n, r = [Num(P(x), "int") for x in w.n], [Num(P(x)) for x in w.r]
        h = S.call("make", S.C.cls("rkstiff.transforms", "HankelTransform"), n[0], r[0])
        if h is None:
            return
        size = 0

        def use(i, tag):
            f, g = S.vec("f", P(w.n[i])), S.vec("g", P(w.n[i]), "complex")
            S.call("look", h)
            S.call("both", h, f, g)
            S.call("both", h, g, f)
            S.call("look", h)
        use(0, "")
        S.call("set_rmax", h, r[1])
        use(0, "")
        S.call("set_nr", h, n[1])
        use(1, "")
        S.call("set_rmax", h, r[2])
        S.call("set_nr", h, n[2])
        use(2, "")
    mu = Num(P(T.sym("mu", real=True, pos=True)))
    for name, extra, dt in [(n, x, d) for n, x in (("kdv_ops", []), ("burgers_ops", [mu])) for d in ("float", "complex")]:
        @add("models.%s: %s wave numbers" % (name, dt))
        def f(S, name=name, extra=extra, dt=dt):
            k = S.vec("k", m + 1, dt)
            v = S.call("rkstiff.models." + name, k, *extra)
            ops(S, v, [S.vec("uf", m + 1, "complex"), S.vec("vf", m + 1, "complex")])
            S.call("rkstiff.models." + name, k, *extra)

    for dt in ("float", "complex"):
      @add("models.allen_cahn_ops: %s grid" % dt)
      def f(S, dt=dt):
        x, D = S.vec("x", m + 1, dt), S.own(mat(S.I, S.st, "D", m + 1, m + 1, dt), "D")
        for extra in ([], [mu]):
            v = S.call("rkstiff.models.allen_cahn_ops", x, D, *extra)
            ops(S, v, [S.vec("xs", m - 1), S.vec("ws", m - 1, "complex")])
    nums = [Num(P(T.sym(nm, real=True, pos=nm[0] == "a"))) for nm in ("a1", "s1", "a2", "s2", "time")]

    @add("models.kdv_soliton")
    def f(S):
        x = S.vec("x", m)
        S.call("rkstiff.models.kdv_soliton", x)
        S.call("rkstiff.models.kdv_soliton", x, nums[0], nums[1], nums[4])

    @add("models.kdv_multi_soliton")
    def f(S):
        x = S.vec("x", m)
        a, z = S.user_list("ampl", [nums[0], nums[2]]), S.user_list("x0", [nums[1], nums[3]])
        S.call("rkstiff.models.kdv_multi_soliton", x, a, z)
        S.call("rkstiff.models.kdv_multi_soliton", x, a, z, nums[4])
    for name in ("psi1", "psi2", "psi3"):
        for dt in ("complex", "float"):
          @add("etd.%s: %s argument" % (name, dt))
          def f(S, name=name, dt=dt):
            z = S.vec("z", m, dt)
            for _ in range(2):
                S.call("rkstiff.etd." + name, z)
    return out


def ops(S, v, states):
    v = S.I.pick(S.st, v) if isinstance(v, IteV) else v
    if not isinstance(v, Tup) or len(v.items) != 2 or S.st is None:
        return
    for w in states + states[:1]:
        S.call("apply", v.items[0], v.items[1], w)
