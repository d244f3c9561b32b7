"""The step-size controller on arbitrary stages: what step() does with every possible solution and error estimate."""
from __future__ import annotations
from .kit import *
from .kit import Problem
from .terms import *
from .terms import P
from . import terms as T
from .values import *
from .arrays import as_arr
from .interp import State, Dead, Undecided
from .ieee import IEval, Unknown, cabs, mx, INF, NAN
from .loops import quiet

CFG = ("epsilon", "incr_f", "decr_f", "safety_f", "adapt_cutoff", "minh")


def cfg_syms():
    return {k: T.sym("cfg." + k, real=True, pos=True) for k in CFG}


class Attempt:
    def __init__(self, u, uoid, h):
        self.u, self.uoid, self.h = u, uoid, h


class Record:
    """an attempt of an evolve: its number, the step it belongs to, the state in which it is made and its arguments"""

    def __init__(self, k, p, st, u, h):
        self.k, self.p, self.st, self.u, self.h = k, p, st, u, h


class Control:
    """one solver whose stages return arbitrary arrays; every outcome is separated by its number of attempts"""

    def __init__(self, R, name, mode="bounded", ieee=True, rounded=False, loops=None, kinds=("complex", "complex"), later=False):
        self.R, self.name, self.kinds = R, name, kinds
        p = self.p = Problem(R, name, "diagonal", mode=mode)
        I = self.I = p.I
        I.ieee, I.rounded = ieee, rounded
        self.adaptive = name in ADAPTIVE
        self.cfg = cfg_syms()
        st = p.st
        kw = {}
        if self.adaptive:
            c = self.cfg
            st = st.fork(mk_cmp("lt", ONE, P(c["incr_f"])), mk_cmp("lt", P(c["decr_f"]), ONE), mk_cmp("le", P(c["safety_f"]), ONE), mk_cmp("lt", P(c["adapt_cutoff"]), ONE))
            ok, rs = I.run(st, I.glob("rkstiff.solveras", "SolverConfig"), [], {} if later else {k: Num(P(v)) for k, v in c.items()})
            if len(ok) != 1:
                raise Undecided("SolverConfig rejects admissible values")
            st, cv = ok[0]
            kw["config"] = cv
        st, self.obj = p.make(st, **kw)
        if later and self.adaptive:
            # the parameters are set on the configuration of an existing solver
            I.load_source("later", "def put(c, k, v):\n    setattr(c, k, v)\n")
            for k, v in c.items():
                ok, rs = I.run(st, I.glob("later", "put"), [kw["config"], Str(k), Num(P(v))], {})
                if len(ok) != 1:
                    raise Undecided("a configuration rejects admissible values")
                st = ok[0][0]
        self.q = None
        if self.adaptive:
            ok, _ = p.call(st.fork(), self.obj, "_q")
            v = ok[0][1] if ok else None
            self.q = v.p.const() if isinstance(v, Num) else None
            self.maxs = self.const(st, "MAX_S")
            self.mins = self.const(st, "MIN_S")
            self.maxloops = self.const(st, "MAX_LOOPS")
        self.G = I.new(st, Inst(Ext("ghost.counter"), {"k": Num(P(0), "int"), "log": Tup(()), "ret": Tup(())}))
        self.st = st
        self.limit = 1
        self.probing = self.hit = False
        self.schedule = None
        self.records = []
        self.args = []
        I.handlers["ghost.stages"] = self.attempt
        self.p.cls.attrs["_update_stages"] = StaticM(Ext("ghost.stages"))
        if mode == "bounded":
            I.merge_keep = self.keep
            I.is_bounded = self.is_bounded
            if loops is not None:
                self.p.cls.attrs["MAX_LOOPS"] = Num(P(loops), "int")

    def const(self, st, name):
        v = self.I.getattr(st.fork(), self.obj, name)
        return v.p.const() if isinstance(v, Num) else None

    # -------------------------------------------------------------- counting
    def num(self, st):
        c = st.heap[self.G.oid].f["k"]
        c = c.p.const() if isinstance(c, Num) else None
        if c is None:
            raise Undecided("number of attempts depends on data")
        return int(c)

    def log(self, st):
        v = st.heap[self.G.oid].f["log"]
        if not isinstance(v, Tup):
            raise Undecided("gated attempts")
        return v.items

    keep_key = "k"

    def keep(self, states):
        ks = []
        for s in states:
            o = s.heap.get(self.G.oid)
            c = o.f["k"].p.const() if o is not None and isinstance(o.f["k"], Num) else None
            ks.append(-1 if c is None else c)
        m = max(ks)
        if self.schedule and self.I.nest:
            # inside the pass of an evolve: the step is complete after the planned number of attempts
            p = self.I.nest[0]
            want = sum(self.schedule[:p]) if p <= len(self.schedule) else m
            if want in ks:
                m = want
        return [s for s, k in zip(states, ks) if k == m]

    def is_bounded(self, I, st, fr, node, test, body):
        s = st.fork()
        outer = self.probing, self.hit
        self.probing, self.hit = True, False
        hook, I.from_head = I.from_head, None
        try:
            with quiet(I, fr):
                try:
                    if test is not None:
                        I.assume(s, I.cond(s, node.test, fr))
                    fr.breaks.append([])
                    fr.conts.append([])
                    try:
                        body(s)
                    finally:
                        fr.breaks.pop()
                        fr.conts.pop()
                except Dead:
                    pass
        finally:
            hit = self.hit
            self.probing, self.hit = outer[0], outer[1] or hit
            I.from_head = hook
        return hit

    def attempt(self, I, st, args, kw, node):
        if self.probing:
            self.hit = True
            raise Dead
        args = list(args) + [kw[k] for k in ("u", "h") if k in kw]
        if len(args) != 2:
            raise Undecided("_update_stages called with %d arguments" % len(args))
        u, h = args
        widen = I.loop_mode != "bounded"
        if I.record:
            self.args.append((st.path, u, h))
        if widen:
            k = next(T._fresh)
        else:
            k = self.num(st) + 1
            if self.schedule and I.record:
                self.records.append(Record(k, I.nest[0] if I.nest else 0, st.fork(), u, h))
            if k > self.limit:
                raise Dead
        ua = as_arr(I, st, u, node)
        uo = I.new(st, replace(ua, base=None, owner="internal")) if isinstance(ua, Arr) else NONE
        if I.ieee:
            for nm in ("x", "e"):
                T.SYMATTR.setdefault((nm + ("~%d" if widen else ".%d")) % k, {})["nan"] = True
        new = I.new(st, Arr(P(Atom("elem", ("x~%d" if widen else "x.%d") % k, (IX,))), ((NLEN, None),), self.kinds[0], owner="stages"))
        err = I.new(st, Arr(P(Atom("elem", ("e~%d" if widen else "e.%d") % k, (IX,))), ((NLEN, None),), self.kinds[1], owner="stages"))
        o = st.heap[self.G.oid]
        if not widen:
            st.heap[self.G.oid] = replace(o, f=dict(o.f, k=Num(P(k), "int"), log=Tup(o.f["log"].items + (Tup((uo, h, new, u)),))))
        return Tup((new, err)) if self.adaptive else new

    # -------------------------------------------------------------- calls
    def call(self, meth, limit, *args, **kw):
        self.limit = limit
        s = self.st.fork()
        u = self.p.vec(s, "u0")
        self.u0 = u
        ok, rs = self.p.call(s, self.obj, meth, u, *args, **kw)
        return ok, rs

    def evolve(self, schedule, args, head=False, **kw):
        """evolve() until it has made len(schedule) steps, the i-th after schedule[i] attempts; with head, these steps follow any number of earlier ones"""
        I = self.I
        self.schedule, self.records, self.head, self.starts = list(schedule), [], None, {}
        I.on_pass = self.on_pass
        I.nest = []
        if head:
            I.loop_mode, I.from_head = "widen", self.at_head
        self.wrap_step()
        try:
            ok, rs = self.call("evolve", sum(schedule), *args, **kw)
        finally:
            I.loop_mode, I.from_head, I.on_pass = "bounded", None, None
            self.p.cls.attrs.pop("step", None)
            self.schedule = None
            I.nest = []
        n = sum(schedule)
        return [(st, v) for st, v in ok if self.num(st) == n], [(st, e, w) for st, e, w in rs if self.num(st) <= n], self.records

    def at_head(self, I, st, H, G):
        self.head = (State(dict(st.heap), st.path), H.fork(), G)

    def on_pass(self, n, st):
        if len(self.I.nest) == 1:
            self.starts[n] = st.fork()

    def wrap_step(self):
        I, st = self.I, self.st
        self.p.cls.attrs.pop("step", None)
        orig = I.getattr(st.fork(), self.obj, "step")

        def h(I, st, args, kw, node):
            r = I.call(st, orig, list(args), dict(kw), node)
            if I.loop_mode == "bounded" and not self.probing:
                o = st.heap[self.G.oid]
                st.heap[self.G.oid] = replace(o, f=dict(o.f, ret=Tup(o.f["ret"].items + (r,))))
            return r
        I.handlers["ghost.step"] = h
        self.p.cls.attrs["step"] = StaticM(Ext("ghost.step"))

    def returned(self, st):
        v = st.heap[self.G.oid].f["ret"]
        if not isinstance(v, Tup):
            raise Undecided("gated steps")
        return v.items

    def length_at(self, st, name):
        """the term for the number of entries a trajectory list has at a generalised loop head, and the name of its last entry"""
        try:
            v = self.I.pick(st, self.I.getattr(st.fork(), self.obj, name))
        except (Dead, Undecided):
            return None, None
        o = st.heap.get(v.oid) if isinstance(v, Ref) else None
        from .np_reduce import prefix_len
        if not isinstance(o, ListO) or o.prefix is None:
            return None, None
        return prefix_len(o.prefix).atom(), "last%s" % (o.prefix[1],)

    def listing(self, st, ev, name):
        """the entries of a trajectory list under an evaluation; a list filled by earlier passes counts from there"""
        from .interp import CondItem
        I = self.I
        v = I.pick(st, I.getattr(st.fork(), self.obj, name))
        while isinstance(v, IteV):
            v = v.a if ev.cond(v.c) else v.b
        o = st.heap.get(v.oid) if isinstance(v, Ref) else None
        if not isinstance(o, ListO) or o.sym is not None:
            raise Unknown("trajectory list")
        out = []

        def go(items):
            for x in items:
                if isinstance(x, CondItem):
                    if ev.cond(x.c):
                        go(x.items)
                else:
                    out.append(x)
        go(o.items)
        return out

    def value(self, st, ev, v):
        """number, or the three components of an array"""
        I = self.I
        v = I.pick(st, v)
        while isinstance(v, IteV):
            v = v.a if ev.cond(v.c) else v.b
        if isinstance(v, Num):
            return ev.poly(v.p)
        a = as_arr(I, st, v)
        if isinstance(a, Arr):
            out = []
            for i in range(3):
                ev.env[idx(0)] = float(i)
                out.append(ev.poly(a.content))
            ev.env.pop(idx(0), None)
            ev.memo = {k: x for k, x in ev.memo.items()}
            return out
        raise Unknown("value %s" % (v,))

    def names(self, st, e):
        out = []
        for x in self.I.exc_names(self.I.exc_class(st, e)):
            out.append(getattr(x, "name", None) or str(x))
        return out

    def close(self):
        self.R.absorb(self.I)


def numeric(path):
    """the facts of a path that speak about numbers"""
    return [c for c in path if not (c.kind == "app" and c.args[0] in ("log", "root", "has", "haslevel") or c.kind == "not" and c.args[0].kind == "app" and c.args[0].args[0] in ("log", "root", "has", "haslevel"))]


def holds(ev, path):
    return all(ev.cond(c) for c in path)


# ------------------------------------------------------------------------------------------ sample estimates
XS = [
    [1.0, 0.5, 2.0],
    [1.0, 0.005, -0.02],
    [complex(1e-3, 1e-3), 2j, 0.5],
    [0.0, 0.0, 0.0],
    [0.0, 1.0, 0.0],
    [INF, 1.0, 1.0],
    [NAN, 1.0, 1.0],
    [1.0, complex(0.001, NAN), 1.0],
    [-INF, INF, 0.5],
    [3e-7, 1e-7, 2e-9],
    [2e5j, 4e6, -1e3],
    [0.02, -0.011, 0.013],
    [2e-13, -1.1e-12, 0.0],
    [5e-41j, 1e-40, 1e-44],
    [3e-121, 1e-122, 2e-120],
    [4e55, 1e57, -2e54],
]
PATTERNS = [[1.0, 1.0, 1.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [1j, -0.2, 0.0]]
FACTORS = [0.3, 0.96, 1.04, 2.0, 60.0, 1e6]
SPECIAL = [[0.0, 0.0, 0.0], [NAN, 1.0, 1.0], [0.0, NAN, 0.0], [INF, 0.0, 0.0], [0.0, INF, 1.0], [0.0, 0.0, NAN], [INF, NAN, 0.0]]


def configs(q, deep=False):
    c = [dict(epsilon=1e-4, incr_f=1.25, decr_f=0.85, safety_f=0.8, adapt_cutoff=0.01, minh=1e-300),
         dict(epsilon=1e-2, incr_f=1.1, decr_f=0.5, safety_f=1.0, adapt_cutoff=0.5, minh=1e-300),
         dict(epsilon=0.25, incr_f=5.0, decr_f=0.1, safety_f=0.3, adapt_cutoff=1e-6, minh=1e-300),
         dict(epsilon=2.0 ** -q, incr_f=1.9, decr_f=0.999, safety_f=1.0, adapt_cutoff=1e-3, minh=1e-300)]
    if deep:
        c += [dict(epsilon=3.0, incr_f=1.0001, decr_f=0.26, safety_f=0.05, adapt_cutoff=0.99, minh=1e-300),
              dict(epsilon=1e-12, incr_f=3.99, decr_f=0.25, safety_f=0.9, adapt_cutoff=1e-12, minh=1e-300)]
    return c


def estimate(cfg, q, x, e):
    """(accepted, s): the documented decision for one attempt; s is None when the estimate is NaN or infinite"""
    mag = [cabs(z) for z in x]
    m = mx(mag)
    ix = [i for i in range(len(x)) if not m > 0 or (mag[i] / m if m != INF else (NAN if mag[i] == INF else 0.0)) > cfg["adapt_cutoff"]]
    A = 0.0
    E = 0.0
    for i in ix:
        A += cabs(x[i]) ** 2
        E += cabs(e[i]) ** 2
    A, E = (v if v != v else v ** 0.5 for v in (A, E))
    if E == 0 and m == m and m != INF:
        return True, INF
    if E != E or A != A or E == 0 or A == INF:
        return False, None
    if E == INF:
        return False, 0.0
    s = cfg["safety_f"] * (cfg["epsilon"] * A / E) ** (1.0 / q)
    return s >= 1 - 1e-12, s


def errors(cfg, q, x, factors=None):
    out = [] if factors else [list(s) for s in SPECIAL]
    mag = [cabs(z) for z in x]
    m = mx(mag)
    for p in PATTERNS:
        ix = [i for i in range(len(x)) if not m > 0 or m == INF or mag[i] / m > cfg["adapt_cutoff"]]
        A = sum(mag[i] ** 2 for i in ix) ** 0.5
        E = sum(cabs(p[i]) ** 2 for i in ix) ** 0.5
        if not A > 0 or A == INF or E == 0:
            out.append(list(p))
            continue
        crit = cfg["epsilon"] * A * cfg["safety_f"] ** q / E
        for f in factors or FACTORS:
            out.append([z * crit * f for z in p])
    return out


class Snap(IEval):
    """comparisons of numbers equal up to round-off count as comparisons of equal numbers"""

    def cond(self, c):
        if c.kind == "cmp":
            a, b = self.poly(c.args[1]), self.poly(c.args[2])
            if isinstance(a, (int, float)) and isinstance(b, (int, float)) and a == a and b == b and abs(a) != INF and abs(b) != INF:
                if c.args[0] != "eq" and abs(a - b) <= 1e-12 * self.size(c.args[1], c.args[2]):
                    return c.args[0] == "le"
        return super().cond(c)

    def size(self, p, q):
        t = 0.0
        for x in (p, q):
            for (pw, ex), cf in x.t.items():
                try:
                    t = max(t, abs(self.poly(Poly({(pw, ex): cf}))))
                except TypeError:
                    pass
        return t


def env_of(C, cfg, h, xs, es):
    env = {C.cfg[k]: v for k, v in cfg.items()}
    env[NMODES] = 3.0
    env[T.sym("h", real=True, pos=True)] = h
    el = {}
    for i, (x, e) in enumerate(zip(xs, es)):
        el["x.%d" % (i + 1)] = x
        el["e.%d" % (i + 1)] = e
    return Snap(env, el)
