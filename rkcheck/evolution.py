"""evolve() as a transition relation: what one step does to everything that is kept between steps.

The loop over steps is generalised to an arbitrary number of earlier steps; the relation of one more step is extracted
from there and followed from the entry state in floating-point arithmetic, for chosen intervals, step sizes and
sequences of error estimates.  Nothing is executed: what is evaluated are the extracted terms."""
from __future__ import annotations
import random
from .control import *
from .control import numeric
from .values import *
from . import terms as T

T0 = T.sym("t0", real=True)
TF = T.sym("tf", real=True)
H0 = T.sym("h", real=True, pos=True)
FREQ = T.sym("freq", int=True, real=True, pos=True)


def slots(C, H, S, out):
    """symbols of the generalised state H -> (state, value) in S"""
    I = C.I
    seen = set()

    def atom_of(p):
        a = p.atom()
        return a if a is not None and "~" in repr(a) else None

    def val(v, w):
        if isinstance(v, IteV):
            val(v.a, w)
            val(v.b, w)
            return
        if isinstance(v, Num):
            a = atom_of(v.p)
            if a is not None and a.kind == "sym" and not a.args[0].startswith("iter~"):
                out.setdefault(a, (S, w))
        elif isinstance(v, Bool) and v.c.kind == "sym":
            out.setdefault(v.c, (S, w))
        elif isinstance(v, Tup):
            if isinstance(w, Tup) and len(w.items) == len(v.items):
                for x, y in zip(v.items, w.items):
                    val(x, y)
        elif isinstance(v, Ref):
            o = H.heap.get(v.oid)
            if isinstance(o, Arr) and isinstance(o.content, Poly):
                a = o.content.atom()
                if a is not None and a.kind == "elem" and "~" in a.args[0]:
                    out.setdefault("elem:" + a.args[0], (S, w))
            elif isinstance(w, Ref) and isinstance(o, (Inst, ListO)) and v.oid not in seen:
                seen.add(v.oid)
                obj(o, S.heap.get(w.oid))

    def obj(o, w):
        if type(o) is not type(w):
            return
        if isinstance(o, ListO):
            if len(o.items) == len(w.items):
                for x, y in zip(o.items, w.items):
                    if isinstance(x, V):
                        val(x, y)
            return
        d, e = (o.vars, w.vars) if isinstance(o, EnvO) else (o.f, w.f)
        for k, v in d.items():
            # an attribute made in the loop has no value before its first pass
            val(v, e.get(k, UNSET))

    for oid, o in H.heap.items():
        w = S.heap.get(oid)
        if isinstance(o, (EnvO, Inst, ListO)) and o is not w:
            obj(o, w)
        elif isinstance(o, Arr) and o is not w and isinstance(o.content, Poly) and isinstance(w, Arr):
            a = o.content.atom()
            if a is not None and a.kind == "elem" and "~" in a.args[0]:
                out.setdefault("elem:" + a.args[0], (S, w))
    return out


class Run:
    """one step made with a given number of attempts, after any number of earlier steps"""

    def __init__(self, C, n, h, kw):
        self.n = n
        self.ok, self.rs, self.records = C.evolve([n], [Num(P(T0)), Num(P(TF)), h if isinstance(h, V) else Num(P(h))], head=True, **kw)
        self.head = C.head
        if C.head is None:
            return
        self.entry, self.H, self.G = C.head
        self.cont = C.starts.get(2)
        self.into = slots(C, self.H, self.entry, {})
        self.next = slots(C, self.H, self.cont, {}) if self.cont is not None else {}


class Evolution:
    """the extracted relation of one solver class"""

    def __init__(self, R, name, store=True, attempts=(0, 1, 2), h=H0, **more):
        self.h = h
        self.R, self.name, self.store = R, name, store
        self.C = C = Control(R, name, rounded=True, loops=5)
        self.site = "%s %s.evolve" % (C.I.modules[MODS[name]].path, name)
        if not C.adaptive:
            attempts = (0, 1)
        kw = dict(store_data=Bool(TRUE if store else FALSE), store_freq=Num(P(FREQ), "int"), **more)
        self.runs = {n: Run(C, n, h, kw) for n in attempts}
        self.found = all(r.head is not None for r in self.runs.values())

    def base_env(self, cfg, t0, tf, h, freq):
        env = {self.C.cfg[k]: v for k, v in cfg.items()}
        env.update({NMODES: 3.0, T0: t0, TF: tf, FREQ: float(freq)})
        if not isinstance(self.h, V):
            env[self.h] = h
        return env

    def number(self, ev, v):
        """a plain value"""
        while isinstance(v, IteV):
            v = v.a if ev.cond(v.c) else v.b
        if isinstance(v, Bool):
            return ev.cond(v.c)
        if isinstance(v, Num):
            return ev.poly(v.p)
        raise Unknown("%s" % (v,))

    def assign(self, env, elems, sl, ev):
        """values of the generalised symbols from the state they stand for"""
        new, ne = {}, {}
        for a, (S, v) in sl.items():
            try:
                if isinstance(a, str):
                    ne[a[5:]] = self.C.value(S, ev, v)
                else:
                    new[a] = self.number(ev, v)
            except (Unknown, TypeError, KeyError, Undecided):
                pass
        return new, ne


class Trace:
    """what the relation gives for one run: a list of attempts, stored entries, the end"""

    def __init__(self):
        self.attempts, self.t, self.u, self.end, self.result, self.steps, self.why = [], [], [], None, None, 0, None
        self.bad = None


def follow(E, cfg, t0, tf, h, freq, answers, limit=400, first=0):
    """answers(i, u, h, rejected) -> (solution, error) of the i-th attempt; ends with 'returned', a name of an exception, or 'unfinished'"""
    C = E.C
    tr = Trace()
    u0 = [1.0, 0.5, 2.0]
    base = E.base_env(cfg, t0, tf, h, freq)
    # the state before the first step, in every run of the relation
    values = {}
    for n, r in E.runs.items():
        ev = IEval(dict(base), {"u0": u0})
        values[n] = E.assign(base, {}, r.into, ev)
    r0 = E.runs[0]
    # a call that ends before the loop over steps
    ev = IEval(dict(base), {"u0": u0})
    for st, e, w in r0.rs:
        if len(st.path) <= len(r0.entry.path) and holds(ev, numeric(st.path)):
            tr.end = C.names(st, e)[0]
            return tr
    try:
        if not holds(ev, numeric(r0.entry.path)):
            for st, e, w in r0.rs:
                if holds(ev, numeric(st.path)):
                    tr.end = C.names(st, e)[0]
                    return tr
            tr.end = "before the loop"
            return tr
    except Unknown:
        raise
    lists(E, tr, r0.entry, ev)
    n_att = 0
    for step in range(first, first + limit + 1):
        def evalr(n, xs=(), es=()):
            r = E.runs[n]
            env = dict(base)
            env.update(values[n][0])
            env[r.G.kappa] = float(step)
            el = {"u0": u0}
            for nm, kept in (("t", tr.t), ("u", tr.u)):
                a, last = C.length_at(r.H, nm)
                if last is not None and kept and not (first and E.store and first // freq and len(kept) <= 1):
                    if isinstance(kept[-1], (list, tuple)):
                        el[last] = kept[-1]
                    else:
                        env[T.sym(last)] = kept[-1]
                if a is not None:
                    # the entries made in the passes left out are those the property asks for
                    env[a] = float(len(kept) + (first // freq if E.store else 0))
            el.update(values[n][1])
            for i, (x, e) in enumerate(zip(xs, es)):
                el["x.%d" % (i + 1)] = x
                el["e.%d" % (i + 1)] = e
            return IEval(env, el)
        # does it end here?
        ev = evalr(0)
        for st, v in r0.ok:
            if holds(ev, numeric(st.path)):
                lists(E, tr, st, ev)
                tr.end, tr.result, tr.steps = "returned", C.value(st, ev, v), step
                return tr
        for st, e, w in r0.rs:
            if holds(ev, numeric(st.path)):
                tr.end, tr.steps, tr.why = C.names(st, e)[0], step, w
                return tr
        if step == first + limit:
            tr.end, tr.steps = "unfinished", step
            return tr
        xs, es = [], []
        done = False
        for n in sorted(k for k in E.runs if k):
            r = E.runs[n]
            rec = [q for q in r.records if q.p == 1 and q.k == n]
            ev = evalr(n, xs, es)
            rec = [q for q in rec if holds(ev, numeric(q.st.path))]
            if not rec:
                # the attempt before was the last one, or the step failed
                for st, e, w in r.rs:
                    if C.num(st) == n - 1 and holds(ev, numeric(st.path)):
                        tr.end, tr.steps, tr.why = C.names(st, e)[0], step, w
                        return tr
                tr.end, tr.steps = "lost", step
                return tr
            q = rec[0]
            uu, hh = C.value(q.st, ev, q.u), C.value(q.st, ev, q.h)
            x, e = answers(n_att, uu, hh, n - 1)
            n_att += 1
            tr.attempts.append((step, uu, hh, x, e))
            xs, es = xs + [x], es + [e]
            ev = evalr(n, xs, es)
            # accepted, and on to the next step
            if r.cont is not None and holds(ev, numeric(r.cont.path)):
                lists(E, tr, r.cont, ev)
                values_n = {}
                suggestion(E, tr, r.cont, ev)
                nv = E.assign(ev.env, ev.elems, r.next, ev)
                # carry the values over to the other runs by position
                for m, r2 in E.runs.items():
                    values_n[m] = carry(r, r2, nv, values[m])
                values = values_n
                done = True
                break
            for st, v in r.ok:
                if holds(ev, numeric(st.path)):
                    lists(E, tr, st, ev)
                    suggestion(E, tr, st, ev)
                    tr.end, tr.result, tr.steps = "returned", C.value(st, ev, v), step + 1
                    return tr
            for st, e2, w in r.rs:
                if C.num(st) == n and holds(ev, numeric(st.path)):
                    tr.end, tr.steps, tr.why = C.names(st, e2)[0], step, w
                    return tr
        if not done:
            tr.end, tr.steps = "rejected", step
            return tr
    return tr


def suggestion(E, tr, st, ev):
    """what step() returned"""
    rets = E.C.returned(st)
    if rets and E.C.adaptive:
        v = E.C.I.pick(st, rets[-1])
        if isinstance(v, Tup) and len(v.items) == 3:
            tr.attempts[-1] += (E.number(ev, v.items[1]), E.number(ev, v.items[2]))


def lists(E, tr, st, ev):
    for x in E.C.listing(st, ev, "t"):
        tr.t.append(E.C.value(st, ev, x))
    for x in E.C.listing(st, ev, "u"):
        tr.u.append(E.C.value(st, ev, x))


def carry(r, r2, nv, old):
    """symbols of two runs correspond by their order"""
    if r is r2:
        return nv
    a, b = list(r.into), list(r2.into)
    if len(a) != len(b):
        raise Unknown("states differ between runs")
    new, ne = {}, {}
    for x, y in zip(a, b):
        if isinstance(x, str):
            if x[5:] in nv[1]:
                ne[y[5:]] = nv[1][x[5:]]
        elif x in nv[0]:
            new[y] = nv[0][x]
    return new, ne


# ------------------------------------------------------------------------------------------ sample runs
def policy(cfg, q, factors, x0=0.0):
    """error estimates relative to the acceptance limit; after a rejection the next attempt is accepted"""
    h0 = []

    def ans(i, u, h, rejected):
        x = [1.0 + 0.25 * i + x0, 0.5, 2.0 - 0.125 * i]
        f = factors[i % len(factors)]
        if i == 0:
            h0[:] = [h]
        if h < 1e-3 * h0[0]:
            f = 0.01  # the error vanishes with the step size
        if rejected and not f < 1:
            f = 0.5
        if q is None:
            return x, None
        if f != f or f in (INF, -INF):
            return x, [f, 0.0, 0.0]
        m = max(abs(z) for z in x)
        ix = [j for j in range(3) if abs(x[j]) / m > cfg["adapt_cutoff"]]
        A = sum(x[j] ** 2 for j in ix) ** 0.5
        crit = cfg["epsilon"] * A * cfg["safety_f"] ** q
        e = [0.0, 0.0, 0.0]
        e[max(ix, key=lambda j: abs(x[j]))] = crit * f
        return x, e
    return ans


POLICIES = {
    "no error": [0.0],
    "steady": [0.9],
    "growing": [0.2],
    "mixed": [0.9, 1.5, 0.3, 0.0, NAN, 0.0, 40.0, 0.01],
    "rejections": [3.0, 0.01],
}


def intervals(deep=False):
    """(t0, tf, h)"""
    out = [(0.0, 1.0, 0.01), (0.0, 1.0, 0.3), (-1.0, 0.1, 2.0), (-1.609696124386635, 0.8687388683630586, 0.9520228193453552),
           (0.0, 1.0, 1.0), (2.0, 3.0, 0.25), (-3.0, -1.0, 0.1), (-1.0, 0.0, 0.07), (1e8, 1e8 + 3.0, 0.7), (0.0, 1e-9, 1e-10), (5.0, 5.0 + 1e-14, 1e-15)]
    rng = random.Random(7)
    for _ in range(400 if deep else 60):
        t0 = rng.uniform(-3, 3)
        out.append((t0, t0 + rng.uniform(0.1, 3), rng.uniform(0.05, 2)))
    return out


HISTORIES = {
    "far below the limit every time": [1e-9],
    "exact every time": [0.0],
    "just accepted every time": [0.97],
    "far below the limit, rejected, just accepted": [1e-9, 3.0, 0.4, 0.97],
    "rejected once in every step": [40.0, 0.5],
    "NaN once in every step": [NAN, 1e-9],
    "slow, then fast": [0.9] * 7 + [1e-9] * 6,
    "small growth every time": [0.3],
    "many accepted, then missed by far": [0.9] * 9 + [1e12, 0.5, 1e-12],
    "many accepted, then missed by little": [0.9] * 9 + [1.002, 0.9, 1.05],
    "missed by little from the start": [1.002, 0.9, 1.05, 0.97, 1.2],
}


def histories(E, cfgs, limit=16):
    """(what, configuration, list of attempts [(step, state, size, solution, error, accepted, suggestion or None)]) of many steps after each other"""
    q = int(E.C.q)
    for cfg in cfgs:
        for what, f in HISTORIES.items():
            tr = follow(E, cfg, 0.0, 1e6, 1e-5, 1, policy(cfg, q, f), limit)
            yield what, cfg, [a[:5] + (len(a) > 5, a[6] if len(a) > 5 else None) for a in tr.attempts], tr
