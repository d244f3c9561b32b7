"""Functions without memory: a call gives the same result whatever was called before, and whatever its caller did with earlier arguments and results."""
from __future__ import annotations
from .client import *
from .evalf import same_on, all_conds
from .values import Arr
from . import terms as T

SRC = """
def clobber(x):
    x[...] = x * 0 + 7
def assign(x, y):
    x[...] = y
def compose(f, args, g):
    return g(*f(*args))
"""


def flat(st, v):
    """numbers, arrays and other leaves of a result"""
    if isinstance(v, Tup):
        return [y for x in v.items for y in flat(st, x)]
    if isinstance(v, Ref) and isinstance(st.heap.get(v.oid), ListO):
        o = st.heap[v.oid]
        if o.sym is None and o.prefix is None:
            return [y for x in o.items for y in flat(st, x)]
    return [v]


def agree(got, want, envs, foreign):
    """(True/False/None, detail): the same function; a choice that looks at data of the other call is taken both ways"""
    if got is want:
        return True, "identical"
    try:
        if T.equal(got, want):
            return True, "equal by cases"
    except Exception:
        pass
    if T.uncertain(got):
        return None, "not interpreted"
    r, d = same_on(got, want, envs)
    if r is not True:
        return r, d
    for c in sorted({l for x in all_conds(got) for l in T.literals(x)}, key=repr):
        if not any(foreign(a) for a in T.deps(c)):
            continue
        for val in (True, False):
            alias = None
            if val and c.kind == "cmp" and c.args[0] == "eq":
                alias = equated(c)
                if alias is None:
                    continue
                g = got
            else:
                g = T.assume(got, c, val)
            r, d = same_on(g, want, envs, alias=alias)
            if r is False:
                return False, "when %s is %s: %s" % (c, val, d)
            if r is None:
                return None, d
    return True, "agree at %d points" % len(envs)


def equated(c):
    """{name: name} when an equality says that one array (or symbol) has the values of another, index by index"""
    t = list((c.args[1] - c.args[2]).t.items())
    if len(t) != 2 or any(len(k[0]) != 1 or k[0][0][1] != 1 or k[1] for k, v in t if isinstance(k, tuple) and len(k) == 2) or t[0][1] + t[1][1] != 0:
        return None
    try:
        a, b = (k[0][0][0] for k, v in t)
    except (TypeError, IndexError):
        return None
    if a.kind != b.kind or a.kind not in ("elem", "sym") or a.args[1:] != b.args[1:]:
        return None
    if a.kind == "elem" and all(isinstance(x, T.Poly) and x.const() is not None for x in a.args[1]):
        return {(a.args[0], repr(a.args[1])): b.args[0]}
    if a.kind == "elem" and len({x.atom() for x in a.args[1] if isinstance(x, T.Poly) and x.atom() is not None and x.atom().kind == "idx"}) < len(a.args[1]):
        return None
    return {a.args[0]: b.args[0]}


def same(R, rule, con, I, s1, v1, s2, v2, envs, foreign=lambda a: False):
    a, b = flat(s1, I.pick(s1, v1)), flat(s2, I.pick(s2, v2))
    if len(a) != len(b):
        return R.verdict(None if any(isinstance(x, (Opaque, IteV)) for x in a) else False, rule, con, "%d values instead of %d" % (len(a), len(b)))
    for k, (x, y) in enumerate(zip(a, b)):
        x, y = (z if not isinstance(z, (IteV, Num)) else as_value(I, s, z) for s, z in ((s1, x), (s2, y)))
        o = [s.heap.get(z.oid) if isinstance(z, Ref) else z for s, z in ((s1, x), (s2, y))]
        if all(isinstance(z, (Arr, Num)) for z in o):
            if isinstance(o[0], Arr) != isinstance(o[1], Arr) or isinstance(o[0], Arr) and len(o[0].axes) != len(o[1].axes):
                return R.viol(rule, con, "value %d has another number of axes" % k)
            pairs = [(o[0].p, o[1].p)] if isinstance(o[0], Num) else [(p[0], q[0]) for p, q in zip(o[0].axes, o[1].axes)] + [(o[0].content, o[1].content)]
            for g, w in pairs:
                if isinstance(g, T.Cond) or isinstance(w, T.Cond):
                    g, w = (T.ite(z, T.ONE, T.ZERO) if isinstance(z, T.Cond) else z for z in (g, w))
                r, d = agree(g, w, envs, foreign)
                if r is not True:
                    return R.verdict(r, rule, con, "value %d: %s" % (k, d))
        elif o[0] != o[1] and not (isinstance(o[0], Func) and isinstance(o[1], Func)):
            return R.verdict(None if any(isinstance(z, (Opaque, IteV)) for z in o) else False, rule, con, "value %d is %r instead of %r" % (k, x, y))
    R.ok(rule, con)


def as_value(I, st, z):
    from .arrays import as_arr
    w = as_arr(I, st, z)
    return w if w is not None else z


def deep_refs(st, v):
    return [r for x in flat(st, v) for r in refs(x) if isinstance(st.heap.get(r.oid), Arr)]


def data(I, st, args):
    """recognises the atoms that stand for the data of these arguments"""
    names = set()
    for a in args:
        o = st.heap.get(a.oid) if isinstance(a, Ref) else a
        p = o.content if isinstance(o, Arr) else o.p if isinstance(o, Num) else None
        if p is not None:
            names |= {x.args[0] if x.kind == "elem" else x for x in T.deps(p) if x.kind in ("elem", "sym")}
    return lambda x: (x.args[0] if x.kind == "elem" else x) in names


def pure(R, rule, con, C, st, f, A, B, envs, writable=True):
    """three histories of f(*A); B are other arguments of the same kinds"""
    I = C.I
    if "scribble" not in I.modules:
        I.load_source("scribble", SRC)
    clobber, assign = I.glob("scribble", "clobber"), I.glob("scribble", "assign")

    def call(s, args):
        ok, ex = C.run(s.fork(), f, *args)
        return ok
    foreign, own = data(I, st, B), data(I, st, A)
    ref = call(st, A)
    other = call(st, B)
    if ref is None or other is None:
        return R.unk(rule, con, "no outcome")
    # after a call with other arguments
    ok = call(other[0], A)
    c = con + ", after a call with other arguments"
    if ok is None:
        R.verdict(False, rule, c, "raises")
    else:
        same(R, rule, c, I, ok[0], ok[1], ref[0], ref[1], envs, foreign)
    # after the result was overwritten
    mine = deep_refs(ref[0], ref[1])
    args = {r.oid for a in A for r in refs(a)}
    if writable and mine and not any(r.oid in args for r in mine):
        s = ref[0].fork()
        c = con + ", after its earlier result was overwritten"
        for r in mine:
            ok, ex = C.run(s, clobber, r)
            if ok is None:
                s = None  # read-only results
                break
            s = ok[0]
        if s is not None:
            ok = call(s, A)
            if ok is None:
                R.verdict(False, rule, c, "raises")
            else:
                same(R, rule, c, I, ok[0], ok[1], ref[0], ref[1], envs, foreign)
    # after the arguments were changed in place
    pairs = [(a, b) for a, b in zip(A, B) if isinstance(a, Ref) and isinstance(st.heap.get(a.oid), Arr)]
    if pairs:
        s = ref[0].fork()
        c = con + ", after its arguments were changed in place"
        for a, b in pairs:
            ok, ex = C.run(s, assign, a, b)
            if ok is None:
                return R.unk(rule, c, "the arguments cannot be changed")
            s = ok[0]
        rest = [a if isinstance(a, Ref) and isinstance(st.heap.get(a.oid), Arr) else b for a, b in zip(A, B)]
        ok = call(s, rest)
        if ok is None:
            R.verdict(False, rule, c, "raises")
        else:
            same(R, rule, c, I, ok[0], ok[1], other[0], other[1], envs, lambda a: foreign(a) or own(a))
