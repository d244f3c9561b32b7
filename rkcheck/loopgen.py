"""Generalisation of loop states (used by loops.general)."""
from __future__ import annotations
from .terms import *
from .terms import P, SYMATTR
from . import terms as T
from .values import *
from .arrays import LAM, free_idx
from .liveness import dead_at
from .interp import State, Dead, Undecided, UNSET, CondItem, has_unset


# ------------------------------------------------------------------------------------------ locations
def diff_locs(H, B):
    """locations of objects of H that hold something else in B"""
    out = []
    for o, a in H.heap.items():
        b = B.heap.get(o)
        if b is None or b is a:
            continue
        if isinstance(a, Inst):
            for k in list(a.f) + [k for k in b.f if k not in a.f]:
                x, y = a.f.get(k, UNSET), b.f.get(k, UNSET)
                if x is not y and x != y:
                    out.append((o, "f", k))
        elif isinstance(a, EnvO):
            for k in list(a.vars) + [k for k in b.vars if k not in a.vars]:
                x, y = a.vars.get(k, UNSET), b.vars.get(k, UNSET)
                if x is not y and x != y:
                    out.append((o, "v", k))
        elif isinstance(a, DictO):
            for k in list(a.d) + [k for k in b.d if k not in a.d]:
                x, y = a.d.get(k, UNSET), b.d.get(k, UNSET)
                if x is not y and x != y:
                    out.append((o, "d", k))
        elif not objs_equal(a, b):
            out.append((o, "o", None))
    return out


def get_loc(st, loc):
    o = st.heap[loc[0]]
    if loc[1] == "f":
        return o.f.get(loc[2], UNSET)
    if loc[1] == "v":
        return o.vars.get(loc[2], UNSET)
    if loc[1] == "d":
        return o.d.get(loc[2], UNSET)
    return o


def set_loc(st, loc, v):
    o = st.heap[loc[0]]
    if loc[1] == "f":
        f = dict(o.f)
        f[loc[2]] = v
        if v is UNSET:
            del f[loc[2]]
        st.heap[loc[0]] = Inst(o.cls, f)
    elif loc[1] == "v":
        f = dict(o.vars)
        f[loc[2]] = v
        if v is UNSET:
            del f[loc[2]]
        st.heap[loc[0]] = replace(o, vars=f)
    elif loc[1] == "d":
        f = dict(o.d)
        f[loc[2]] = v
        st.heap[loc[0]] = DictO(f)
    else:
        st.heap[loc[0]] = v


def counter():
    return next(T._fresh)


def fresh_after(x, mark):
    """does the term mention a symbol invented after the mark?"""
    for a in T.deps(x):
        nm = a.args[0] if a.kind in ("sym", "elem") else None
        if isinstance(nm, str) and "~" in nm:
            try:
                if int(nm.rsplit("~", 1)[1]) > mark:
                    return True
            except ValueError:
                return True
        if a.kind == "app" and isinstance(a.args[0], str) and a.args[0].startswith(("opq:", "bad:")):
            c = a.args[1][0].const() if isinstance(a.args[1][0], Poly) else None
            if c is None or c > mark:
                return True
    return False


# ------------------------------------------------------------------------------------------ scalar slots
def last_kind(st, o):
    """what the entries of a list look like"""
    for x in reversed(o.items):
        if isinstance(x, CondItem):
            for y in reversed(x.items):
                return value_kind(st, y)
            continue
        return value_kind(st, x)
    if o.prefix is not None and len(o.prefix) > 2:
        return o.prefix[2]
    return None


def value_kind(st, v):
    if isinstance(v, Num):
        return ("num", v.ty)
    a = st.heap.get(v.oid) if isinstance(v, Ref) else None
    if isinstance(a, Arr) and a.rep == "idx" and isinstance(a.content, Poly):
        return ("arr", tuple(a.axes), a.dtype)
    return None



class Slot:
    """one generalised number (or array content): entry value, symbol standing for it at the loop head, form found"""
    scatter = False

    def __init__(self, entry, sym, ty, kind):
        self.entry, self.sym, self.ty, self.kind = entry, sym, ty, kind
        self.form = None        # expression of kappa replacing the symbol
        self.accum = None       # x + g(kappa)
        self.back = None

    def value(self):
        return self.form if self.form is not None else self.sym


class Class:
    """locations that hold equal values at the head of every iteration"""

    def __init__(self, locs, entry):
        self.locs, self.entry = list(locs), entry
        self.gen = None
        self.slots = []
        self.back = None
        self.phantoms = []
        self.growth = None
        self.unrep = None


class Gen:
    def __init__(self, I, st, node, forn):
        self.I, self.node, self.forn = I, node, forn
        self.entry = State(dict(st.heap), st.path)
        self.kappa = T.fresh("iter", int=True, real=True, nonneg=True)
        self.k = P(self.kappa)
        self.classes = []
        self.invs = []
        self.cands = None
        self.mark = counter()
        self.mark0 = self.mark
        self.dead = set()

    # ------------------------------------------------------------------ generalised values
    def gen_value(self, C, e, b, st, hint):
        """a value that stands for e at entry and for b at a back edge"""
        if isinstance(e, Num) and isinstance(b, Num):
            ty = promote(e.ty, b.ty)
            s = T.fresh(hint, **self.attrs(ty, e.p, b.p))
            sl = Slot(e.p, P(s), ty, "num")
            C.slots.append(sl)
            return Num(sl.sym, ty)
        if isinstance(e, Bool) and isinstance(b, Bool):
            return Bool(T.Cond("sym", "%s~%d" % (hint, counter())))
        if isinstance(e, Ref) and isinstance(b, Ref):
            eo, bo = self.entry.heap.get(e.oid), st.heap[b.oid]
            if e.oid == b.oid:
                return e
            if isinstance(eo, Arr) and isinstance(bo, Arr):
                a = self.gen_arr(C, eo, bo, hint)
                a = replace(a, origins=frozenset({e.oid}), base=None, owner="loop")
                oid = next(self.I.oid)
                C.phantoms.append((oid, a))
                return Ref(oid)
            if isinstance(eo, ListO) and isinstance(bo, ListO):
                oid = next(self.I.oid)
                C.phantoms.append((oid, ListO((), ("loop", counter(), last_kind(st, bo) or last_kind(self.entry, eo)), None, eo.kind)))
                return Ref(oid)
            if isinstance(eo, Inst) and isinstance(bo, Inst) and eo.cls is bo.cls:
                oid = next(self.I.oid)
                f = {}
                for k in eo.f:
                    x, y = eo.f[k], bo.f.get(k, UNSET)
                    f[k] = x if x is y or x == y else self.gen_value(C, x, y, st, "%s.%s" % (hint, k))
                C.phantoms.append((oid, Inst(eo.cls, f)))
                return Ref(oid)
        if isinstance(e, Tup) and isinstance(b, Tup) and len(e.items) == len(b.items):
            return Tup(tuple(x if x is y or x == y else self.gen_value(C, x, y, st, hint) for x, y in zip(e.items, b.items)), e.cls)
        if isinstance(e, Str) and isinstance(b, Str):
            return Str(("loop", counter()))
        if isinstance(b, IteV):
            alts = [v for v in leaves(b) if not (isinstance(v, Opaque) and v is UNSET)]
            if any(isinstance(v, type(e)) for v in alts):
                k = [v for v in alts if isinstance(v, type(e))]
                if len(k) == len(alts):
                    if all(isinstance(v, Ref) and isinstance(st.heap[v.oid], Arr) for v in k):
                        from .arrays import as_arr
                        m = as_arr(self.I, st, b)
                        if isinstance(m, Arr):
                            return self.gen_value(C, e, self.I.new(st, m), st, hint)
                    return self.gen_value(C, e, k[0], st, hint)
        if e == b or e is b:
            return e
        if isinstance(e, (Func, Cls, Ext, Bound, Mod)) or isinstance(b, (Func, Cls, Ext, Bound, Mod)):
            raise Undecided("a loop rebinds a function at %s" % self.I.site(self.node))
        if isinstance(e, Num) and isinstance(b, Ref) and b.oid not in self.entry.heap and isinstance(st.heap[b.oid], Arr):
            # a number that is broadcast on the first pass
            bo = st.heap[b.oid]
            if not isinstance(bo.content, Cond) and (bo.rep != "op" or e.p is ZERO):
                a = self.gen_arr(C, replace(bo, content=e.p, dtype=e.ty), bo, hint)
                oid = next(self.I.oid)
                C.phantoms.append((oid, replace(a, origins=frozenset(), base=None, owner="loop")))
                return Ref(oid)
        # different kinds: the entry value on the first iteration, afterwards a value like b
        n0 = len(C.slots)
        g = self.gen_value(C, b, b, st, hint) if not isinstance(b, Ref) else self.gen_like(C, b, st, hint)
        for sl in C.slots[n0:]:
            sl.entry = None
        return self.I.mval(mk_cmp("eq", self.k, ZERO), e, g)

    def gen_like(self, C, b, st, hint):
        bo = st.heap[b.oid]
        if b.oid in self.entry.heap:
            return b
        if isinstance(bo, Arr):
            a = self.gen_arr(C, bo, bo, hint)
            oid = next(self.I.oid)
            C.phantoms.append((oid, replace(a, base=None, owner="loop")))
            return Ref(oid)
        if isinstance(bo, ListO):
            oid = next(self.I.oid)
            C.phantoms.append((oid, ListO((), ("loop", counter(), last_kind(st, bo)), None, bo.kind)))
            return Ref(oid)
        if isinstance(bo, Inst):
            oid = next(self.I.oid)
            f = {k: self.gen_value(C, v, v, st, hint) if isinstance(v, (Num, Bool, Str, Tup)) else self.gen_like(C, v, st, hint) if isinstance(v, Ref) else v for k, v in bo.f.items()}
            C.phantoms.append((oid, Inst(bo.cls, f)))
            return Ref(oid)
        raise Undecided("cannot generalise a %s over a loop" % type(bo).__name__)

    def attrs(self, ty, *ps):
        d = {}
        if ty in ("int", "float", "bool"):
            d["real"] = True
        if ty in ("int", "bool"):
            d["int"] = True
        if ty not in ("int", "bool") and any(T.maybe_nan(p) for p in ps if isinstance(p, Poly)):
            d["nan"] = True
        return d

    def gen_arr(self, C, eo, bo, hint):
        I = self.I
        axes = eo.axes
        if len(eo.axes) != len(bo.axes) or any(x[0] is not y[0] and I.decide(self.entry, mk_cmp("eq", x[0], y[0])) is not True for x, y in zip(eo.axes, bo.axes)):
            raise Undecided("array changes shape in a loop at %s" % I.site(self.node))
        rep, space = bo.rep, bo.space or eo.space
        dt = promote(eo.dtype, bo.dtype)
        nm = "%s~%d" % (hint, counter())
        if isinstance(bo.content, Cond) or isinstance(eo.content, Cond):
            return Arr(T.Cond("app", "elem:" + nm, tuple(P(idx(i)) for i in range(len(axes)))), axes, dt, rep, space)
        if rep == "op":
            c = P(Atom("app", "opgen:" + nm, (P(LAM),)))
        else:
            c = P(Atom("elem", nm, tuple(P(idx(i)) for i in range(len(axes)))))
        sl = Slot(eo.content, c, dt, "arr")
        C.slots.append(sl)
        return Arr(c, axes, dt, rep, space)

    def gen_obj(self, C, eo, bo, st, hint):
        """in-place changes"""
        if isinstance(eo, Arr) and isinstance(bo, Arr):
            a = self.gen_arr(C, eo, bo, hint)
            return replace(a, owner=eo.owner, base=eo.base, origins=eo.origins)
        if isinstance(eo, ListO) and isinstance(bo, ListO):
            n = len(eo.items)
            if eo.prefix is None and eo.sym is None and bo.prefix is None and bo.sym is None and len(bo.items) == n and not any(isinstance(x, CondItem) for x in bo.items + eo.items):
                return ListO(tuple(x if x is y or x == y else self.gen_value(C, x, y, st, hint) for x, y in zip(eo.items, bo.items)), None, None, eo.kind)
            return ListO((), ("loop", counter(), last_kind(st, bo) or last_kind(self.entry, eo)), None, eo.kind)
        raise Undecided("cannot generalise a %s over a loop at %s" % (type(eo).__name__, self.I.site(self.node)))

    # ------------------------------------------------------------------ heads and exits
    def forms(self, n=None):
        m = {}
        for C in self.classes:
            for sl in C.slots:
                f = sl.form
                if n is not None and sl.accum is not None:
                    f = self.partial(sl, n)
                elif n is not None and f is not None:
                    f = T.subst(f, {self.kappa: n})
                if f is not None:
                    m[sl.sym.atom()] = f
        return m

    def partial(self, sl, n):
        from .np_reduce import sum_axis
        b = idx(9)
        return sl.entry + sum_axis(self.I, self.entry, T.subst(sl.accum, {self.kappa: P(b)}), 9, (n, None))

    def head(self, extra=None, n=None):
        st = self.head_(extra, n)
        for loc in self.dead:
            if get_loc(st, loc) is not UNSET:
                set_loc(st, loc, UNSET)
        return st

    def head_(self, extra=None, n=None):
        e = self.entry
        kk = self.k if n is None else n
        path = e.path
        if n is None:
            path += (mk_cmp("le", ZERO, self.k),) if mk_cmp("le", ZERO, self.k) is not TRUE else ()
        st = State(dict(e.heap), path)
        m = self.forms(n)
        if n is not None:
            m = dict(m)
            m[self.kappa] = n
        for c in self.invs:
            c = T.subst(c, m)
            if c is not TRUE:
                st.path = st.path + (c,)
        for C in self.classes:
            for oid, o in C.phantoms:
                st.heap[oid] = _object(self, o, m)
        for C in self.classes:
            for loc in C.locs:
                if loc[1] == "o":
                    g = C.gen
                    if n is not None and isinstance(g, ListO) and g.prefix is not None and C.growth is not None and not C.entry.items and C.entry.prefix is None and C.entry.sym is None and len(C.growth) == 1 and not isinstance(C.growth[0], CondItem):
                        it = T.fresh("it", int=True, real=True, nonneg=True)
                        from .ops import subst_val
                        hv = C.growth[0]
                        if isinstance(hv, Ref):
                            o = self.back.heap[hv.oid]
                            if isinstance(o, Arr):
                                oid = next(self.I.oid)
                                st.heap[oid] = replace(o, content=T.subst(o.content, {self.kappa: P(it)}), base=None)
                                hv = Ref(oid)
                        else:
                            hv = _value(self, hv, {self.kappa: P(it)})
                        st.heap[loc[0]] = ListO((), None, Seq(hv, it, n), g.kind)
                    else:
                        st.heap[loc[0]] = _object(self, g, m)
                else:
                    set_loc(st, loc, _value(self, C.gen, m))
        return st

    def exit_state(self, n):
        return self.head(None, n)

    # ------------------------------------------------------------------ solving
    def run(self, fr, test, body, bodyk):
        from .loops import run_body, quiet
        I = self.I
        H = self.head()
        self.mark = counter()
        with quiet(I, fr):
            bs = H.fork()
            try:
                if self.forn is None:
                    c = I.cond(bs, self.node.test, fr)
                    I.assume(bs, c)
                    self.test = c
                    B, _ = run_body(I, bs, fr, body)
                else:
                    I.assume(bs, mk_cmp("lt", self.k, self.forn))
                    B, _ = run_body(I, bs, fr, lambda s: bodyk(s, self.k))
            except Dead:
                B = None
        self.back = B
        return H, B

    def solve(self, fr, test, body, bodyk):
        self.stabilise(fr, test, body, bodyk)
        if self.back is not None:
            self.invariants(fr, test, body, bodyk)

    def stabilise(self, fr, test, body, bodyk):
        I = self.I
        for rnd in range(40):
            H, B = self.run(fr, test, body, bodyk)
            if B is None:
                return
            known = {loc for C in self.classes for loc in C.locs}
            oids = {o for C in self.classes for o, _ in C.phantoms}
            changed = False
            # new locations
            new = [loc for loc in diff_locs(H, B) if loc not in known and loc[0] not in oids and loc not in self.dead]
            dead = dead_at(fr.node, self.node, [loc[2] for loc in new if loc[0] == fr.env and loc[1] == "v"])
            if dead:
                # bound again before it is read: no value is carried over
                self.dead |= {loc for loc in new if loc[0] == fr.env and loc[1] == "v" and loc[2] in dead}
                new = [loc for loc in new if loc not in self.dead]
                changed = True
            if new:
                groups = []
                for loc in new:
                    e, b = get_loc(self.entry, loc), get_loc(B, loc)
                    for g in groups:
                        if loc[1] != "o" and same(g[1], e) and same(g[2], b):
                            g[0].append(loc)
                            break
                    else:
                        groups.append(([loc], e, b))
                for locs, e, b in groups:
                    host = None
                    if locs[0][1] != "o":
                        for C in self.classes:
                            if C.locs[0][1] != "o" and same(C.entry, e) and same(get_loc(B, C.locs[0]), b):
                                host = C
                    if host is not None:
                        host.locs += locs
                        continue
                    C = Class(locs, e)
                    self.regen(C, b, B)
                    self.classes.append(C)
                changed = True
            # refinement
            for C in list(self.classes):
                if len(C.locs) > 1:
                    parts = []
                    for loc in C.locs:
                        b = get_loc(B, loc)
                        for p in parts:
                            if same(p[1], b):
                                p[0].append(loc)
                                break
                        else:
                            parts.append(([loc], b))
                    if len(parts) > 1:
                        changed = True
                        self.classes.remove(C)
                        for locs, b in parts:
                            D = Class(locs, C.entry)
                            self.regen(D, b, B)
                            self.classes.append(D)
            if changed:
                continue
            # instances
            backs = {}
            for C in self.classes:
                b = get_loc(B, C.locs[0])
                f = _collect_obj if C.locs[0][1] == "o" else _collect
                if not f(self, C, C.gen, b, B, backs):
                    C.tries = getattr(C, "tries", 0) + 1
                    if C.tries == 2 and C.locs[0][1] != "o" and self.widen(C, b):
                        changed = True
                        continue
                    if C.tries > 3:
                        raise Undecided("cannot generalise %r over the loop at %s: %r does not cover %r" % (C.locs[0][2], I.site(self.node), C.gen, b))
                    self.regen(C, b, B)
                    changed = True
            if changed:
                continue
            # NaN-ness
            for sl, b in backs.items():
                a = sl.sym.atom()
                if a.kind == "sym" and sl.form is None and T.maybe_nan(b) and not SYMATTR.get(a.args[0], {}).get("nan"):
                    nm = T.fresh("gen", **{**SYMATTR.get(a.args[0], {}), "nan": True})
                    old = sl.sym
                    sl.sym = P(nm)
                    for C in self.classes:
                        if sl in C.slots:
                            C.gen = _value(self, C.gen, {a: sl.sym})
                            C.phantoms = [(o, _object(self, x, {a: sl.sym})) for o, x in C.phantoms]
                    changed = True
            if changed:
                continue
            if self.derive(backs):
                continue
            self.backs = backs
            return
        raise Undecided("loop at %s does not stabilise" % I.site(self.node))

    def widen(self, C, b):
        """None or some number: keep only that"""
        ls = leaves(C.entry) + leaves(b)
        nums = [v for v in ls if isinstance(v, Num)]
        if not nums or not all(isinstance(v, (Num, NoneV)) for v in ls):
            return False
        ty = nums[0].ty
        for v in nums:
            ty = promote(ty, v.ty)
        hint = str(C.locs[0][2] or "obj")
        C.slots, C.phantoms = [], []
        s = T.fresh(hint, **self.attrs(ty, *[v.p for v in nums]))
        C.wide = (ty, bool(SYMATTR.get(s.args[0], {}).get("nan")))
        C.gen = Num(P(s), ty)
        if len(nums) < len(ls):
            C.gen = IteV(T.Cond("sym", "none~%d" % counter()), NONE, C.gen)
        return True

    def regen(self, C, b, B):
        hint = str(C.locs[0][2] or "obj")
        if getattr(C, "wide", None) is not None and self.widen(C, b):
            return
        C.slots, C.phantoms = [], []
        if C.locs[0][1] == "o":
            C.gen = self.gen_obj(C, C.entry, b, B, hint)
        else:
            C.gen = self.gen_value(C, C.entry, b, B, hint)

    def derive(self, backs):
        """express slots as functions of the iteration count"""
        gens = {sl.sym.atom() for C in self.classes for sl in C.slots if sl.form is None}
        csyms = set()
        for C in self.classes:
            vals = [C.gen] if not isinstance(C.gen, (ListO, Arr)) else []
            for v in vals:
                if isinstance(v, Bool):
                    csyms |= T.deps(v.c)
        changed = False
        for sl, b in backs.items():
            if sl.form is not None:
                want = T.subst(sl.form, {self.kappa: self.k + 1}) if sl.accum is None else sl.form + sl.accum
                want = T.assume(want, mk_cmp("eq", self.k + 1, ZERO), False)
                if want is not b and not T.equal(want, b):
                    raise Undecided("induction form lost at %s: %r, %r, %r" % (self.I.site(self.node), sl.form, want, b))
                continue
            if not isinstance(b, Poly) or not (sl.entry is None or isinstance(sl.entry, Poly)):
                continue
            x = sl.sym
            d = b - x

            def free(p):
                dd = T.deps(p)
                return not (dd & gens) and not (dd & csyms) and not fresh_after(p, self.mark)
            if sl.entry is not None and free(d):
                if self.kappa not in d.deps:
                    sl.form = sl.entry + d * self.k
                else:
                    sl.accum = d
                    sl.form = self.partial(sl, self.k)
                changed = True
            elif free(b):
                f = T.subst(b, {self.kappa: self.k - 1})
                e0 = T.subst(f, {self.kappa: ZERO})
                sl.form = f if sl.entry is None or e0 is sl.entry or T.equal(e0, sl.entry) else T.ite(mk_cmp("eq", self.k, ZERO), sl.entry, f)
                changed = True
            elif sl.kind == "arr" and sl.entry is not None:
                hit = mk_cmp("eq", P(idx(0)), self.k)
                v1, v2 = T.assume(b, hit, True), T.assume(b, hit, False)
                if v2 is x and free(v1):
                    sl.form = T.ite(mk_cmp("lt", P(idx(0)), self.k), T.subst(v1, {self.kappa: P(idx(0))}), sl.entry)
                    sl.scatter = True
                    changed = True
        return changed

    # ------------------------------------------------------------------ inequalities kept by the loop
    def candidates(self):
        """linear facts that may hold at every head: signs of the changing numbers, their order relative to the numbers
        compared in the loop, and sums of two of them"""
        I = self.I
        xs = []
        entry = {}
        for C in self.classes:
            for sl in C.slots:
                if sl.kind == "num" and sl.ty in ("int", "float") and isinstance(sl.entry, Poly):
                    xs.append(sl)
        vals = [(sl.sym if sl.form is None else sl.form, sl.entry) for sl in xs]
        moving = [v for v, sl in zip(vals, xs)]
        anchors = []

        def add(p):
            if isinstance(p, Poly) and p not in anchors and len(p.t) <= 3 and not fresh_after(p, self.mark0) and T.is_real(p) and not any(a.kind == "ite" for a in p.deps):
                anchors.append(p)
        gens = {sl.sym.atom() for C in self.classes for sl in C.slots}
        conds = list(self.back.path[len(self.entry.path):])
        t = getattr(self, "test", None)
        if t is not None:
            conds.append(t)
        for c in conds:
            for l in T.literals(c):
                if l.kind == "not":
                    l = l.args[0]
                if l.kind == "cmp" and l.args[0] in ("lt", "le"):
                    d = l.args[2] - l.args[1]
                    if len(d.t) > 6:
                        continue
                    rest = ZERO
                    for (pw, ex), cf in d.t.items():
                        term = Poly({(pw, ex): cf})
                        if not (T.deps(term) & gens) and self.kappa not in term.deps and not fresh_after(term, self.mark):
                            rest = rest + term
                    if rest is not ZERO and rest.const() is None:
                        add(rest)
                        add(-rest)
        for v, e in vals:
            if e.const() is None:
                add(e)
        anchors = anchors[:8]
        out = []
        for i, (x, e) in enumerate(vals):
            if x.const() is not None:
                continue
            for mk in ("lt", "le"):
                out.append((mk_cmp(mk, ZERO, x), mk_cmp(mk, ZERO, e)))
            for a in anchors:
                if a is x:
                    continue
                for mk in ("lt", "le"):
                    out.append((mk_cmp(mk, x, a), mk_cmp(mk, e, a)))
                    out.append((mk_cmp(mk, a, x), mk_cmp(mk, a, e)))
            for y, f in vals[i + 1:]:
                for a in anchors:
                    out.append((mk_cmp("le", x + y, a), mk_cmp("le", e + f, a)))
                if xs[i].ty == xs[vals.index((y, f))].ty:
                    out.append((mk_cmp("le", x, y), mk_cmp("le", e, f)))
                    out.append((mk_cmp("le", y, x), mk_cmp("le", f, e)))
        res, seen = [], set()
        for c, e in out:
            if c in seen or c is TRUE or c is FALSE or self.kappa in c.deps and False:
                continue
            seen.add(c)
            if I.decide(self.entry, e) is True:
                res.append(c)
        return res

    def invariants(self, fr, test, body, bodyk):
        I = self.I
        self.mark0 = getattr(self, "mark0", self.mark)
        if not any(sl.form is None and sl.kind == "num" and sl.ty in ("int", "float") for C in self.classes for sl in C.slots):
            return
        cur = self.candidates()
        self.ncand = len(cur)
        for rnd in range(12):
            if not cur:
                break
            self.invs = cur
            H, B = self.run(fr, test, body, bodyk)
            if B is None:
                return
            backs = {}
            for C in self.classes:
                f = _collect_obj if C.locs[0][1] == "o" else _collect
                if not f(self, C, C.gen, get_loc(B, C.locs[0]), B, backs):
                    raise Undecided("loop at %s does not stabilise" % I.site(self.node))
            m = {sl.sym.atom(): b for sl, b in backs.items() if sl.form is None and isinstance(b, Poly)}
            m[self.kappa] = self.k + 1
            keep = [c for c in cur if I.decide(B, T.subst(c, m)) is True]
            if len(keep) == len(cur):
                self.backs = backs
                break
            cur = keep
        # drop what follows from the rest
        self.invs = cur


def leaves(v):
    if isinstance(v, IteV):
        return leaves(v.a) + leaves(v.b)
    return [v]


def same(a, b):
    return a is b or a == b


def _value(G, v, m):
    if isinstance(v, Num):
        return Num(T.subst(v.p, m), v.ty)
    if isinstance(v, Bool):
        return Bool(T.subst(v.c, m))
    if isinstance(v, Tup):
        return Tup(tuple(_value(G, x, m) for x in v.items), v.cls)
    if isinstance(v, IteV):
        return G.I.mval(T.subst(v.c, m), _value(G, v.a, m), _value(G, v.b, m))
    return v


def _object(G, o, m):
    if isinstance(o, Arr):
        return replace(o, content=T.subst(o.content, m)) if m else o
    if isinstance(o, Inst):
        return Inst(o.cls, {k: _value(G, v, m) for k, v in o.f.items()})
    if isinstance(o, ListO):
        return replace(o, items=tuple(_value(G, v, m) for v in o.items))
    return o


def _collect(G, C, g, b, st, out):
    """match a generalised value with the value at the back edge; slots -> back terms; False when b is not an instance"""
    w = getattr(C, "wide", None)
    if w is not None and g is C.gen:
        ls = leaves(b)
        if any(isinstance(v, NoneV) for v in ls) and not isinstance(g, IteV):
            return False
        return all(isinstance(v, NoneV) or isinstance(v, Num) and promote(v.ty, w[0]) == w[0] and (w[1] or not T.maybe_nan(v.p)) for v in ls)
    if isinstance(g, IteV):
        if not isinstance(b, IteV):
            # entry alternative or the generic one
            if b == g.a:
                return True
        r = False
        for x in (g.b, g.a):
            if _collect(G, C, x, b, st, out):
                r = True
                break
        return r
    if isinstance(g, Num):
        if isinstance(b, (Bool,)):
            from .arrays import numify
            b = Num(numify(b.c), "int")
        if not isinstance(b, Num):
            return False
        for sl in C.slots:
            if sl.sym is g.p:
                out[sl] = b.p
                return promote(b.ty, sl.ty) == sl.ty
        return b.p is g.p
    if isinstance(g, Bool):
        return isinstance(b, Bool)
    if isinstance(g, Str):
        return isinstance(b, Str) and (not g.known or g == b)
    if isinstance(g, Tup):
        return isinstance(b, Tup) and len(b.items) == len(g.items) and all(_collect(G, C, x, y, st, out) for x, y in zip(g.items, b.items))
    if isinstance(g, Ref):
        ph = dict(C.phantoms).get(g.oid)
        if ph is None:
            return g == b
        if isinstance(ph, Arr):
            from .arrays import as_arr
            a = as_arr(G.I, st, b)
            return isinstance(a, Arr) and _collect_obj(G, C, ph, a, st, out)
        if not isinstance(b, Ref):
            return False
        return _collect_obj(G, C, ph, st.heap[b.oid], st, out)
    return g is b or g == b


def _collect_obj(G, C, g, b, st, out):
    if isinstance(g, Arr):
        if not isinstance(b, Arr) or len(g.axes) != len(b.axes) or (g.rep != b.rep and b.content is not ZERO):
            return False
        if b.space is not None and b.space != g.space and b.content is not ZERO:
            return False
        for sl in C.slots:
            if sl.sym is g.content:
                out[sl] = b.content
                return promote(b.dtype, sl.ty) == sl.ty
        return isinstance(g.content, Cond)
    if isinstance(g, Inst):
        return isinstance(b, Inst) and b.cls is g.cls and all(_collect(G, C, g.f[k], b.f.get(k, UNSET), st, out) for k in g.f)
    if isinstance(g, ListO):
        if not isinstance(b, ListO):
            return False
        if g.prefix is not None:
            if b.prefix == g.prefix:
                C.growth = b.items
                return True
            C.growth = None
            return True if b.prefix is None else False
        return len(g.items) == len(b.items) and b.prefix is None and all(_collect(G, C, x, y, st, out) for x, y in zip(g.items, b.items))
    return False
