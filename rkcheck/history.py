"""Histories of one solver instance: every attempt is compared with the attempt a fresh instance would make.

The states of the instance between calls are explored up to the names of the step sizes, solutions and stage values of
the past; when no new state turns up the exploration covers histories of every length."""
from __future__ import annotations
from .kit import *
from .kit import Problem, nl_of
from .canon import Renamer, rename_state, graph, atoms_of, signature
from .terms import *
from .terms import P
from . import terms as T
from .values import *
from .arrays import as_arr, roots
from .interp import State, Dead, Undecided
from .loops import quiet
from .report import Report


FAILED = " interrupted at "


def elem(name):
    return P(Atom("elem", name, (IX,)))


def pos(name):
    return T.sym(name, real=True, pos=True)


class Node:
    def __init__(self, st, u, hist, kinds):
        self.st, self.u, self.hist, self.kinds = st, u, hist, kinds


class History:
    def __init__(self, R, name, rep, cfg=True):
        self.R, self.name, self.rep = R, name, rep
        p = self.p = Problem(R, name, rep, collapse=True, mode="bounded")
        I = self.I = p.I
        self.adaptive = name in ADAPTIVE
        I.nl_model = self.nl
        st, c = p.etd_config(p.st)
        st, self.obj = p.make(st, **({"etd_config": c} if c is not None else {}))
        self.G = I.new(st, Inst(Ext("ghost.counter"), {"k": Num(P(0), "int"), "n": Num(P(0), "int"), "j": Num(P(0), "int"), "args": Tup(()), "in": Bool(FALSE)}))
        self.orig = I.getattr(st, self.obj, "_update_stages")
        self.limit = 1
        self.probing = False
        self.hit = False
        self.count = 0
        self.attempts = 0
        self.mismatches = []
        self.ref = None
        self.evref = {}
        self.swallowed = set()
        self.kept = set()
        self.injected = []
        self.runs = 0
        self.owners = False
        self.ctx = ()
        I.handlers["ghost.stages"] = self.attempt
        self.cls = p.cls
        self.cls.attrs["_update_stages"] = StaticM(Ext("ghost.stages"))
        if self.adaptive:
            self.cls.attrs["MAX_LOOPS"] = Num(P(1), "int")
        I.merge_keep = self.keep
        I.is_bounded = self.is_bounded
        self.st0 = st
        s, u = self.vector(st.fork())
        self.root = Node(s, u, (), frozenset())
        self.freshness()

    # -------------------------------------------------------------- ghosts
    def g(self, st, k):
        return st.heap[self.G.oid].f[k]

    def setg(self, st, **kw):
        o = st.heap[self.G.oid]
        st.heap[self.G.oid] = replace(o, f=dict(o.f, **kw))

    def num(self, st, k):
        c = self.g(st, k)
        c = c.p.const() if isinstance(c, Num) else None
        if c is None:
            raise Undecided("the number of attempts depends on data inside one attempt")
        return int(c)

    def keep(self, states):
        ks = []
        for s in states:
            o = s.heap.get(self.G.oid)
            c = o.f["k"].p.const() if o is not None else None
            ks.append(c if c is not None else -1)
        m = max(ks)
        return [s for s, k in zip(states, ks) if k == m]

    def is_bounded(self, I, st, fr, node, test, body):
        s = st.fork()
        outer = self.probing, self.hit
        self.probing, self.hit = True, False
        try:
            with quiet(I, fr):
                try:
                    if test is not None:
                        I.assume(s, I.cond(s, node.test, fr))
                    fr.breaks.append([])
                    fr.conts.append([])
                    try:
                        body(s)
                    finally:
                        fr.breaks.pop()
                        fr.conts.pop()
                except Dead:
                    pass
        finally:
            hit = self.hit
            self.probing, self.hit = outer[0], outer[1] or hit
        return hit

    def name_new(self):
        self.count += 1
        return self.count

    def vector(self, st):
        return st, self.p.vec(st, "w.%d" % self.name_new())

    # -------------------------------------------------------------- the user's function
    def nl(self, I, st, x):
        c = x.content
        a = c.atom() if isinstance(c, Poly) else None
        if a is not None and a.kind == "elem" and a.args[0].startswith("w.") or self.probing:
            return nl_of(c, x.axes)
        if self.g(st, "in").c is not TRUE:
            return nl_of(c, x.axes)
        j, n = self.num(st, "j"), self.num(st, "n")
        args = self.g(st, "args")
        if not isinstance(args, Tup):
            raise Undecided("gated evaluations of the nonlinear function")
        self.setg(st, j=Num(P(j + 1), "int"), args=Tup(args.items + (I.new(st, replace(x, base=None, owner="internal")),)))
        return elem("g%d.%d" % (j, n))

    # -------------------------------------------------------------- one attempt
    def hsyms(self, st):
        return sorted((a for a in atoms_of(st, graph(st, self.obj)) if a.kind == "sym" and str(a.args[0]).startswith("h.")), key=lambda a: -int(a.args[0][2:]))

    def attempt(self, I, st, args, kw, node):
        if self.probing:
            self.hit = True
            raise Dead
        args = list(args)
        for k in ("u", "h"):
            if k in kw:
                args.append(kw[k])
        if len(args) != 2:
            raise Undecided("_update_stages called with %d arguments" % len(args))
        u, h = args
        k = self.num(st, "k") + 1
        if k > self.limit:
            raise Dead
        a = h.p.atom() if isinstance(h, Num) else None
        if a is None or a.kind != "sym" or not str(a.args[0]).startswith("h."):
            a = pos("h.%d" % self.name_new())
        for b in self.hsyms(st):
            if b is not a:
                I.assume(st, mk_cmp("ne", P(a), P(b)))
        n = self.name_new()
        self.setg(st, k=Num(P(k), "int"), n=Num(P(n), "int"), j=Num(P(0), "int"), args=Tup(()), **{"in": Bool(TRUE)})
        uc = as_arr(I, st, u, node)
        if self.owners and isinstance(u, Ref):
            self.expose(st, u.oid, "an accepted state")
        v = I.call(st, self.orig, [u, Num(P(a))], {}, node)
        self.setg(st, **{"in": Bool(FALSE)})
        if self.adaptive:
            v = I.pick(st, v)
            if not isinstance(v, Tup) or len(v.items) != 2:
                raise Undecided("stages do not return (solution, error)")
            un, er = v.items
        else:
            un, er = v, None
        x = as_arr(I, st, un, node)
        e = as_arr(I, st, er, node) if er is not None else None
        if not isinstance(x, Arr):
            raise Undecided("stages do not return an array")
        at = self.g(st, "args")
        rec = [("stage %d argument" % i, st.heap[r.oid].content) for i, r in enumerate(at.items)] + [("solution", x.content)]
        if e is not None:
            rec.append(("error estimate", e.content))
        if I.record:
            self.compare(st, uc.content, a, n, rec)
        # the result becomes the state of the next step
        w = elem("w.%d" % self.name_new())
        bodies = {x.content: w}
        if self.rep == "diagonalized":
            self.eigen(st, x, w, bodies)
        m = {}
        for i, r in enumerate(at.items):
            if st.heap[r.oid].content == x.content:
                m[elem("g%d.%d" % (i, n)).atom()] = nl_of(w, x.axes)
        ap = Renamer(m, bodies)
        rename_state(st, ap)
        if not isinstance(un, Ref):
            un = I.new(st, replace(x, content=w))
        if e is not None:
            er = I.new(st, replace(e, content=elem("e.%d" % n), base=None, owner="internal"))
            return Tup((un, er))
        return un

    def eigen(self, st, x, w, bodies):
        I = self.I
        for oid in graph(st, self.obj):
            o = st.heap[oid]
            if isinstance(o, Arr) and o.rep == "Sinv":
                s = st.fork()
                try:
                    f = lambda c: as_arr(I, s, I.call_ext(s, "numpy.dot", [Ref(oid), I.new(s, replace(x, content=c, base=None))], {}, None)).content
                    a, b = f(x.content), f(w)
                    if a != b:
                        bodies[a] = b
                except Dead:
                    pass
                return

    def compare(self, st, uc, h, n, rec):
        m = {h: P(pos("h"))}
        bodies = {}
        a = uc.atom() if isinstance(uc, Poly) else None
        if a is not None:
            m[a] = elem("u")
        else:
            bodies[uc] = elem("u")
        for j in range(16):
            m[elem("g%d.%d" % (j, n)).atom()] = elem("g%d" % j)
        r = Renamer(m, bodies)
        got = [(k, r.content(c)) for k, c in rec]
        self.attempts += 1
        if self.ref is None:
            self.ref = got
            return
        facts = [r(c) for c in st.path]
        bad, every = None, []
        if len(got) != len(self.ref):
            bad = ("number of evaluations", len(got), len(self.ref))
        else:
            for (k, x), (_, y) in zip(got, self.ref):
                if x is y or x == y:
                    continue
                eq = T.equal(x, y, [(f.args[0], False) if f.kind == "not" else (f, True) for f in facts if f.kind in ("cmp", "not", "sym", "app")])
                if eq is True:
                    continue
                bad = bad or (k, x, y)
                every.append((k, x, y))
        if bad:
            self.mismatches.append((self.ctx, bad, every))

    def freshness(self):
        """reference attempt on the fresh instance"""
        self.ctx = ("fresh instance",)
        s = self.root.st.fork()
        self.setg(s, k=Num(P(0), "int"))
        self.limit = 1
        ok, rs = self.p.call(s, self.obj, "_update_stages", self.root.u, Num(P(pos("h.%d" % self.name_new()))))
        if self.ref is None:
            raise Undecided("%s has no first attempt" % self.name)

    # -------------------------------------------------------------- operations
    def cur_h(self, st):
        return self.hsyms(st)

    def clean(self, st):
        """forget what was decided along the way: the comparisons have to hold without it"""
        s = State(dict(st.heap), self.st0.path)
        self.setg(s, k=Num(P(0), "int"))
        return s

    def step(self, node, h, target=1, label="", faults=None):
        """outcomes of step from a node: [(node)] for normal ones and [(names, node)] for exceptions"""
        s = self.clean(node.st)
        self.limit = target
        self.ctx = node.hist + (label,)
        I = self.I
        self.injected = []
        I.fault_hook = self.fault if faults else None
        try:
            ok, rs = self.p.call(s, self.obj, "step", node.u, Num(P(h)))
        finally:
            I.fault_hook = None
        good, bad = [], []
        if faults:
            for c, what, where in self.injected:
                if not any(c in st.path and any(getattr(x, "name", str(x)) == what for x in I.exc_names(I.exc_class(st, e))) for st, e, _ in rs):
                    self.swallowed.add((what, where))
        for st, v in ok:
            if self.num(st, "k") != target:
                continue
            v = I.pick(st, v)
            un = v.items[0] if self.adaptive and isinstance(v, Tup) else v
            if not isinstance(un, Ref):
                raise Undecided("step does not return one array")
            if self.owners:
                self.expose(st, un.oid, "a returned state")
            good.append(Node(st, un, node.hist + (label,), node.kinds))
        for st, e, where in rs:
            if self.num(st, "k") != target:
                continue
            names = I.exc_names(I.exc_class(st, e))
            bad.append((names, where, Node(st, node.u, node.hist + (label + " fails at " + str(where),), node.kinds)))
        return good, bad

    def fault(self, I, st, what, node):
        if self.probing:
            return
        c = T.Cond("app", "fault", (P(T.fresh("fault")),))
        nm = "UserError" if what == "nl_func" else "LinAlgError"
        if I.record:
            self.injected.append((c, nm, I.where(node) or ""))
        I.may_raise(st, nm, c, node)

    def canonical(self, node):
        st = node.st
        m = {}
        c = as_arr(self.I, st, node.u)
        a = c.content.atom() if isinstance(c.content, Poly) else None
        if a is not None:
            m[a] = elem("cur")
        return Renamer(self.by_age(atoms_of(st, graph(st, self.obj)), m))

    def by_age(self, atoms, m):
        groups = {}
        for x in atoms:
            if x in m or x.kind not in ("elem", "sym"):
                continue
            nm = str(x.args[0])
            b, _, d = nm.partition(".")
            if d.isdigit() and (b in ("w", "h", "e", "t", "T", "i") or b[0] == "g"):
                groups.setdefault("g" if b[0] == "g" else b, {}).setdefault(int(d), []).append((x, b))
        for k, g in groups.items():
            for i, d in enumerate(sorted(g, reverse=True)):
                for x, b in g[d]:
                    m[x] = P(T.sym("%s@%d" % (b, i), real=True, pos=b in "hi")) if x.kind == "sym" else elem("%s@%d" % (b, i))
        return m

    def sig(self, node):
        if not self.owners:
            return signature(node.st, self.obj, self.canonical(node))
        cur = roots(node.st, node.u.oid)

        def extra(oid):
            rs = roots(node.st, oid)
            return (tuple(sorted({node.st.heap[x].owner for x in rs if isinstance(node.st.heap.get(x), Arr)})), bool(rs & cur))
        return signature(node.st, self.obj, self.canonical(node), extra=extra)

    def expose(self, st, oid, what):
        """from here on this storage is also someone else's"""
        for r in roots(st, oid):
            o = st.heap.get(r)
            if isinstance(o, Arr) and not o.owner.startswith(("user:", "nl", "shared:")):
                st.heap[r] = replace(o, owner="shared:" + what)

    def reset(self, node):
        s = self.clean(node.st)
        ok, rs = self.p.call(s, self.obj, "reset")
        if not ok:
            return None
        st, _ = ok[0]
        for k in ("t", "u"):
            v = self.I.getattr(st, self.obj, k)
            o = st.heap.get(v.oid) if isinstance(v, Ref) else None
            if not isinstance(o, ListO) or o.items or o.sym is not None or o.prefix is not None:
                self.kept.add(k)
        st, u = self.vector(st)
        return Node(st, u, node.hist + ("reset()",), node.kinds | {"reset"})

    # -------------------------------------------------------------- evolve
    def evolve(self, node):
        """evolve from this node, compared with evolve of the fresh instance; returns the nodes after it"""
        out = []
        for k, kw in self.evolve_args():
            for target in (1, 2) if self.adaptive else (2,):
                s = self.clean(node.st)
                self.limit = target
                self.ctx = node.hist + ("evolve(%s)" % k,)
                s, w = self.vector(s)
                i = self.name_new()
                ok, rs = self.p.call(s, self.obj, "evolve", w, Num(P(T.sym("t.%d" % i, real=True))), Num(P(T.sym("T.%d" % i, real=True))), **kw)
                res = []
                for st, v in ok:
                    if self.num(st, "k") != target:
                        continue
                    if self.owners and isinstance(v, Ref):
                        self.expose(st, v.oid, "a returned state")
                    res.append(self.evolved(st, v))
                    if target == 1 and isinstance(v, Ref) and not out:
                        out.append(Node(st, v, self.ctx, node.kinds | {"evolve"}))
                key = (k, target)
                self.runs += 1
                if key not in self.evref:
                    self.evref[key] = res
                    continue
                self.same(res, self.evref[key])
        return out

    def evolve_args(self):
        f = Num(P(T.sym("freq", int=True, real=True, pos=True)), "int")
        if self.adaptive:
            return [("h_init given", {"h_init": Num(P(pos("i.%d" % self.name_new()))), "store_freq": f}), ("h_init default", {"store_freq": f})]
        return [("h", {"h": Num(P(pos("h.%d" % self.name_new()))), "store_freq": f})]

    def evolved(self, st, v):
        """what the caller sees: the returned state and the stored trajectory"""
        I = self.I
        s = st.fork()
        items = [("returned state", v), ("stored times", I.getattr(s, self.obj, "t")), ("stored states", I.getattr(s, self.obj, "u"))]
        ats, flat = set(), []

        def walk(k, x, depth=0):
            if isinstance(x, Ref):
                o = s.heap.get(x.oid)
                if isinstance(o, Arr):
                    ats.update(o.content.deps)
                    flat.append((k, "array", o.content))
                elif isinstance(o, ListO) and o.sym is None and o.prefix is None:
                    flat.append((k, "list of %d" % len(o.items), None))
                    for y in o.items:
                        if isinstance(y, V):
                            walk(k, y)
                        else:
                            ats.update(y.c.deps)
                            flat.append((k, "if", y.c))
                            for z in y.items:
                                walk(k, z)
                else:
                    flat.append((k, "object", o))
            elif isinstance(x, (Num, Bool)):
                c = x.p if isinstance(x, Num) else x.c
                ats.update(c.deps)
                flat.append((k, "number", c))
            elif isinstance(x, IteV):
                ats.update(x.c.deps)
                flat.append((k, "if", x.c))
                walk(k, x.a)
                walk(k, x.b)
            else:
                flat.append((k, "value", x))
        for k, x in items:
            walk(k, x)
        r = Renamer(self.by_age(ats, {}))
        return tuple((k, t, r.content(c) if isinstance(c, (Poly, Cond)) else c) for k, t, c in flat)

    def same(self, got, want):
        if len(got) != len(want):
            self.mismatches.append((self.ctx, ("outcomes", len(got), len(want)), []))
            return
        for g, w in zip(got, want):
            bad = None
            if len(g) != len(w):
                bad = ("trajectory", [t for _, t, _ in g], [t for _, t, _ in w])
            else:
                for (k, t, x), (_, t2, y) in zip(g, w):
                    if t != t2 or not (x is y or x == y or isinstance(x, Poly) and isinstance(y, Poly) and T.equal(x, y, []) is True):
                        bad = (k, x, y)
                        break
            if bad:
                self.mismatches.append((self.ctx, bad, []))

    def hcases(self, node):
        out = [("step with a new size", pos("h.%d" % self.name_new()))]
        for i, a in enumerate(self.hsyms(node.st)):
            out.append(("step with the size of %s" % ("the last attempt" if i == 0 else "an earlier attempt"), a))
        return out

    def close(self):
        self.R.absorb(self.I)


class Explorer:
    """breadth first over the states between calls"""

    def __init__(self, H, targets=(1, 2), depth=4, faults=False, resets=False, evolves=False, after=None, most=300):
        self.most = most
        self.H, self.targets, self.depth = H, targets, depth
        self.faults, self.resets, self.after = faults, resets, after
        self.evolves = evolves
        self.nodes = 0
        self.closed = True
        self.edges = 0

    def run(self):
        H = self.H
        seen = {H.sig(H.root)}
        level = [H.root]
        targets = self.targets if H.adaptive else (1,)
        for d in range(self.depth + 1):
            nxt = []
            for node in level:
                if self.nodes >= self.most:
                    self.closed = False
                    break
                self.nodes += 1
                last = d == self.depth
                new = []
                for label, h in H.hcases(node):
                    for t in targets:
                        lab = label if t == 1 else label + ", %d rejected attempt%s first" % (t - 1, "s" if t > 2 else "")
                        before = len(H.mismatches)
                        good, bad = H.step(node, h, t, lab)
                        self.edges += 1
                        if len(H.mismatches) > before:
                            continue
                        new += good + [n for _, _, n in bad]
                    if self.faults and (self.faults == "all" or "fault" not in node.kinds):
                        for t in targets:
                            good, bad = H.step(node, h, t, label, faults=True)
                            for names, where, n in bad:
                                if any(getattr(x, "name", str(x)) in ("UserError", "LinAlgError") for x in names):
                                    n.kinds = n.kinds | {"fault"}
                                    n.hist = n.hist[:-1] + (n.hist[-1].replace(" fails at ", FAILED),)
                                    new.append(n)
                if self.resets and node.hist:
                    n = H.reset(node)
                    if n is not None:
                        new.append(n)
                if self.evolves and (self.evolves != "root" or not node.hist):
                    new += H.evolve(node)
                if self.after:
                    self.after(H, node)
                for n in new:
                    s = H.sig(n)
                    if s not in seen:
                        seen.add(s)
                        if last:
                            self.closed = False
                        else:
                            nxt.append(n)
            level = nxt
            if not level:
                break
        return self


# ------------------------------------------------------------------------------------------ verdicts
def coefficients_only(x, y):
    """the two terms with every evaluation of N identified and every state identified"""
    m = {}
    for a in x.deps | y.deps:
        if a.kind == "elem" and a.args[0].split(".")[0].rstrip("0123456789") in ("w", "u"):
            m[a] = elem("u")
        elif a.kind == "elem" and "." in a.args[0] and a.args[0][0] == "g":
            m[a] = elem("G")
    r = Renamer(m)
    x, y = r(x), r(y)
    n = Renamer({a: elem("G") for a in x.deps | y.deps if a.kind == "app" and a.args[0] == "N"})
    return n(x), n(y)


def is_coefficient(every):
    for k, x, y in every:
        if isinstance(x, Poly) and isinstance(y, Poly):
            x, y = coefficients_only(x, y)
            if T.equal(x, y, []) is not True:
                return (k, x, y)
    return None


def show(bad):
    k, x, y = bad
    return "%s is %s, a fresh instance has %s" % (k, str(x)[:160], str(y)[:160])


def study(R, rule, relevant, lists=None, **opts):
    """explore every solver on every operator form and report the relevant mismatches"""
    from .steps import forms
    from .report import pmap

    def one(R, form):
        name, rep = form
        con = "%s[%s]" % (name, rep)
        H = History(R, name, rep)
        E = Explorer(H, **opts).run()
        bad = relevant(H.mismatches)
        m = H.I.modules.get(MODS[name])
        site = "%s %s" % (m.path if m else "?", name)
        if bad:
            sure = [(c, b) for c, b in bad if not T.uncertain(b[1:])]
            c, b = (sure or bad)[0]
            R.verdict(False if sure else None, rule, con, "after [%s] %s" % ("; ".join(c), show(b)), site)
        else:
            R.ok(rule, con, site, "%d states of the instance between calls, %d calls, %d attempts and %d evolutions compared; %s" % (
                E.nodes, E.edges, H.attempts, H.runs, "no further states: all histories" if E.closed else "histories of up to %d calls" % (E.depth + 1)))
        if lists:
            R.verdict(not H.kept, lists, con, "reset() leaves %s as it was" % ", ".join(sorted(H.kept)), site)
        elif opts.get("faults"):
            for what, where in sorted(H.swallowed):
                R.viol("reaches-the-caller", con, "an exception of %s at %s does not reach the caller of step()" % (what, where), where)
            R.verdict(not H.swallowed, "reaches-the-caller", con, "swallowed", site)
        H.close()
    pmap(R, one, forms(R))
