"""Loops: unrolling when the trip count is small and known, otherwise a fixpoint.

The fixpoint generalises every location that the body changes.  Locations that start equal and stay equal share one
symbol (optimistic partition refinement); locations that are functions of the iteration count are expressed by it;
linear inequalities between the generalised numbers are kept when they hold at entry and are preserved by the body."""
from __future__ import annotations
import ast
import itertools
from .terms import *
from .terms import P, SYMATTR, Fraction
from . import terms as T
from .values import *
from .arrays import *
from .arrays import as_arr, LAM, numify, range_len
from .interp import State, Dead, Undecided, UNSET, CondItem, has_unset
from .loopgen import Gen, diff_locs, get_loc, set_loc

UNROLL_WHILE = 24
UNROLL_RANGE = 24


# ------------------------------------------------------------------------------------------ iteration sources
def sym_iter(I, st, it, node):
    """(index atom, length, element value at the index) of a sequence of symbolic length, or (None, ...)"""
    it = I.pick(st, it)
    k = Atom("idx", "it%d" % next(T._fresh))
    r = seq_at(I, st, it, P(k), node)
    if r is None:
        return None, None, None
    return k, r[0], r[1]


def seq_at(I, st, it, k, node):
    """(length, element at position k)"""
    it = I.pick(st, it)
    if isinstance(it, RangeV):
        return range_len(I, st, it), Num(it.lo + k * it.step, "int")
    if isinstance(it, Ref):
        o = st.heap[it.oid]
        if isinstance(o, Arr) and o.axes and o.rep == "idx" and o.axes[-1][1] is None:
            m = len(o.axes) - 1
            c = T.subst(o.content, {idx(m): k})
            if m == 0:
                return o.axes[0][0], (Bool(c) if isinstance(c, Cond) else Num(c, o.dtype))
            return o.axes[m][0], I.new(st, Arr(c, o.axes[:-1], o.dtype, space=o.space, base=(it.oid, "part")))
        if isinstance(o, Arr) and o.rep == "op" and len(o.axes) == 3:
            return o.axes[2][0], I.new(st, Arr(T.subst(o.content, {idx(2): k}), o.axes[:2], o.dtype, "op"))
        if isinstance(o, ListO) and o.sym is not None and not o.items and o.prefix is None:
            from .ops import subst_val
            return o.sym.n, subst_val(I, st, o.sym.elem, {o.sym.idx: k})
        if isinstance(o, ListO) and o.sym is None and o.prefix is None and not any(isinstance(x, CondItem) for x in o.items):
            return P(len(o.items)), Opaque(("element", next(T._fresh))) if not o.items else pick_item(I, st, o.items, k)
    if isinstance(it, Tup):
        return P(len(it.items)), pick_item(I, st, it.items, k)
    if isinstance(it, Opaque) and isinstance(it.label, tuple) and it.label[0] == "enumerate":
        r = seq_at(I, st, it.label[1], k, node)
        if r is not None and isinstance(it.label[2], Num):
            return r[0], Tup((Num(it.label[2].p + k, "int"), r[1]))
    if isinstance(it, Opaque) and isinstance(it.label, tuple) and it.label[0] == "zip":
        rs = [seq_at(I, st, x, k, node) for x in it.label[1]]
        if all(r is not None for r in rs) and rs:
            n = rs[0][0]
            if all(r[0] is n or I.decide(st, mk_cmp("eq", r[0], n)) is True for r in rs):
                return n, Tup(tuple(r[1] for r in rs))
    if isinstance(it, IteV):
        a = as_arr(I, st, it, node)
        if isinstance(a, Arr):
            return seq_at(I, st, I.new(st, a), k, node)
    return None


def pick_item(I, st, items, k):
    v = items[-1]
    for i in range(len(items) - 2, -1, -1):
        v = I.mval(mk_cmp("eq", k, P(i)), items[i], v)
    return v


def sum_seq(I, st, e, s, node):
    from .np_reduce import sum_axis
    if isinstance(e, Num):
        b = idx(9)
        return Num(sum_axis(I, st, T.subst(e.p, {s.idx: P(b)}), 9, (s.n, None)), e.ty)
    if isinstance(e, Arr) and isinstance(e.content, Poly):
        b = idx(9)
        return I.new(st, replace(e, content=sum_axis(I, st, T.subst(e.content, {s.idx: P(b)}), 9, (s.n, None)), base=None, owner="internal"))
    return None


# ------------------------------------------------------------------------------------------ running a body
class Run:
    """outcome of one pass over the body"""
    __slots__ = ("back", "breaks")


def run_body(I, st, fr, body):
    """execute body(st); returns (back-edge state or None, break states)"""
    fr.breaks.append([])
    fr.conts.append([])
    try:
        try:
            body(st)
            fr.conts[-1].append((st, None))
        except Dead:
            pass
    finally:
        conts = fr.conts.pop()
        breaks = fr.breaks.pop()
    back = I.merge_all(conts)[0] if conts else None
    return back, [s for s, _ in breaks]


class quiet:
    """no events, and the outcomes collected inside are dropped"""

    def __init__(self, I, fr):
        self.I, self.fr = I, fr

    def __enter__(self):
        I, fr = self.I, self.fr
        self.rec = I.record
        I.record = False
        self.marks = [(fr.returns, len(fr.returns))] + [(x, len(x)) for x in fr.breaks + fr.conts]
        for f in I.stack:
            self.marks += [(f.returns, len(f.returns))] + [(x, len(x)) for x in f.breaks + f.conts]
        self.marks += [(s, len(s)) for s in I.sinks]
        self.loops = len(I.loops)
        self.opq = len(I.opaque_seen)

    def __exit__(self, *a):
        I = self.I
        I.record = self.rec
        for lst, n in self.marks:
            del lst[n:]
        del I.loops[self.loops:]
        del I.opaque_seen[self.opq:]


def finish(I, st, outs, fr, orelse, breaks):
    """join the normal exits (through the else clause) and the break exits"""
    res = []
    for s in outs:
        try:
            if orelse:
                I.block(s, orelse, fr)
            res.append((s, None))
        except Dead:
            pass
    res += [(s, None) for s in breaks]
    if not res:
        raise Dead
    s, _ = I.merge_all(res)
    st.become(s)


# ------------------------------------------------------------------------------------------ while
def do_while(I, st, n, fr):
    I.stats["loops"] += 1
    const = isinstance(n.test, ast.Constant) and bool(n.test.value)
    orig = st
    breaks = []
    if not const and not attempts(I, st, fr, n, lambda s: I.cond(s, n.test, fr), lambda s: I.block(s, n.body, fr)):
        cur = st
        for it in range(UNROLL_WHILE + 1):
            probe = cur.fork()
            with quiet(I, fr):
                try:
                    c = I.cond(probe, n.test, fr)
                    d = I.decide(probe, c)
                except Dead:
                    d = None
            if d is None or it == UNROLL_WHILE:
                break
            c = I.cond(cur, n.test, fr)
            if d is False:
                finish(I, st, [cur], fr, n.orelse, breaks)
                return
            back, br = run_body(I, cur.fork(), fr, lambda s: I.block(s, n.body, fr))
            breaks += br
            if back is None:
                finish(I, st, [], fr, n.orelse, breaks)
                return
            if (br or len(fr.returns)) and it >= 2:
                # gated exits accumulate: use the fixpoint instead
                cur = back
                break
            cur = back
        st0 = cur
        if it > 3 and d is not None:
            # a long concrete loop: start the fixpoint at the beginning
            pass
        st = st0 if st0 is not st else st
    general(I, st, fr, n, lambda s: I.cond(s, n.test, fr), lambda s: I.block(s, n.body, fr), n.orelse, breaks, orig)


def do_for(I, st, n, fr):
    I.stats["loops"] += 1

    def body(s, x):
        I.assign(s, n.target, x, fr)
        I.block(s, n.body, fr)
    for_each(I, st, n, n.iter, fr, body, n.orelse)


def for_each(I, st, n, src, fr, body, orelse):
    """run body(state, element) for the elements of the expression src"""
    if isinstance(src, ast.Call):
        I.lazy_gen = src
    try:
        it = I.pick(st, I.ev_(st, src, fr))
    finally:
        I.lazy_gen = None
    if isinstance(it, IteV) and not isinstance(as_arr(I, st, it, n), Arr):
        def alt(s, v):
            for_value(I, s, n, fr, v, body, orelse)
        return I.lift(st, it, alt)
    for_value(I, st, n, fr, it, body, orelse)


def for_generator(I, st, n, fr, it, body, orelse):
    """the consumer's body runs at each yield of the generator"""
    f, g = it.label[1:]
    g.returns = []

    out = []
    fr.breaks.append(out)
    g.outer = fr
    g.consumer = lambda s, v: consume_(I, s, fr, body, v)
    I.stack.append(g)
    try:
        try:
            I.block(st, f.node.body, g)
            g.returns.append((State(st.heap, st.path), NONE))
        except Dead:
            pass
    finally:
        I.stack.pop()
        fr.breaks.pop()
    finish(I, st, [s for s, _ in g.returns], fr, orelse, [s for s, _ in out])


def consume_(I, s, fr, body, v):
    fr.conts.append([])
    I.stack.append(fr)
    try:
        try:
            body(s, v)
            fr.conts[-1].append((State(s.heap, s.path), None))
        except Dead:
            pass
    finally:
        I.stack.pop()
        conts = fr.conts.pop()
    if not conts:
        raise Dead
    s.become(I.merge_all(conts)[0])


def for_next(I, st, n, fr, it, body, orelse):
    """an object with its own __next__: taken one by one until StopIteration"""
    if orelse:
        I.undecided("else clause of a loop over an iterator", n)
    cur = "*item%d.%d" % (n.lineno, n.col_offset)
    st.heap[fr.env] = replace(st.heap[fr.env], vars={**st.heap[fr.env].vars, cur + "it": it, cur: NONE})
    fr.locals = frozenset(fr.locals) | {cur, cur + "it"}
    one = step(lambda s: I.bindname(s, cur, I.call(s, I.getattr(s, it, "__next__", n), [], {}, n), fr))
    work = step(lambda s: body(s, I.lookup(s, cur, fr, n)))
    stop = ast.ExceptHandler(ast.Name("StopIteration", ast.Load()), None, [ast.Break()])
    loop = ast.While(ast.Constant(True), [ast.Try([one], [stop], [], []), work], [])
    for x in ast.walk(loop):
        ast.copy_location(x, n)
        x.end_lineno = getattr(n, "end_lineno", None)
    do_while(I, st, loop, fr)


def step(fn):
    """a statement given by a function"""
    r = ast.Pass()
    r.fn = fn
    return r


def for_value(I, st, n, fr, it, body, orelse):
    if isinstance(it, Opaque) and isinstance(it.label, tuple) and it.label[0] == "gen":
        return for_generator(I, st, n, fr, it, body, orelse)
    while isinstance(it, Ref) and isinstance(st.heap[it.oid], Inst) and isinstance(st.heap[it.oid].cls, Cls):
        c = st.heap[it.oid].cls
        f = I.find_attr(c, "__iter__")
        if f is None:
            break
        r = I.pick(st, I.call(st, Bound(f, it), [], {}, n))
        if isinstance(r, Ref) and isinstance(st.heap[r.oid], Inst) and I.find_attr(st.heap[r.oid].cls, "__next__") is not None:
            return for_next(I, st, n, fr, r, body, orelse)
        it = r
    its = I.iter_items(st, it, n)
    if its is not None and (len(its) <= UNROLL_RANGE or not isinstance(it, RangeV)):
        cur = st.fork()
        breaks = []
        alive = True
        for x in its:
            back, br = run_body(I, cur, fr, lambda s: body(s, x))
            breaks += br
            if back is None:
                alive = False
                break
            cur = back
        finish(I, st, [cur] if alive else [], fr, orelse, breaks)
        return
    if isinstance(it, (Num, NoneV, Bool)):
        I.exc(st, "TypeError", None, n)
    r = seq_at(I, st, it, P(T.fresh("probe", int=True, real=True)), n)
    if r is None:
        I.undecided("loop over an unknown sequence", n)
    ln = r[0]

    def bodyk(s, kap):
        e = seq_at(I, s, it, kap, n)
        body(s, e[1])
    general(I, st, fr, n, None, None, orelse, [], st, forn=ln, bodyk=bodyk)


# ------------------------------------------------------------------------------------------ fixpoint
def attempts(I, st, fr, node, test, body):
    return (I.loop_mode == "bounded" or I.from_head is not None) and I.is_bounded(I, st, fr, node, test, body)


def general(I, st, fr, node, test, body, orelse, breaks0, target, forn=None, bodyk=None):
    hook = None
    if attempts(I, st, fr, node, test, body if forn is None else lambda s: bodyk(s, P(T.fresh("probe", int=True, real=True, nonneg=True)))):
        if I.loop_mode == "bounded":
            return bounded(I, st, fr, node, test, body, orelse, breaks0, target, forn, bodyk, ZERO)
        hook, I.from_head = I.from_head, None
    G = Gen(I, st, node, forn)
    G.solve(fr, test, body, bodyk)
    # final pass, recorded
    H = G.head(None)
    if hook is not None:
        # the first passes after an arbitrary number of earlier ones
        I.loop_mode = "bounded"
        hook(I, st, H, G)
        return bounded(I, H, fr, node, test, body, orelse, breaks0, target, forn, bodyk, P(G.kappa))
    outs, breaks = [], list(breaks0)
    info = dict(node=node, site=I.site(node), fn=fr.name, gen=G, head=H.fork(), entry=State(st.heap, st.path), back=None, kappa=G.kappa, forn=forn, exits=[])
    I.loops.append(info)
    if forn is None:
        c = I.cond(H, node.test, fr) if test is not None else TRUE
        ex = H.fork()
        try:
            I.assume(ex, mk_not(c))
            outs.append(ex)
        except Dead:
            pass
        bs = H.fork()
        try:
            I.assume(bs, c)
            back, br = run_body(I, bs, fr, body)
        except Dead:
            back, br = None, []
        info["test"] = c
    else:
        bs = H.fork()
        bs_path = bs.path
        try:
            I.assume(bs, mk_cmp("lt", P(G.kappa), forn))
            back, br = run_body(I, bs, fr, lambda s: bodyk(s, P(G.kappa)))
        except Dead:
            back, br = None, []
        ex = G.exit_state(forn)
        if back is not None:
            # what every pass establishes about quantities fixed before the loop holds afterwards, if there was a pass
            new = [d for c in back.path if c not in bs_path for d in conjuncts(c) if d not in ex.path]
            known = set(entry_atoms(st)) if new else set()
            # the last pass has number forn - 1
            last = {G.kappa: forn - 1}
            new = [T.subst(c, last) for c in new if c.deps <= known | {G.kappa}]
            try:
                if new:
                    I.assume(ex, mk_or(mk_cmp("le", forn, ZERO), mk_and(*new)))
                outs.append(ex)
            except Dead:
                pass
        else:
            # no pass comes to its end: the loop is left this way only without a pass
            try:
                I.assume(ex, mk_cmp("le", forn, ZERO))
                outs.append(ex)
            except Dead:
                pass
    info["back"] = back
    info["exits"] = outs
    finish(I, target, outs, fr, orelse, breaks + br)


def conjuncts(c):
    if c.kind == "and":
        return [d for x in c.args[0] for d in conjuncts(x)]
    if c.kind == "not" and c.args[0].kind == "or":
        return [d for x in c.args[0].args[0] for d in conjuncts(mk_not(x))]
    return [c]


def entry_atoms(st):
    """the atoms in terms of which the state before a loop is expressed"""
    out = set()

    def val(v):
        if isinstance(v, Num):
            out.update(v.p.deps)
        elif isinstance(v, Bool):
            out.update(v.c.deps)
        elif isinstance(v, Tup):
            for x in v.items:
                val(x)
        elif isinstance(v, IteV):
            out.update(v.c.deps)
            val(v.a)
            val(v.b)
    for c in st.path:
        out.update(c.deps)
    for o in st.heap.values():
        if isinstance(o, Arr):
            out.update(o.content.deps)
            for n, m in o.axes:
                out.update(n.deps)
        elif isinstance(o, Inst):
            for x in o.f.values():
                val(x)
        elif isinstance(o, EnvO):
            for x in o.vars.values():
                val(x)
        elif isinstance(o, ListO):
            for x in o.items:
                val(x)
    return out


# ------------------------------------------------------------------------------------------ bounded strategy
def bounded(I, st, fr, node, test, body, orelse, breaks0, target, forn=None, bodyk=None, first=None):
    """pass by pass; the body itself ends the analysis of a path (attempt limits of the client)"""
    outs, breaks = [], list(breaks0)
    cur = st.fork()
    I.nest.append(0)
    try:
        for it in range(8):
            I.nest[-1] = it + 1
            if I.on_pass is not None:
                I.on_pass(it + 1, cur)
            s = cur.fork()
            if forn is None:
                c = I.cond(s, node.test, fr) if test is not None else TRUE
                go = body
            else:
                k = first + it
                c = mk_cmp("lt", k, forn)
                go = lambda s: bodyk(s, k)
            ex = s.fork()
            try:
                I.assume(ex, mk_not(c))
                outs.append(ex)
            except Dead:
                pass
            try:
                I.assume(s, c)
                back, br = run_body(I, s, fr, go)
            except Dead:
                back, br = None, []
            breaks += br
            if back is None:
                break
            cur = back
        else:
            I.undecided("loop without progress", node)
    finally:
        I.nest.pop()
    finish(I, target, outs, fr, orelse, breaks)
