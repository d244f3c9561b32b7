"""Solver family, step signature and type tag agree."""
from ..client import *
from ..kit import *
from ..kit import stubbed, stages_handler
from ..arrays import as_arr

SRC = '''
from rkstiff.solvercs import BaseSolverCS
from rkstiff.solveras import BaseSolverAS
from rkstiff.etd34 import ETD34
from rkstiff.etd4 import ETD4
from rkstiff.etd import ETDAS, ETDCS
from rkstiff.util.solver_type import SolverType

def tag(o):
    return o.solver_type

def detected(o):
    return SolverType.from_solver(o)

def same(a, b):
    return a is b and a == b

def is_as(o):
    return isinstance(o, BaseSolverAS)

def is_cs(o):
    return isinstance(o, BaseSolverCS)

def const():
    return SolverType.CONSTANT_STEP

def adapt():
    return SolverType.ADAPTIVE_STEP

def const2():
    return SolverType.CS

def adapt2():
    return SolverType.AS

class UserAS(BaseSolverAS):
    def _reset(self):
        pass
    def _q(self):
        return 4
    def _update_stages(self, u, h):
        return u, u

class UserCS(BaseSolverCS):
    def _reset(self):
        pass
    def _update_stages(self, u, h):
        return u

class Sub34(ETD34):
    pass

class Sub4(ETD4):
    pass

class Duck:
    @property
    def solver_type(self):
        return SolverType.ADAPTIVE_STEP
    def step(self, u, h):
        return u, h, h
    def _update_stages(self, u, h):
        return u, u
'''


IMPOSTOR = '''
class BaseSolver:
    pass

class BaseSolverAS(BaseSolver):
    pass

class BaseSolverCS(BaseSolver):
    pass

class ETD34(BaseSolverAS):
    pass

class ETD4(BaseSolverCS):
    pass

class Values:
%s

class Methods:
%s
'''


def impostor(root):
    """objects that share class names, or every attribute and method name used in the package, with the solvers"""
    import ast
    import glob
    import keyword
    import os
    names = set()
    for f in sorted(glob.glob(os.path.join(root, "rkstiff", "**", "*.py"), recursive=True)):
        for n in ast.walk(ast.parse(open(f, encoding="utf-8").read())):
            if isinstance(n, ast.Attribute):
                names.add(n.attr)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                names.add(n.name)
            elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier():
                names.add(n.value)
    names = sorted(n for n in names if not n.startswith("__") and not keyword.iskeyword(n))
    return IMPOSTOR % ("\n".join("    %s = None" % n for n in names), "\n".join("    def %s(self, *args, **kw):\n        return None" % n for n in names))


def make(C, cls, rep):
    I = C.I
    st = C.st.fork()
    n = NLEN
    if rep == "diagonal":
        a = Arr(P(Atom("elem", "lam", (IX,))), ((n, None),), "any", owner="user:lin_op")
    else:
        from ..arrays import LAM
        a = Arr(P(LAM), ((n, None), (n, None)), "any", "op", owner="user:lin_op")
    I.problem = rep
    kw = {"lin_op": I.new(st, a), "nl_func": Ext("ghost.nl")}
    if rep == "diagonalized":
        kw["diagonalize"] = Bool(TRUE)
    k, rs = C.run(st, cls, **kw)
    if k is None:
        raise Undecided("cannot be constructed")
    return k


def check(R):
    R.rule("tag", "the type tag of every solver is the one of its family")
    R.rule("detected", "detection from an instance returns the tag the instance reports")
    R.rule("family", "every solver is an instance of exactly one of the two base classes, the one of its family")
    R.rule("step-shape", "a constant-step solver's step returns the state alone, an adaptive one's (state, used step, suggested step)")
    R.rule("members", "the two tags are different and their short names are aliases of them")
    R.rule("refused", "detection raises TypeError on anything that is not a solver")
    def client():
        C = Client(R, SRC)
        C.I.handlers["ghost.nl"] = nl_handler
        return C
    C = client()
    val = {}
    for n in ("const", "adapt", "const2", "adapt2"):
        k, rs = C.run(C.st, n)
        val[n] = k[1] if k else None
    d = lambda a, b: C.run(C.st, "same", val[a], val[b])[0]
    for a, b, want in (("const", "adapt", FALSE), ("const", "const2", TRUE), ("adapt", "adapt2", TRUE)):
        r = d(a, b) if val[a] is not None and val[b] is not None else None
        c = r[1].c if r and isinstance(r[1], Bool) else None
        R.verdict(True if c is want else False if c in (TRUE, FALSE) else None, "members", "SolverType %s/%s" % (a, b), "identity is %r" % (c,))
    cases = [(n, MODS[n], n, n in ADAPTIVE, rep) for n in SOLVERS for rep in REPS
             if not (rep == "diagonalized" and n in CONSTANT + ["IF45DP"] or rep == "matrix" and n == "IF45DP")]
    cases += [("a user subclass of BaseSolverAS", "client", "UserAS", True, "diagonal"), ("a user subclass of BaseSolverCS", "client", "UserCS", False, "diagonal"),
              ("a subclass of ETD34", "client", "Sub34", True, "diagonal"), ("a subclass of ETD4", "client", "Sub4", False, "diagonal")]
    for label, mod, cn, adaptive, rep in cases:
        con = "%s[%s]" % (label, rep)
        C = client()
        try:
            cls = C.cls(mod, cn)
            st, o = make(C, cls, rep)
            one(R, C, st, o, cls, adaptive, con)
        except Undecided as e:
            R.unk("tag", con, str(e))
        R.absorb(C.I)
    C = client()
    I = C.I
    I.load_source("impostor", impostor(R.root))
    things = [("None", lambda s: NONE), ("a number", lambda s: Num(P(T.sym("x", real=True)))), ("a string", lambda s: Str("ETD34")),
              ("a tuple", lambda s: Tup(())), ("a list", lambda s: I.new(s, ListO(()))), ("an array", lambda s: I.new(s, Arr(P(Atom("elem", "v", (IX,))), ((NLEN, None),), "float"))),
              ("the class ETD34", lambda s: C.cls("rkstiff.etd34", "ETD34")), ("the class ETD4", lambda s: C.cls("rkstiff.etd4", "ETD4")),
              ("a function", lambda s: C.fn("tag")), ("the tag itself", lambda s: val["adapt"])]
    for n, mk in (("a SolverConfig", ("rkstiff.solveras", "SolverConfig")), ("an ETDConfig", ("rkstiff.etd", "ETDConfig")), ("a look-alike that is no solver", ("client", "Duck")),
                  ("an object with the attributes of a solver", ("impostor", "Values")), ("an object with the methods of a solver", ("impostor", "Methods")),
                  ("an object of another class named ETD34", ("impostor", "ETD34")), ("an object of another class named ETD4", ("impostor", "ETD4"))):
        things.append((n, lambda s, m=mk: ("make", m)))
    for n, mk in things:
        st = C.st.fork()
        try:
            v = mk(st)
            if isinstance(v, tuple) and v[0] == "make":
                k, _ = C.run(st, C.cls(*v[1]))
                st, v = k
            k, rs = C.run(st, "detected", v)
        except Undecided as e:
            R.unk("refused", n, str(e))
            continue
        if k is not None:
            R.verdict(None if T.uncertain(k[0].path) else False, "refused", n, "detected as %r" % (k[1],))
        elif any("TypeError" not in r[0] for r in rs):
            R.viol("refused", n, "raises %s" % excname(rs[0][0]), rs[0][1])
        else:
            R.ok("refused", n)
    R.absorb(I)


def one(R, C, st, o, cls, adaptive, con):
    def cond(k):
        return k[1].c if k and isinstance(k[1], Bool) else None

    def verdict(rule, k, rs, detail):
        c = cond(k)
        if k is None:
            R.viol(rule, con, "raises %s" % (excname(rs[0][0]) if rs else "?"), rs[0][1] if rs else "")
        else:
            R.verdict(True if c is TRUE else False if c is FALSE else None, rule, con, detail)
    want, _ = C.run(st, "adapt" if adaptive else "const")
    tag, rs = C.run(st, "tag", o)
    if tag is None:
        R.viol("tag", con, "solver_type raises %s" % (excname(rs[0][0]),), rs[0][1])
    else:
        verdict("tag", *C.run(tag[0], "same", tag[1], want[1]), "tag is %r" % (tag[1],))
        det, rs = C.run(st, "detected", o)
        if det is None:
            R.viol("detected", con, "raises %s" % (excname(rs[0][0]),), rs[0][1])
        else:
            verdict("detected", *C.run(det[0], "same", det[1], tag[1]), "detected as %r, reported as %r" % (det[1], tag[1]))
    for f, w in (("is_as", adaptive), ("is_cs", not adaptive)):
        k, rs = C.run(st, f, o)
        c = cond(k)
        R.verdict(None if c not in (TRUE, FALSE) else (c is TRUE) == w, "family", con + " " + f, "isinstance is %r" % (c,))
    # the shape of what step returns, for arbitrary stages
    u = C.I.new(st, Arr(P(Atom("elem", "u", (IX,))), ((NLEN, None),), "complex", space=None, owner="user:u"))

    def one_stage(I, s, args, kw, node):
        return stages_handler(I, s, args, kw, node).items[0]
    h = T.sym("h", real=True, pos=True)
    with stubbed(C.I, cls, handler=None if adaptive else one_stage):
        try:
            ok, rs = C.I.run(st, MethodCall(o, "step"), [u, Num(P(h))], {})
        except Undecided as e:
            R.unk("step-shape", con, str(e))
            return
    if not ok:
        R.viol("step-shape", con, "step has no normal outcome", rs[0][2] if rs else "")
        return
    s, v = ok[0]
    vs = leaves_of(v)
    bad = None
    for x in vs:
        if adaptive:
            if not isinstance(x, Tup) or len(x.items) != 3:
                bad = "returns %s" % kind(s, x)
            elif not isinstance(as_arr(C.I, s, x.items[0]), Arr) or not all(isinstance(y, (Num, IteV)) for y in x.items[1:]):
                bad = "returns (%s)" % ", ".join(kind(s, y) for y in x.items)
        elif not isinstance(x, Ref) or not isinstance(s.heap[x.oid], Arr):
            bad = "returns %s" % kind(s, x)
    if bad and any(isinstance(x, Opaque) for x in vs):
        R.unk("step-shape", con, bad)
    elif bad:
        R.viol("step-shape", con, bad)
    else:
        R.ok("step-shape", con)


def leaves_of(v):
    return leaves_of(v.a) + leaves_of(v.b) if isinstance(v, IteV) else [v]


def kind(s, x):
    if isinstance(x, Ref):
        return type(s.heap[x.oid]).__name__
    if isinstance(x, Tup):
        return "a tuple of %d" % len(x.items)
    return type(x).__name__
