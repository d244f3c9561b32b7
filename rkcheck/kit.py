"""Problem set-ups shared by the checks."""
from __future__ import annotations
from .interp import Interp, State, Dead, Undecided, UNSET
from .terms import *
from .terms import P
from . import terms as T
from .values import *
from .arrays import as_arr, LAM

MODS = {"ETD4": "rkstiff.etd4", "ETD5": "rkstiff.etd5", "IF4": "rkstiff.if4", "ETD34": "rkstiff.etd34", "ETD35": "rkstiff.etd35", "IF34": "rkstiff.if34", "IF45DP": "rkstiff.if45dp"}
ADAPTIVE = ["ETD34", "ETD35", "IF34", "IF45DP"]
CONSTANT = ["ETD4", "ETD5", "IF4"]
SOLVERS = CONSTANT + ADAPTIVE
REPS = ["diagonal", "matrix", "diagonalized"]
NMODES = T.sym("n", int=True, real=True, pos=True)
IX = P(idx(0))


NLEN = P(NMODES)


def nl_handler(I, st, args, kw, node):
    """the user's nonlinear function: an arbitrary function of the state returning a new array"""
    if kw or len(args) != 1:
        I.exc(st, "TypeError", None, node)
    hook = I.fault_hook
    if hook is not None:
        hook(I, st, "nl_func", node)
    x = as_arr(I, st, args[0], node)
    if not isinstance(x, Arr):
        return I.new(st, Arr(I.opq("nl of a non-array"), ((NLEN, None),), "complex", owner="nl"))
    oid = args[0].oid if isinstance(args[0], Ref) else None
    I.ev(st, "nl", node, arg=args[0], arr=x, oid=oid)
    fn = getattr(I, "nl_model", None)
    if fn is not None:
        c = fn(I, st, x)
    elif x.space == "eig":
        from .arrays import bad
        c = bad(I, "nonlinear function of a vector in the eigenbasis")
    elif len(x.axes) != 1:
        from .arrays import bad
        c = bad(I, "nonlinear function of a %d-dimensional array" % len(x.axes))
    else:
        c = nl_of(x.content, x.axes)
    if getattr(I, "expose", None) is not None and oid is not None:
        I.expose(st, oid, "an array passed to the nonlinear function")
    return I.new(st, Arr(c, x.axes, "complex", space="phys" if I.problem != "diagonal" else None, owner="nl"))


def nl_of(content, axes=None, sp=None):
    return P(Atom("app", "N", (Lam(content, axes or ((NLEN, None),)),), (IX,)))


class Problem:
    """one solver class on one operator representation"""

    def __init__(self, R, name, rep, cfg=None, faults=None, collapse=True, mode="widen"):
        self.R, self.name, self.rep = R, name, rep
        I = self.I = Interp(R.root)
        I.fault_hook = faults
        I.problem = rep
        I.loop_mode = mode
        I.collapse_means = collapse
        I.handlers["ghost.nl"] = nl_handler
        self.cls = I.glob(MODS[name], name)
        self.st = I.st0.fork()
        self.cfg = cfg or {}

    # -------------------------------------------------------------- inputs
    def lin_op(self, st):
        I = self.I
        if self.rep == "diagonal":
            self.lam = P(Atom("elem", "lam", (IX,)))
            a = Arr(self.lam, ((NLEN, None),), "any", owner="user:lin_op")
        else:
            self.lam = P(LAM)
            a = Arr(self.lam, ((NLEN, None), (NLEN, None)), "any", "op", owner="user:lin_op")
        r = I.new(st, a)
        self.lin_ref = r
        return r

    def vec(self, st, name="u", content=None):
        c = content if content is not None else P(Atom("elem", name, (IX,)))
        return self.I.new(st, Arr(c, ((NLEN, None),), "any", space=None if self.rep == "diagonal" else "phys", owner="user:" + name))

    def make(self, st, **extra):
        """construct the solver; returns (state, ref)"""
        I = self.I
        kw = {"lin_op": self.lin_op(st), "nl_func": Ext("ghost.nl")}
        if self.rep == "diagonalized":
            kw["diagonalize"] = Bool(TRUE)
        kw.update(extra)
        ok, rs = I.run(st, self.cls, [], kw)
        if not ok:
            raise Undecided("%s cannot be constructed on a %s operator" % (self.name, self.rep))
        st, v = ok[0]
        return st, v

    def etd_config(self, st):
        """an ETDConfig with arbitrary admissible values, or None when the class takes none"""
        I = self.I
        if not self.name.startswith("ETD"):
            return st, None
        mc = T.sym("modecutoff", real=True, pos=True)
        m = T.sym("M", int=True, real=True, pos=True)
        r = T.sym("R", real=True, pos=True)
        st = st.fork(mk_cmp("le", P(mc), ONE), mk_cmp("le", P(2), P(m)))
        ok, rs = I.run(st, I.glob("rkstiff.etd", "ETDConfig"), [], {"modecutoff": Num(P(mc)), "contour_points": Num(P(m), "int"), "contour_radius": Num(P(r))})
        if len(ok) != 1:
            raise Undecided("ETDConfig rejects admissible values")
        return ok[0]

    def call(self, st, obj, meth, *args, **kw):
        f = Ext("ghost.call")
        I = self.I
        ok, rs = I.run(st, MethodCall(obj, meth), list(args), kw)
        return ok, rs

    def field(self, st, obj, name):
        return st.heap[obj.oid].f.get(name)

    def content(self, st, v):
        return as_arr(self.I, st, v)


def MethodCall(obj, meth):
    return _MC(obj, meth)


class _MC(V):
    """obj.meth, looked up when called"""
    __slots__ = ("obj", "meth")

    def __init__(self, obj, meth):
        self.obj, self.meth = obj, meth


def _resolve(I, st, f, args, kw, node):
    return I.call(st, I.getattr(st, f.obj, f.meth, node), args, kw, node)


Interp.call_special = staticmethod(_resolve)


def stages_handler(I, st, args, kw, node):
    """arbitrary stages: a new state and a new error estimate, both arbitrary arrays"""
    a = I.new(st, Arr(P(Atom("elem", "unew~%d" % next(T._fresh), (IX,))), ((NLEN, None),), "complex", owner="stages"))
    b = I.new(st, Arr(P(Atom("elem", "err~%d" % next(T._fresh), (IX,))), ((NLEN, None),), "complex", owner="stages"))
    return Tup((a, b))


class stubbed:
    """the class's stages replaced by arbitrary ones"""

    def __init__(self, I, cls, name="_update_stages", handler=None):
        self.I, self.cls, self.name = I, cls, name
        I.handlers["ghost.stages"] = handler or stages_handler

    def __enter__(self):
        self.old = self.cls.attrs.get(self.name)
        self.cls.attrs[self.name] = StaticM(Ext("ghost.stages"))

    def __exit__(self, *a):
        if self.old is None:
            del self.cls.attrs[self.name]
        else:
            self.cls.attrs[self.name] = self.old
