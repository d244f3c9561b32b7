"""Client code interpreted against the library: the sequences of calls a property quantifies over."""
from __future__ import annotations
from .interp import Interp, Undecided
from .values import *
from .terms import *
from .terms import P
from . import terms as T

NAN = Num(P(NAN_))
INF = Num(P(INF_))
NINF = Num(-P(INF_))


class Client:
    def __init__(self, R, src="", facts=()):
        self.R = R
        self.I = Interp(R.root)
        self.I.collapse_means = False
        self.I.problem = "diagonal"
        if src:
            self.I.load_source("client", src)
        self.st = self.I.st0.fork()

    def cls(self, mod, name):
        return self.I.glob(mod, name)

    def fn(self, name):
        return self.I.glob("client", name)

    def run(self, st, f, *args, **kw):
        """(state, value) of the normal outcome or None, and [(exception class names, where)]"""
        if isinstance(f, str):
            f = self.fn(f)
        ok, rs = self.I.run(st, f, list(args), kw)
        out = []
        for s, e, w in rs:
            if self.feasible(s.path):
                out.append((self.I.exc_names(self.I.exc_class(s, e)), w, s))
        return (ok[0] if ok else None), out

    def feasible(self, path):
        from .order import prove_leaf
        try:
            return not prove_leaf(list(path), FALSE)
        except Exception:
            return True


def num(name, facts=(), **attr):
    """fresh symbol and its value"""
    attr.setdefault("real", True)
    s = T.sym(name, **attr)
    return Num(P(s), "int" if attr.get("int") else "float")


def refs(v):
    if isinstance(v, Ref):
        return [v]
    if isinstance(v, Tup):
        return [r for x in v.items for r in refs(x)]
    if isinstance(v, IteV):
        return refs(v.a) + refs(v.b)
    if isinstance(v, Bound):
        return refs(v.self)
    if isinstance(v, Seq):
        return refs(v.elem)
    x = getattr(v, "v", None)
    return refs(x) if isinstance(x, V) else []


def reach(st, roots):
    """objects reachable through attributes and elements: oid -> access path; loggers are left out"""
    out = {}
    todo = [(r, n) for n, v in roots for r in refs(v)]
    while todo:
        r, path = todo.pop(0)
        o = st.heap.get(r.oid)
        if r.oid in out or o is None:
            continue
        if isinstance(o, Inst) and isinstance(o.cls, Ext) and o.cls.path.startswith("logging."):
            continue
        out[r.oid] = path
        if isinstance(o, Inst):
            kids = [("%s.%s" % (path, k), v) for k, v in o.f.items()]
        elif isinstance(o, DictO):
            kids = [("%s[%r]" % (path, k), v) for k, v in o.d.items()]
        elif isinstance(o, ListO):
            kids = [("%s[%d]" % (path, k), v) for k, v in enumerate(o.items)]
            if o.sym is not None:
                kids.append((path + "[*]", o.sym))
        elif isinstance(o, Arr):
            kids = []
            b = o.base
            if isinstance(b, tuple):
                b = b[0]
            if isinstance(b, int):
                kids.append((path + ".base", Ref(b)))
        else:
            kids = []
        for p, v in kids:
            for x in refs(v):
                todo.append((x, p))
    return out


def excname(names):
    if not names:
        return "an exception of an unknown class"
    n = names[0]
    return getattr(n, "name", None) or str(n)
