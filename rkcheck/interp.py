"""Abstract interpreter over Python syntax trees (joins at merges, fixpoints at loops; nothing of /repo is imported or run)."""
from __future__ import annotations
import ast, os, itertools, sys
from fractions import Fraction
from .terms import *
from .terms import P, SYMATTR
from . import terms as T
from .order import prove
from .values import *

sys.setrecursionlimit(20000)


class Undecided(Exception):
    """the analysis cannot interpret a construct"""


class Dead(Exception):
    """no normal continuation"""


UNSET = Opaque("unset")
ELL = EllipsisV()


@dataclass(frozen=True, eq=False)
class CondItem:
    """a list entry that is present only under a condition"""
    c: Cond
    items: tuple


class State:
    __slots__ = ("heap", "path")

    def __init__(self, heap, path=()):
        self.heap, self.path = heap, path

    def fork(self, *conds):
        return State(dict(self.heap), self.path + tuple(c for c in conds if c is not TRUE))

    def become(self, o):
        self.heap, self.path = o.heap, o.path


class Frame:
    def __init__(self, name, mod, cls, env, selfv=None):
        self.name, self.mod, self.cls, self.env, self.selfv = name, mod, cls, env, selfv
        self.returns, self.breaks, self.conts = [], [], []
        self.yields = None
        self.consumer = self.outer = None
        self.locals = frozenset()
        self.globals = frozenset()
        self.node = None


class Module:
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src, self.env = name, path, tree, src, None


EXC_PARENT = {
    "BaseException": None, "Exception": "BaseException", "ArithmeticError": "Exception", "ZeroDivisionError": "ArithmeticError",
    "OverflowError": "ArithmeticError", "FloatingPointError": "ArithmeticError", "ValueError": "Exception",
    "TypeError": "Exception", "LookupError": "Exception", "IndexError": "LookupError", "KeyError": "LookupError",
    "AttributeError": "Exception", "RuntimeError": "Exception", "NotImplementedError": "RuntimeError",
    "AssertionError": "Exception", "KeyboardInterrupt": "BaseException", "StopIteration": "Exception",
    "UserError": "Exception", "NameError": "Exception", "UnboundLocalError": "NameError", "ImportError": "Exception", "Warning": "Exception", "UserWarning": "Warning",
    "RuntimeWarning": "Warning", "DeprecationWarning": "Warning", "LinAlgError": "ValueError", "OSError": "Exception",
    "RecursionError": "RuntimeError", "FutureWarning": "Warning", "SystemExit": "BaseException", "GeneratorExit": "BaseException",
    "UnicodeError": "ValueError", "ModuleNotFoundError": "ImportError",
}


class Interp:
    def __init__(self, root="/repo", ext_nodes=True):
        self.root = root
        self.modules = {}
        self.events = []
        self.record = True
        self.sinks = []
        self.stack = []
        self.oid = itertools.count(1)
        self.handlers = {}
        self.exts = {}
        self.loop_mode = "widen"
        self.loops = []
        self.depth = 0
        self.stats = {"functions": set(), "calls": 0, "stmts": 0, "branches": 0, "loops": 0, "files": set(), "narrow": set()}
        self.facts = []  # global facts (spec assumptions)
        self.dec_cache = {}
        self.opaque_seen = []
        self.ghost_roots = []
        self.collapse_means = True
        self.fault_hook = None
        self.ieee = False  # norms may be zero, infinite or NaN
        self.strict_math = False  # conversions of NaN and arguments outside a function's domain raise
        self.rounded = False  # sums of scalars carry a rounding
        self.from_head = None  # (I, head state, Gen): called once, at the outermost loop of attempts
        self.on_pass = None  # (number, state) at the start of every pass of a bounded loop
        self.nest = []  # pass numbers of the bounded loops being analysed
        self.merge_keep = None  # states -> states: which of several outcomes to go on with
        self.problem = None
        self.lazy_gen = None
        from . import npmodel
        npmodel.install(self)
        self.st0 = State({})
        from . import prelude
        prelude.install(self)

    # ------------------------------------------------------------------------------------------ helpers
    def new(self, st, obj):
        o = next(self.oid)
        st.heap[o] = obj
        return Ref(o)

    def ev(self, st, kind, node=None, **kw):
        if self.record:
            fr = self.stack[-1] if self.stack else None
            e = dict(kind=kind, path=st.path, site=self.site(node), fn=fr.name if fr else "?", **kw)
            e["stack"] = tuple(f.name for f in self.stack)
            self.events.append(e)

    def site(self, node):
        fr = self.stack[-1] if self.stack else None
        m = fr.mod.path if fr and fr.mod else "?"
        return "%s:%s" % (os.path.relpath(m, self.root) if m != "?" else m, getattr(node, "lineno", "?"))

    def where(self, node):
        fr = self.stack[-1] if self.stack else None
        return "%s (%s)" % (self.site(node), fr.name if fr else "?")

    def undecided(self, msg, node=None):
        raise Undecided("%s at %s" % (msg, self.where(node)))

    # ------------------------------------------------------------------------------------------ conditions
    def decide(self, st, c):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        key = (st.path, c, len(self.facts))
        r = self.dec_cache.get(key, 0)
        if r != 0:
            return r
        r = self._decide(st, c)
        self.dec_cache[key] = r
        return r

    def _decide(self, st, c):
        facts = list(self.facts) + list(st.path)
        if any(f.kind == "or" for f in facts):
            known = set(facts)
            for f in facts[:]:
                if f.kind == "or":
                    rest = [x for x in f.args[0] if mk_not(x) not in known]
                    if len(rest) == 1 and rest[0] not in known:
                        facts.append(rest[0])
                        known.add(rest[0])
        d = c
        for lit in facts:
            d = T.cond_assume(d, lit, True)
            if d is TRUE:
                return True
            if d is FALSE:
                return False
        # equalities on the path
        m = {}
        for lit in facts:
            if lit.kind == "cmp" and lit.args[0] == "eq":
                s = T.solve_eq(T.subst(lit, m)) if m else T.solve_eq(lit)
                if s is not None:
                    m = {k: T.subst(v, {s[0]: s[1]}) for k, v in m.items()}
                    m[s[0]] = s[1]
        if m:
            d = T.subst(d, m)
            if d is TRUE:
                return True
            if d is FALSE:
                return False
        if not has_order(d):
            return None
        if prove(facts, d):
            return True
        n = mk_not(d)
        if prove(facts, n):
            return False
        return None

    def assume(self, st, c):
        """add a fact to the path; Dead if impossible"""
        r = self.decide(st, c)
        if r is False:
            raise Dead
        if r is None:
            st.path = st.path + (c,)

    def branch(self, st, c, f1, f2):
        """evaluate f1 under c and f2 under not c, join; returns the joined value"""
        r = self.decide(st, c)
        if r is True:
            return f1(st)
        if r is False:
            return f2(st)
        self.stats["branches"] += 1
        s1, s2 = st.fork(c), st.fork(mk_not(c))
        v1 = v2 = None
        d1 = d2 = False
        try:
            v1 = f1(s1)
        except Dead:
            d1 = True
        try:
            v2 = f2(s2)
        except Dead:
            d2 = True
        if d1 and d2:
            raise Dead
        if d1:
            st.become(s2)
            return v2
        if d2:
            st.become(s1)
            return v1
        if self.merge_keep is not None:
            w = self.merge_keep([s1, s2])
            if len(w) == 1:
                st.become(w[0])
                return v1 if w[0] is s1 else v2
        s, cc = self.merge2(s1, s2)
        st.become(s)
        if v1 is None and v2 is None:
            return None
        return self.mval(cc, v1, v2)

    # ------------------------------------------------------------------------------------------ joins
    def discr(self, p1, p2):
        i = 0
        n = min(len(p1), len(p2))
        while i < n and p1[i] is p2[i]:
            i += 1
        if i == len(p1) and i == len(p2):
            return p1, None
        if i < len(p1) and i < len(p2) and mk_not(p1[i]) is p2[i]:
            c = p1[i]
            r1, r2 = p1[i + 1:], p2[i + 1:]
        elif i < len(p1):
            c = mk_and(*p1[i:])
            r1, r2 = (), p2[i:]
        else:
            c = mk_not(mk_and(*p2[i:]))
            r1, r2 = (), ()
        extra = []
        for x in r1[:4]:
            e = mk_or(mk_not(c), x)
            if e is not TRUE and x.kind not in ("or",):
                extra.append(e)
        for x in r2[:4]:
            e = mk_or(c, x)
            if e is not TRUE and x.kind not in ("or",):
                extra.append(e)
        # facts on both sides survive
        common = [x for x in r1 if x in r2]
        extra = [e for e in extra if not any(x in (e.args[0] if e.kind == "or" else (e,)) for x in common)]
        return p1[:i] + tuple(common) + tuple(extra), c

    def merge2(self, s1, s2):
        path, c = self.discr(s1.path, s2.path)
        if c is None:
            c = T.Cond("sym", "join~%d" % next(T._fresh))
        h = {}
        h1, h2 = s1.heap, s2.heap
        for o, a in h1.items():
            b = h2.get(o)
            if b is None or a is b:
                h[o] = a
            else:
                h[o] = self.mobj(c, a, b)
        for o, b in h2.items():
            if o not in h1:
                h[o] = b
        return State(h, path), c

    def merge_all(self, pairs):
        """[(state, value)] -> (state, value); joined right to left"""
        if self.merge_keep is not None and len(pairs) > 1:
            w = self.merge_keep([s for s, _ in pairs])
            pairs = [x for x in pairs if any(x[0] is y for y in w)]
        cur = pairs[-1]
        for s, v in reversed(pairs[:-1]):
            m, c = self.merge2(s, cur[0])
            cur = (m, self.mval(c, v, cur[1]) if v is not None or cur[1] is not None else None)
        return cur

    def mval(self, c, a, b):
        if a is b or a == b:
            return a
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if a is None or b is None:
            a = a if a is not None else NONE
            b = b if b is not None else NONE
        if isinstance(a, Num) and isinstance(b, Num):
            return Num(ite(c, a.p, b.p), promote(a.ty, b.ty))
        if isinstance(a, Bool) and isinstance(b, Bool):
            return Bool(mk_or(mk_and(c, a.c), mk_and(mk_not(c), b.c)))
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return Tup(tuple(self.mval(c, x, y) for x, y in zip(a.items, b.items)), a.cls if a.cls is b.cls else None)
        if isinstance(a, Str) and isinstance(b, Str) and not (a.known and b.known):
            return Str(("merged", next(T._fresh)))
        if isinstance(a, IteV) and a.c is c:
            a = a.a
        if isinstance(b, IteV) and b.c is c:
            b = b.b
        if isinstance(b, IteV) and (b.a is a or b.a == a):
            return self.mval(mk_or(c, b.c), a, b.b)
        if isinstance(b, IteV) and (b.b is a or b.b == a):
            return self.mval(mk_or(c, mk_not(b.c)), a, b.a)
        if isinstance(a, IteV) and (a.a is b or a.a == b):
            return self.mval(mk_and(c, mk_not(a.c)), a.b, b)
        if isinstance(a, IteV) and (a.b is b or a.b == b):
            return self.mval(mk_and(c, a.c), a.a, b)
        if c.kind == "not":
            return IteV(c.args[0], b, a)
        return IteV(c, a, b)

    def mobj(self, c, a, b):
        if type(a) is not type(b):
            return a if isinstance(a, Inst) else b
        if isinstance(a, Inst):
            f = {}
            for k in list(a.f) + [k for k in b.f if k not in a.f]:
                x, y = a.f.get(k, UNSET), b.f.get(k, UNSET)
                f[k] = self.mval(c, x, y)
            return Inst(a.cls, f)
        if isinstance(a, EnvO):
            f = {}
            for k in list(a.vars) + [k for k in b.vars if k not in a.vars]:
                f[k] = self.mval(c, a.vars.get(k, UNSET), b.vars.get(k, UNSET))
            return EnvO(f, a.parent)
        if isinstance(a, ListO):
            if objs_equal(a, b):
                return a
            if len(a.items) == len(b.items) and a.prefix == b.prefix and a.sym == b.sym and not any(
                    isinstance(x, CondItem) or isinstance(y, CondItem) for x, y in zip(a.items, b.items) if x is not y):
                return ListO(tuple(x if x is y else self.mval(c, x, y) for x, y in zip(a.items, b.items)), a.prefix, a.sym, a.kind)
            i = 0
            while i < min(len(a.items), len(b.items)) and (a.items[i] is b.items[i] or a.items[i] == b.items[i]):
                i += 1
            if a.prefix == b.prefix and a.sym == b.sym:
                its = a.items[:i]
                if a.items[i:]:
                    its += (CondItem(c, a.items[i:]),)
                if b.items[i:]:
                    its += (CondItem(mk_not(c), b.items[i:]),)
                return ListO(its, a.prefix, a.sym, a.kind)
            return ListO((), ("merged", next(T._fresh)), None, a.kind)
        if isinstance(a, DictO):
            d = {}
            for k in list(a.d) + [k for k in b.d if k not in a.d]:
                d[k] = self.mval(c, a.d.get(k, UNSET), b.d.get(k, UNSET))
            return DictO(d)
        if isinstance(a, Arr):
            if objs_equal(a, b):
                return a
            if a.axes == b.axes and a.rep == b.rep:
                return self.marr(c, a, b)
            return replace(a, content=self.opq("arrmerge"), origins=a.origins | b.origins)
        raise Undecided("join of %s" % type(a))

    def marr(self, c, a, b):
        if isinstance(a.content, Cond) and isinstance(b.content, Cond):
            ct = mk_or(mk_and(c, a.content), mk_and(mk_not(c), b.content))
        elif isinstance(a.content, Cond) or isinstance(b.content, Cond):
            ct = self.opq("dtype-merge")
        else:
            ct = ite(c, a.content, b.content)
        sp = a.space if a.space == b.space else (a.space or b.space if (a.space is None or b.space is None) else "mixed")
        # a zero (or otherwise space-free) buffer takes the space of the other side
        return Arr(ct, a.axes, promote(a.dtype, b.dtype), a.rep, sp, a.owner if a.owner == b.owner else a.owner + "|" + b.owner,
                   a.base if a.base == b.base else (a.base or b.base), a.origins | b.origins)

    def opq(self, label):
        self.opaque_seen.append(label)
        return P(Atom("app", "opq:" + str(label), (P(next(T._fresh)),)))

    # ------------------------------------------------------------------------------------------ raising
    def exc(self, st, name, msg=None, node=None):
        v = self.new(st, Inst(Ext("builtins." + name), {"args": Tup((msg,) if msg else ())}))
        self.throw(st, v, node)

    def throw(self, st, v, node=None, implicit=False):
        if not self.sinks:
            raise Undecided("exception outside any entry point")
        v = self.pick(st, v)
        if isinstance(v, IteV):
            self.branch(st, v.c, lambda s: self.throw(s, v.a, node, implicit), lambda s: self.throw(s, v.b, node, implicit))
            raise Dead
        if isinstance(v, NoneV):
            v = Ext("TypeError")
        self.ev(st, "raise", node, exc=v)
        self.sinks[-1].append((State(st.heap, st.path), v, self.where(node)))
        raise Dead

    def may_raise(self, st, name, c, node=None):
        """raise under condition c and continue under its negation"""
        def bad(s):
            self.exc(s, name, None, node)
        self.branch(st, c, bad, lambda s: None)

    def exc_class(self, st, v):
        if isinstance(v, Ref):
            return st.heap[v.oid].cls
        return v

    def exc_names(self, c):
        """all class names/objects this exception class is an instance of"""
        out = []
        if isinstance(c, Cls):
            for k in c.mro():
                if isinstance(k, Cls):
                    out.append(k)
                else:
                    out += self.exc_names(k)
        elif isinstance(c, Ext):
            n = c.path.split(".")[-1]
            while n:
                out.append(n)
                n = EXC_PARENT.get(n)
        return out

    def exc_matches(self, c, handler):
        names = self.exc_names(c)
        if isinstance(handler, Tup):
            return any(self.exc_matches(c, h) for h in handler.items)
        if isinstance(handler, Cls):
            return handler in names
        if isinstance(handler, Ext):
            n = handler.path.split(".")[-1]
            if not isinstance(c, (Cls, Ext)):
                return n in ("Exception", "BaseException")
            return n in names
        return None

    # ------------------------------------------------------------------------------------------ modules
    def load(self, name):
        """name: dotted module name inside the package"""
        m = self.modules.get(name)
        if m is not None:
            return m
        base = os.path.join(self.root, *name.split("."))
        path = base + ".py" if os.path.isfile(base + ".py") else os.path.join(base, "__init__.py")
        if not os.path.isfile(path):
            return None
        src = open(path, encoding="utf-8").read()
        m = Module(name, path, ast.parse(src, path), src)
        self.modules[name] = m
        self.stats["files"].add(os.path.relpath(path, self.root))
        st = self.st0
        m.env = self.new(st, EnvO({"__name__": Str(name)}, None)).oid
        fr = Frame("<module %s>" % name, m, None, m.env)
        fr.globals = None
        self.stack.append(fr)
        self.sinks.append([])
        rec, self.record = self.record, True
        try:
            self.block(st, m.tree.body, fr)
        except Dead:
            raise Undecided("module %s raises on import: %s" % (name, self.sinks[-1]))
        finally:
            self.stack.pop()
            self.sinks.pop()
            self.record = rec
        # name the package's attribute
        return m

    def load_source(self, name, src):
        return self.load_tree(name, ast.parse(src), src)

    def load_tree(self, name, tree, src):
        m = Module(name, os.path.join(self.root, "<%s>" % name), tree, src)
        self.modules[name] = m
        st = self.st0
        m.env = self.new(st, EnvO({"__name__": Str(name)}, None)).oid
        fr = Frame("<module %s>" % name, m, None, m.env)
        self.stack.append(fr)
        self.sinks.append([])
        try:
            self.block(st, m.tree.body, fr)
        finally:
            self.stack.pop()
            self.sinks.pop()
        return m

    def pull(self, st):
        """objects created by modules loaded after the state was made"""
        if st is not self.st0:
            for k, o in self.st0.heap.items():
                st.heap.setdefault(k, o)
        return st

    def glob(self, modname, attr):
        m = self.load(modname)
        if m is None:
            raise Undecided("anchor module %s not found" % modname)
        v = self.st0.heap[m.env].vars.get(attr)
        if v is None:
            raise Undecided("anchor %s.%s not found" % (modname, attr))
        return v

    # ------------------------------------------------------------------------------------------ names
    def mangle(self, name, fr):
        if name.startswith("__") and not name.endswith("__") and fr.cls is not None:
            return "_" + fr.cls.name.lstrip("_") + name
        return name

    def lookup(self, st, name, fr, node):
        name = self.mangle(name, fr) if fr.cls is not None and name.startswith("__") else name
        o = fr.env
        while o is not None:
            e = st.heap.get(o)
            if e is None:
                break
            if name in e.vars:
                v = e.vars[name]
                return self.check_set(st, v, node, "UnboundLocalError")
            if o == fr.env and name in fr.locals:
                self.exc(st, "UnboundLocalError", None, node)
            o = e.parent
        e = st.heap.get(fr.mod.env) or self.st0.heap.get(fr.mod.env)
        if name in e.vars:
            return e.vars[name]
        if name in ("True", "False", "None"):
            return {"True": Bool(TRUE), "False": Bool(FALSE), "None": NONE}[name]
        import builtins
        if hasattr(builtins, name):
            return Ext("builtins." + name)
        self.exc(st, "NameError", None, node)

    def check_set(self, st, v, node, err):
        if v is UNSET:
            self.exc(st, err, None, node)
        if isinstance(v, IteV) and has_unset(v):
            return self.lift(st, v, lambda s, x: self.check_set(s, x, node, err))
        return v

    def bindname(self, st, name, v, fr):
        o = fr.env
        if fr.globals and name in fr.globals:
            o = fr.globals[name]
            if o is None:
                o = fr.mod.env
        e = st.heap[o]
        d = dict(e.vars)
        d[name] = v
        st.heap[o] = EnvO(d, e.parent)

    # ------------------------------------------------------------------------------------------ lifting
    def lift(self, st, v, f):
        if isinstance(v, IteV):
            return self.branch(st, v.c, lambda s: self.lift(s, v.a, f), lambda s: self.lift(s, v.b, f))
        return f(st, v)

    def pick(self, st, v):
        """resolve gated values whose condition is known here"""
        while isinstance(v, IteV):
            r = self.decide(st, v.c)
            if r is True:
                v = v.a
            elif r is False:
                v = v.b
            else:
                return v
        return v

    def alts(self, st, v, cond=TRUE):
        v = self.pick(st, v)
        if isinstance(v, IteV):
            return self.alts(st, v.a, mk_and(cond, v.c)) + self.alts(st, v.b, mk_and(cond, mk_not(v.c)))
        return [(cond, v)]

    # ------------------------------------------------------------------------------------------ truth
    def truth(self, st, v, node=None):
        if isinstance(v, Bool):
            return v.c
        if isinstance(v, Num):
            if v.ty in ("any",):
                pass
            return mk_not(mk_cmp("eq", v.p, ZERO))
        if isinstance(v, NoneV):
            return FALSE
        if isinstance(v, Str):
            if v.known:
                return TRUE if v.s else FALSE
            return T.Cond("app", "nonempty", (id_term(v),))
        if isinstance(v, Tup):
            return TRUE if v.items else FALSE
        if isinstance(v, IteV):
            a, b = self.truth(st, v.a, node), self.truth(st, v.b, node)
            return mk_or(mk_and(v.c, a), mk_and(mk_not(v.c), b))
        if isinstance(v, Ref):
            o = st.heap[v.oid]
            if isinstance(o, ListO):
                if any(not isinstance(x, CondItem) for x in o.items):
                    return TRUE
                if o.prefix is None and o.sym is None:
                    if not o.items:
                        return FALSE
                    return mk_or(*[x.c for x in o.items])
                if o.sym is not None and o.prefix is None and not o.items:
                    return mk_cmp("lt", ZERO, o.sym.n)
                if o.sym is None and o.prefix is not None and not o.items:
                    from .np_reduce import prefix_len
                    return mk_cmp("lt", ZERO, prefix_len(o.prefix))
                return T.Cond("app", "nonempty", (P(T.fresh("list")),))
            if isinstance(o, DictO):
                return TRUE if o.d else FALSE
            if isinstance(o, Arr):
                if all(ax[0].const() == 1 for ax in o.axes) or not o.axes:
                    return self.truth(st, self.arr_scalar(o), node)
                return T.Cond("app", "arraytruth", (P(T.fresh("t")),))
            if isinstance(o, Inst):
                m = self.find_attr(o.cls, "__bool__")
                if m is None:
                    m2 = self.find_attr(o.cls, "__len__")
                    if m2 is None:
                        return TRUE
                    return self.truth(st, self.call(st, Bound(m2, v), [], {}, node), node)
                return self.truth(st, self.call(st, Bound(m, v), [], {}, node), node)
        if isinstance(v, Opaque):
            return T.Cond("app", "truth", (P(T.fresh("opq")),))
        return TRUE

    def arr_scalar(self, o):
        from .npmodel import strip_idx
        c = strip_idx(o.content)
        if isinstance(c, Cond):
            return Bool(c)
        return Num(c, o.dtype if o.dtype != "bool" else "int")

    # ------------------------------------------------------------------------------------------ attributes
    def find_attr(self, cls, name):
        if not isinstance(cls, Cls):
            return None
        for k in cls.mro():
            if isinstance(k, Cls) and name in k.attrs:
                return k.attrs[name]
        return None

    def find_attr_after(self, cls, after, name):
        mro = cls.mro()
        i = mro.index(after)
        for k in mro[i + 1:]:
            if isinstance(k, Cls) and name in k.attrs:
                return k.attrs[name]
            if isinstance(k, Ext) and k.path not in ("builtins.object", "object", "abc.ABC", "typing.Generic"):
                return Ext(k.path + "." + name)
        return None

    def getattr(self, st, v, name, node=None, default=None):
        if isinstance(v, IteV):
            return self.lift(st, v, lambda s, x: self.getattr(s, x, name, node, default))
        if isinstance(v, Ref):
            o = st.heap[v.oid]
            if isinstance(o, Inst):
                a = self.find_attr(o.cls, name) if isinstance(o.cls, Cls) else None
                if isinstance(a, Prop):
                    if a.fget is None:
                        self.exc(st, "AttributeError", None, node)
                    return self.call(st, Bound(a.fget, v), [], {}, node)
                d = self.descriptor(st, a)
                if d and ("__set__" in d or name not in o.f) and "__get__" in d:
                    return self.call(st, Bound(d["__get__"], a), [v, o.cls], {}, node)
                if name in o.f:
                    r = o.f[name]
                    if a is not None and has_unset(r):
                        # the attribute of the class shows through
                        return fill(self, r, self.bind(a, v, o.cls))
                    if r is UNSET:
                        if default is not None:
                            return default
                        self.exc(st, "AttributeError", None, node)
                    if isinstance(r, IteV) and has_unset(r):
                        if default is not None:
                            return fill(self, r, default)
                        return self.lift(st, r, lambda s, x: self.exc(s, "AttributeError", None, node) if x is UNSET else x)
                    return r
                if a is not None:
                    return self.bind(a, v, o.cls)
                if name == "__class__":
                    return o.cls
                if name == "__dict__":
                    return Opaque(("__dict__", v))
                h = self.exts.get(("attr", o.cls.path if isinstance(o.cls, Ext) else None, name))
                if h is not None:
                    return h(self, st, v, node)
                if isinstance(o.cls, Ext) and o.cls.path == "logging.Logger":
                    return Bound(Ext("logger." + name), v)
                if isinstance(o.cls, Ext) and o.cls.path == "logging.Handler":
                    return Bound(Ext("handler." + name), v)
                if isinstance(o.cls, Cls) and any(isinstance(k, Ext) and k.path.split(".")[-1] in EXC_PARENT for k in o.cls.mro()) and name in ("args", "with_traceback", "add_note"):
                    return Opaque(name)
                if isinstance(o.cls, Cls) and any(isinstance(k, Ext) and k.path not in ("abc.ABC", "builtins.object", "enum.Enum", "typing.Generic", "typing.Protocol") for k in o.cls.mro()):
                    return Opaque("ext-attr " + name)
                if default is not None:
                    return default
                if name in ("__init__",):
                    return Ext("builtins.object.__init__")
                ga = self.find_attr(o.cls, "__getattr__") if isinstance(o.cls, Cls) else None
                if ga is not None:
                    return self.call(st, Bound(ga, v), [Str(name)], {}, node)
                self.exc(st, "AttributeError", Str("%s has no attribute %s" % (getattr(o.cls, "name", o.cls), name)), node)
            if isinstance(o, Arr):
                from . import npmodel
                return npmodel.arr_attr(self, st, v, o, name, node)
            if isinstance(o, ListO):
                return Bound(Ext("%s.%s" % (o.kind, name)), v)
            if isinstance(o, DictO):
                return Bound(Ext("dict." + name), v)
        if isinstance(v, Tup) and v.cls is not None:
            r = self.tuple_attr(st, v, name, node)
            if r is not None:
                return r
        if isinstance(v, Opaque) and isinstance(v.label, tuple) and v.label[0] == "__dict__":
            return Bound(Ext("instdict." + name), v.label[1])
        if isinstance(v, Cls):
            if name == "__name__" or name == "__qualname__":
                return Str(v.name)
            if name == "__module__":
                return Str(v.mod.name)
            if name == "__doc__":
                return Opaque("doc")
            if name == "__mro__":
                return Tup(tuple(v.mro()))
            a = self.find_attr(v, name)
            if a is not None:
                if isinstance(a, StaticM):
                    return a.f
                if isinstance(a, ClassM):
                    return Bound(a.f, v)
                return a
            if name == "__members__" or name.startswith("__"):
                return Opaque("class attr " + name)
            if default is not None:
                return default
            self.exc(st, "AttributeError", None, node)
        if isinstance(v, Super):
            o = st.heap[v.self.oid].cls if isinstance(v.self, Ref) else v.self
            a = self.find_attr_after(o, v.cls, name)
            if a is None:
                if name == "__init__":
                    return Ext("builtins.object.__init__")
                if name == "__setattr__":
                    return Bound(Ext("object.__setattr__"), v.self)
                if name == "__new__":
                    return Ext("builtins.object.__new__")
                if name == "__init_subclass__":
                    return Ext("builtins.object.__init_subclass__")
                self.exc(st, "AttributeError", None, node)
            return self.bind(a, v.self, o, st, node)
        if isinstance(v, Ext):
            p = v.path + "." + name
            h = self.exts.get(p)
            if h is not None:
                return h(self, st) if callable(h) else h
            if v.path.startswith("dtype.") and name in ("kind", "char", "name", "itemsize", "type", "str"):
                d = v.path[6:]
                k = {"float": ("f", "d", "float64", 8), "complex": ("c", "D", "complex128", 16), "int": ("i", "l", "int64", 8), "bool": ("b", "?", "bool", 1)}.get(d)
                if k is None:
                    return Opaque(("dtype", name, d))
                if name == "itemsize":
                    return Num(P(k[3]), "int")
                if name == "type":
                    return Ext("numpy." + k[2])
                if name == "str":
                    return Str("|b1" if d == "bool" else "<%s%d" % (k[0], k[3]))
                return Str(k[{"kind": 0, "char": 1, "name": 2}[name]])
            return Ext(p)
        if isinstance(v, Mod):
            e = self.st0.heap[self.modules[v.name].env]
            if name in e.vars:
                return (st.heap.get(self.modules[v.name].env) or e).vars[name]
            sub = self.load(v.name + "." + name)
            if sub is not None:
                return Mod(v.name + "." + name)
            self.exc(st, "AttributeError", None, node)
        if isinstance(v, (Str, Tup, Bool)) or isinstance(v, Num) and default is not None:
            from .pymodel import py_class
            k = py_class(st, v)
            if k is not None and not hasattr(k, name) and not (isinstance(v, Bool) and name in ("all", "any", "astype", "item", "dtype", "shape", "ndim", "size", "sum")):
                if default is not None:
                    return default
                self.exc(st, "AttributeError", None, node)
        if isinstance(v, Num):
            if name == "real":
                return Num(T.real_part(v.p), "float")
            if name == "imag":
                return Num(T.imag_part(v.p), "float")
            if name in ("ndim",):
                return num(0)
            if name == "shape":
                return Tup(())
            if name == "dtype":
                return Ext("dtype." + v.ty)
            if name == "size":
                return num(1)
            if name == "T":
                return v
            return Bound(Ext("number." + name), v)
        if isinstance(v, Bool):
            return Bound(Ext("number." + name), v)
        if isinstance(v, Str):
            return Bound(Ext("str." + name), v)
        if isinstance(v, Tup):
            return Bound(Ext("tuple." + name), v)
        if isinstance(v, Func):
            if name in ("__name__", "__qualname__"):
                return Str(v.name)
            return Opaque("func attr " + name)
        if isinstance(v, Bound):
            if name == "__name__" and isinstance(v.func, Func):
                return Str(v.func.name)
            if name == "__self__":
                return v.self
            return Opaque("method attr")
        if isinstance(v, Prop):
            if name in ("setter", "getter", "deleter"):
                return Bound(Ext("property." + name), v)
        if isinstance(v, NoneV):
            if default is not None:
                return default
            self.exc(st, "AttributeError", None, node)
        if isinstance(v, Opaque):
            return Opaque(("attr", v.label, name))
        if isinstance(v, Seq):
            return Opaque(("seqattr", name))
        if isinstance(v, IndexOf) and name in ("size", "shape", "ndim", "dtype"):
            from .npmodel import arr_attr
            from .arrays import as_arr
            return arr_attr(self, st, v, as_arr(self, st, v, node), name, node)
        if isinstance(v, (RangeV, IndexOf, SliceV)):
            return Opaque(("attr", name))
        self.undecided("attribute %s of %r" % (name, v), node)

    def bind(self, a, selfv, cls, st=None, node=None):
        if isinstance(a, (Func,)):
            return Bound(a, selfv)
        if isinstance(a, StaticM):
            return a.f
        if isinstance(a, ClassM):
            return Bound(a.f, cls)
        if isinstance(a, Prop):
            if st is not None:
                return self.call(st, Bound(a.fget, selfv), [], {}, node)
        if isinstance(a, Ext) and a.path.startswith("ghost."):
            return Bound(a, selfv)
        return a

    def descriptor(self, st, a):
        """the descriptor methods of a class attribute that is an instance of a class of the program"""
        if not isinstance(a, Ref):
            return None
        h = st.heap.get(a.oid)
        if h is None:
            raise Undecided("class attribute of unknown content")
        if not (isinstance(h, Inst) and isinstance(h.cls, Cls)):
            return None
        return {k: f for k in ("__get__", "__set__") for f in [self.find_attr(h.cls, k)] if f is not None}

    def setattr(self, st, v, name, val, node=None, raw=False):
        """raw: object.__setattr__, past the class's own __setattr__"""
        if isinstance(v, IteV):
            return self.lift(st, v, lambda s, x: self.setattr(s, x, name, val, node, raw))
        if isinstance(v, Ref):
            o = st.heap[v.oid]
            if isinstance(o, Inst):
                sa = self.find_attr(o.cls, "__setattr__") if isinstance(o.cls, Cls) and not raw else None
                if sa is not None:
                    self.call(st, Bound(sa, v), [Str(name), val], {}, node)
                    return
                a = self.find_attr(o.cls, name) if isinstance(o.cls, Cls) else None
                if isinstance(a, Prop):
                    if a.fset is None:
                        self.exc(st, "AttributeError", None, node)
                    self.call(st, Bound(a.fset, v), [val], {}, node)
                    return
                d = self.descriptor(st, a)
                if d and "__set__" in d:
                    self.call(st, Bound(d["__set__"], a), [v, val], {}, node)
                    return
                f = dict(o.f)
                f[name] = val
                st.heap[v.oid] = Inst(o.cls, f)
                self.ev(st, "setattr", node, obj=v, name=name, val=val)
                return
            if isinstance(o, Arr):
                from . import npmodel
                return npmodel.arr_setattr(self, st, v, o, name, val, node)
        if isinstance(v, Cls):
            v.attrs[name] = val
            self.ev(st, "setclassattr", node, obj=v, name=name, val=val)
            return
        if isinstance(v, (Opaque, Ext, Func, Mod)):
            self.ev(st, "setextattr", node, obj=v, name=name, val=val)
            return
        self.undecided("attribute store on %r" % (v,), node)

    # ------------------------------------------------------------------------------------------ calls
    def call(self, st, f, args, kw, node=None):
        self.stats["calls"] += 1
        if isinstance(f, IteV):
            return self.lift(st, f, lambda s, x: self.call(s, x, args, kw, node))
        if isinstance(f, Bound):
            if isinstance(f.func, Ext):
                return self.call_ext(st, f.func.path, [f.self] + list(args), kw, node)
            return self.call(st, f.func, [f.self] + list(args), kw, node)
        if isinstance(f, StaticM):
            return self.call(st, f.f, args, kw, node)
        if isinstance(f, Func):
            return self.call_func(st, f, args, kw, node)
        if isinstance(f, Cls):
            return self.construct(st, f, args, kw, node)
        if isinstance(f, Ext):
            return self.call_ext(st, f.path, args, kw, node)
        if isinstance(f, Ref):
            o = st.heap[f.oid]
            if isinstance(o, Inst):
                m = self.find_attr(o.cls, "__call__")
                if m is not None:
                    return self.call(st, Bound(m, f), args, kw, node)
            self.exc(st, "TypeError", None, node)
        if hasattr(f, "meth"):
            return Interp.call_special(self, st, f, args, kw, node)
        if isinstance(f, Opaque):
            self.ev(st, "opaque-call", node, label=f.label)
            self.opaque_seen.append(("call", f.label))
            return Opaque(("result", f.label))
        if isinstance(f, (NoneV, Num, Str, Tup, Bool)):
            self.exc(st, "TypeError", None, node)
        self.undecided("call of %r" % (f,), node)

    def call_ext(self, st, path, args, kw, node):
        flt = getattr(self, "fault_ext", None)
        if flt is not None:
            e = flt(path)
            if e:
                self.may_raise(st, e, T.Cond("app", "fault", (P(T.fresh("fault")),)), node)
        h = self.handlers.get(path)
        if h is not None:
            return h(self, st, args, kw, node)
        n = path.split(".")[-1]
        if (path.startswith("builtins.") or path.endswith(".LinAlgError")) and n in EXC_PARENT:
            return self.new(st, Inst(Ext(path), {"args": Tup(tuple(args))}))
        if path.startswith("ndarray."):
            h = self.handlers.get("numpy." + n)
            if h is not None:
                return h(self, st, args, kw, node)
        self.ev(st, "opaque-call", node, label=path)
        self.opaque_seen.append(("call", path))
        return Opaque(("call", path, next(T._fresh)))

    def tuple_fields(self, cls):
        """field names of a named tuple class"""
        if "fields" not in cls.extra:
            out = None
            if any(isinstance(k, Ext) and k.path == "typing.NamedTuple" for k in cls.mro()):
                out = []
                for k in reversed(cls.mro()):
                    if isinstance(k, Cls):
                        if "names" in k.extra:
                            out += [x for x in k.extra["names"] if x not in out]
                        else:
                            out += [s.target.id for s in k.node.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id not in out]
            cls.extra["fields"] = out
        return cls.extra["fields"]

    def make_tuple(self, st, cls, args, kw, node):
        names = self.tuple_fields(cls)
        vals = dict(zip(names, args))
        if len(args) > len(names) or any(k not in names or k in vals for k in kw):
            self.exc(st, "TypeError", None, node)
        vals.update(kw)
        for k in names:
            if k not in vals:
                v = self.find_attr(cls, k)
                if v is None:
                    self.exc(st, "TypeError", None, node)
                vals[k] = v
        return Tup(tuple(vals[k] for k in names), cls)

    def tuple_attr(self, st, v, name, node):
        names = self.tuple_fields(v.cls)
        if name in names:
            return v.items[names.index(name)]
        if name == "_replace":
            return Bound(Ext("namedtuple._replace"), v)
        if name == "_asdict":
            return Bound(Ext("namedtuple._asdict"), v)
        if name == "_fields":
            return Tup(tuple(Str(k) for k in names))
        a = self.find_attr(v.cls, name)
        return None if a is None else self.bind(a, v, v.cls, st, node)

    def construct(self, st, cls, args, kw, node):
        if self.tuple_fields(cls) is not None:
            return self.make_tuple(st, cls, args, kw, node)
        if cls.extra.get("enum"):
            # SolverType(value)
            for m in cls.extra["members"]:
                if args and m.get("value") == args[0]:
                    return m["ref"]
            self.exc(st, "ValueError", None, node)
        if any(isinstance(k, Ext) and k.path == "abc.ABC" or k == Ext("abc.ABCMeta") for k in cls.mro()) and self.abstract_methods(cls):
            self.exc(st, "TypeError", Str("abstract class %s" % cls.name), node)
        r = self.new(st, Inst(cls, {}))
        nw = self.find_attr(cls, "__new__")
        if nw is not None:
            f = nw.f if isinstance(nw, StaticM) else nw
            r = self.call(st, f, [cls] + list(args), kw, node)
        init = self.find_attr(cls, "__init__")
        if init is not None:
            self.call(st, Bound(init, r), args, kw, node)
        elif any(isinstance(k, Ext) and k.path.split(".")[-1] in EXC_PARENT for k in cls.mro()):
            o = st.heap[r.oid]
            st.heap[r.oid] = Inst(o.cls, {**o.f, "args": Tup(tuple(args))})
        elif args or kw:
            if cls.extra.get("dataclass"):
                self.dataclass_init(st, cls, r, args, kw, node)
            else:
                self.exc(st, "TypeError", None, node)
        elif cls.extra.get("dataclass"):
            self.dataclass_init(st, cls, r, args, kw, node)
        return r

    def dataclass_init(self, st, cls, r, args, kw, node):
        fields = []
        for k in reversed(cls.mro()):
            if isinstance(k, Cls):
                for s in k.node.body:
                    if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id not in fields:
                        fields.append(s.target.id)
        vals = dict(zip(fields, args))
        vals.update(kw)
        for f in fields:
            if f in vals:
                v = vals[f]
            else:
                v = self.find_attr(cls, f)
                if v is None or isinstance(v, Prop):
                    self.exc(st, "TypeError", None, node)
                if isinstance(v, Opaque) and isinstance(v.label, tuple) and v.label[0] == "field":
                    v = self.call(st, v.label[1], [], {}, node)
            self.setattr(st, r, f, v, node)
        pi = self.find_attr(cls, "__post_init__")
        if pi is not None:
            self.call(st, Bound(pi, r), [], {}, node)

    def abstract_methods(self, cls):
        seen, out = set(), []
        for k in cls.mro():
            if isinstance(k, Cls):
                for n in k.attrs:
                    if n not in seen:
                        seen.add(n)
                        if n in k.extra.get("abstract", ()):
                            out.append(n)
        return out

    def call_func(self, st, f, args, kw, node, selfv=None):
        a = f.node.args
        env = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        if any(isinstance(x, StarV) for x in args):
            self.undecided("star argument of unknown length", node)
        kw = dict(kw)
        if len(args) > len(pos) and a.vararg is None:
            self.exc(st, "TypeError", Str("too many arguments for %s" % f.name), node)
        for n, v in zip(pos, args):
            env[n] = v
        if a.vararg is not None:
            env[a.vararg.arg] = Tup(tuple(args[len(pos):]))
        nd = len(f.defaults)
        for i, n in enumerate(pos):
            if n in env:
                if n in kw:
                    self.exc(st, "TypeError", None, node)
                continue
            if n in kw:
                env[n] = kw.pop(n)
            else:
                j = i - (len(pos) - nd)
                if j < 0:
                    self.exc(st, "TypeError", Str("missing argument %s of %s" % (n, f.name)), node)
                env[n] = f.defaults[j]
        for x, d in zip(a.kwonlyargs, f.kwdefaults):
            if x.arg in kw:
                env[x.arg] = kw.pop(x.arg)
            elif d is not None:
                env[x.arg] = d
            else:
                self.exc(st, "TypeError", None, node)
        if a.kwarg is not None:
            env[a.kwarg.arg] = self.new(st, DictO({Str(k): v for k, v in kw.items()}))
        elif kw:
            self.exc(st, "TypeError", Str("unexpected keyword %s of %s" % (list(kw), f.name)), node)
        if len(self.stack) > 60:
            self.undecided("recursion", node)
        name = f.name if f.cls is None else "%s.%s" % (f.cls.name, f.name)
        self.stats["functions"].add("%s:%s" % (f.mod.name, name))
        eo = self.new(st, EnvO(env, f.env)).oid
        fr = Frame(name, f.mod, f.cls, eo, env.get(pos[0]) if pos else None)
        fr.locals, fr.globals = self.scope_info(f, st)
        fr.node = f.node
        if f.isgen:
            if f.ctx:
                return Opaque(("gen", f, fr))
            if self.lazy_gen is not None and node is self.lazy_gen:
                self.lazy_gen = None
                return Opaque(("gen", f, fr))
            fr.yields = self.new(st, ListO(()))
        self.stack.append(fr)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev_(st, f.node.body, fr)
            try:
                self.block(st, f.node.body, fr)
                fr.returns.append((State(st.heap, st.path), NONE))
            except Dead:
                pass
            if not fr.returns:
                raise Dead
            s, v = self.merge_all(fr.returns) if len(fr.returns) > 1 else fr.returns[0]
            st.become(s)
            if fr.yields is not None:
                return fr.yields
            return v
        finally:
            self.stack.pop()

    _scope = {}

    def scope_info(self, f, st):
        r = Interp._scope.get(f.node)
        if r is None:
            loc, glob, nonl = set(), set(), set()
            if not isinstance(f.node, ast.Lambda):
                def walk(n, top):
                    for c in ast.iter_child_nodes(n):
                        if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                            loc.add(c.name)
                            continue
                        if isinstance(c, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                            for w in ast.walk(c):
                                if isinstance(w, ast.NamedExpr):
                                    loc.add(w.target.id)
                            continue
                        if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)):
                            loc.add(c.id)
                        if isinstance(c, ast.Global):
                            glob.update(c.names)
                        if isinstance(c, ast.Nonlocal):
                            nonl.update(c.names)
                        if isinstance(c, (ast.Import, ast.ImportFrom)):
                            for al in c.names:
                                loc.add((al.asname or al.name).split(".")[0])
                        if isinstance(c, ast.ExceptHandler) and c.name:
                            loc.add(c.name)
                        walk(c, False)
                for s in f.node.body:
                    walk(ast.Module([s], []), True)
            r = (frozenset(loc - glob - nonl), frozenset(glob), frozenset(nonl))
            Interp._scope[f.node] = r
        g = {n: None for n in r[1]}
        for n in r[2]:
            o = f.env
            while o is not None:
                e = st.heap[o]
                if n in e.vars:
                    g[n] = o
                    break
                o = e.parent
        return r[0], g

    # ------------------------------------------------------------------------------------------ statements
    def block(self, st, stmts, fr):
        for s in stmts:
            self.stmt(st, s, fr)

    def stmt(self, st, n, fr):
        self.stats["stmts"] += 1
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            self.undecided("statement %s" % type(n).__name__, n)
        m(st, n, fr)

    def s_Expr(self, st, n, fr):
        if isinstance(n.value, ast.Constant):
            return
        self.ev_(st, n.value, fr)

    def s_Pass(self, st, n, fr):
        fn = getattr(n, "fn", None)
        if fn is not None:
            fn(st)

    def s_Global(self, st, n, fr):
        pass

    s_Nonlocal = s_Global

    def s_Assign(self, st, n, fr):
        v = self.ev_(st, n.value, fr)
        for t in n.targets:
            self.assign(st, t, v, fr)

    def s_AnnAssign(self, st, n, fr):
        if n.value is not None:
            self.assign(st, n.target, self.ev_(st, n.value, fr), fr)

    def s_AugAssign(self, st, n, fr):
        from . import npmodel
        t = n.target
        op = type(n.op).__name__
        if isinstance(t, ast.Name):
            cur = self.lookup(st, t.id, fr, t)
            v = self.ev_(st, n.value, fr)
            r = npmodel.augop(self, st, op, cur, v, n)
            self.bindname(st, self.mangle(t.id, fr), r, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev_(st, t.value, fr)
            name = self.mangle(t.attr, fr)
            cur = self.getattr(st, o, name, t)
            v = self.ev_(st, n.value, fr)
            self.setattr(st, o, name, npmodel.augop(self, st, op, cur, v, n), n)
        elif isinstance(t, ast.Subscript):
            o = self.ev_(st, t.value, fr)
            k = self.index(st, t.slice, fr)
            cur = npmodel.getitem(self, st, o, k, n)
            v = self.ev_(st, n.value, fr)
            a = st.heap.get(cur.oid) if isinstance(cur, Ref) else None
            if isinstance(a, Arr) and (a.base is not None or a.origins):
                cur = self.new(st, replace(a, base=None, origins=()))  # the store below writes it back
            r = npmodel.augop(self, st, op, cur, v, n)
            npmodel.setitem(self, st, o, k, r, n)
        else:
            self.undecided("augmented target", n)

    def assign(self, st, t, v, fr):
        if isinstance(t, ast.Name):
            self.bindname(st, self.mangle(t.id, fr), v, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev_(st, t.value, fr)
            self.setattr(st, o, self.mangle(t.attr, fr), v, t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            its = self.unpack(st, v, t, fr)
            for a, b in zip(t.elts, its):
                if isinstance(a, ast.Starred):
                    a = a.value
                self.assign(st, a, b, fr)
        elif isinstance(t, ast.Subscript):
            from . import npmodel
            o = self.ev_(st, t.value, fr)
            k = self.index(st, t.slice, fr)
            npmodel.setitem(self, st, o, k, v, t)
        elif isinstance(t, ast.Starred):
            self.assign(st, t.value, v, fr)
        else:
            self.undecided("assignment target", t)

    def unpack(self, st, v, t, fr):
        k = len(t.elts)
        v = self.pick(st, v)
        if isinstance(v, IteV):
            xs = [self.unpack(st, a, t, fr) for _, a in self.alts(st, v)]
            out = []
            al = self.alts(st, v)
            for i in range(k):
                r = xs[-1][i]
                for (c, _), x in reversed(list(zip(al, xs))[:-1]):
                    r = self.mval(c, x[i], r)
                out.append(r)
            return out
        star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        its = self.iter_items(st, v, t)
        if its is None:
            # sequence of unknown length
            from .loops import seq_at
            at = seq_at(self, st, v, P(0), t) if isinstance(v, (Ref, RangeV)) else None
            if at is not None:
                n, i = at[0], star[0] if star else k
                tail = k - i - 1 if star else 0
                if self.decide(st, mk_cmp("le", P(k - 1), n) if star else mk_cmp("eq", n, P(k))) is True:
                    out = [seq_at(self, st, v, P(j), t)[1] for j in range(i)]
                    if star:
                        it = Atom("idx", "rest%d" % next(T._fresh))
                        out.append(self.new(st, ListO((), None, Seq(seq_at(self, st, v, P(it) + i, t)[1], it, n - (k - 1)))))
                        out += [seq_at(self, st, v, n - tail + j, t)[1] for j in range(tail)]
                    return out
            return [self.opaque_value(("unpack", i)) for i in range(k)]
        if star:
            i = star[0]
            tail = k - i - 1
            if len(its) < k - 1:
                self.exc(st, "ValueError", None, t)
            mid = self.new(st, ListO(tuple(its[i:len(its) - tail])))
            return list(its[:i]) + [mid] + list(its[len(its) - tail:] if tail else [])
        if len(its) != k:
            self.exc(st, "ValueError", None, t)
        return list(its)

    def opaque_value(self, label):
        self.opaque_seen.append(label)
        return Opaque(label)

    def iter_items(self, st, v, node):
        """concrete item list or None"""
        if isinstance(v, Tup):
            return list(v.items)
        if isinstance(v, Str) and v.known:
            return [Str(c) for c in v.s]
        if isinstance(v, RangeV):
            lo, hi, stp = v.lo.const(), v.hi.const(), v.step.const()
            if None in (lo, hi, stp):
                return None
            return [num(i) for i in range(int(lo), int(hi), int(stp))]
        if isinstance(v, Opaque) and isinstance(v.label, tuple) and v.label[0] == "__dict__":
            return [Str(k) for k, x in st.heap[v.label[1].oid].f.items() if x is not UNSET]
        if isinstance(v, Ref):
            o = st.heap[v.oid]
            if isinstance(o, ListO):
                if o.prefix is None and o.sym is None and not any(isinstance(x, CondItem) for x in o.items):
                    return list(o.items)
                return None
            if isinstance(o, DictO):
                return list(o.d)
            if isinstance(o, Arr):
                n = o.axes[-1][0].const() if o.axes else None
                if n is not None and o.axes[-1][1] is None and n <= 64:
                    from . import npmodel
                    return [npmodel.getitem(self, st, v, num(i), node) for i in range(int(n))]
                return None
            if isinstance(o, Inst):
                it = self.find_attr(o.cls, "__iter__")
                if it is not None:
                    return self.iter_items(st, self.call(st, Bound(it, v), [], {}, node), node)
                self.exc(st, "TypeError", None, node)
        if isinstance(v, Cls) and v.extra.get("enum"):
            return [m["ref"] for m in v.extra["members"]]
        if isinstance(v, (NoneV, Num, Bool)):
            self.exc(st, "TypeError", None, node)
        return None

    def s_Return(self, st, n, fr):
        v = self.ev_(st, n.value, fr) if n.value is not None else NONE
        fr.returns.append((State(st.heap, st.path), v))
        raise Dead

    def s_Break(self, st, n, fr):
        fr.breaks[-1].append((State(st.heap, st.path), None))
        raise Dead

    def s_Continue(self, st, n, fr):
        fr.conts[-1].append((State(st.heap, st.path), None))
        raise Dead

    def s_If(self, st, n, fr):
        c = self.cond(st, n.test, fr)
        self.branch(st, c, lambda s: self.block(s, n.body, fr), lambda s: self.block(s, n.orelse, fr))

    def s_Raise(self, st, n, fr):
        if n.exc is None:
            v = getattr(fr, "current_exc", None)
            if v is None:
                self.undecided("bare raise", n)
        else:
            v = self.ev_(st, n.exc, fr)
            if isinstance(v, (Cls, Ext)):
                v = self.call(st, v, [], {}, n)
        if n.cause is not None:
            self.ev_(st, n.cause, fr)
        self.throw(st, v, n)

    def s_Assert(self, st, n, fr):
        c = self.cond(st, n.test, fr)
        self.branch(st, c, lambda s: None, lambda s: self.exc(s, "AssertionError", None, n))

    def s_Delete(self, st, n, fr):
        for t in n.targets:
            if isinstance(t, ast.Name):
                self.bindname(st, t.id, UNSET, fr)
            elif isinstance(t, ast.Attribute):
                o = self.ev_(st, t.value, fr)
                if isinstance(o, Ref) and isinstance(st.heap[o.oid], Inst):
                    f = dict(st.heap[o.oid].f)
                    f[self.mangle(t.attr, fr)] = UNSET
                    st.heap[o.oid] = Inst(st.heap[o.oid].cls, f)
            elif isinstance(t, ast.Subscript):
                o = self.ev_(st, t.value, fr)
                k = self.index(st, t.slice, fr)
                o = self.pick(st, o)
                if isinstance(o, Ref) and isinstance(st.heap[o.oid], ListO):
                    lo = st.heap[o.oid]
                    if isinstance(k, SliceV) and k.lo == NONE and k.hi == NONE:
                        st.heap[o.oid] = ListO((), None, None, lo.kind)
                        continue
                    if lo.prefix is None and lo.sym is None and isinstance(k, Num) and k.p.const() is not None and -len(lo.items) <= k.p.const() < len(lo.items):
                        items = list(lo.items)
                        del items[int(k.p.const())]
                        st.heap[o.oid] = replace(lo, items=tuple(items))
                        continue
                    self.ev(st, "list-del", n, obj=o)
                    st.heap[o.oid] = ListO((), ("deleted", next(T._fresh)), None, lo.kind)
                elif isinstance(o, Ref) and isinstance(st.heap[o.oid], DictO):
                    self.call_ext(st, "dict.pop", [o, k], {}, n)
                else:
                    self.undecided("del subscript", n)
            else:
                self.undecided("del", n)

    def s_Import(self, st, n, fr):
        for al in n.names:
            top = al.name.split(".")[0]
            v = self.import_module(al.name, fr)
            if al.asname:
                self.bindname(st, al.asname, v, fr)
            else:
                self.bindname(st, top, self.import_module(top, fr), fr)

    def import_module(self, name, fr):
        if name == "rkstiff" or name.startswith("rkstiff."):
            m = self.load(name)
            if m is None:
                raise Undecided("module %s not found" % name)
            return Mod(name)
        return Ext(name)

    def s_ImportFrom(self, st, n, fr):
        if n.level:
            parts = fr.mod.name.split(".")
            ispkg = fr.mod.path.endswith("__init__.py")
            drop = n.level - (1 if ispkg else 0)
            base = parts[:len(parts) - drop] if drop else parts
            name = ".".join(base + ([n.module] if n.module else []))
        else:
            name = n.module
        if name == "__future__":
            return
        if name == "rkstiff" or name.startswith("rkstiff."):
            m = self.load(name)
            if m is None:
                raise Undecided("import of missing module %s at %s" % (name, self.where(n)))
            self.pull(st)
            for al in n.names:
                e = self.st0.heap[m.env].vars
                if al.name == "*":
                    for k, v in e.items():
                        if not k.startswith("_"):
                            self.bindname(st, k, v, fr)
                    continue
                if al.name in e:
                    v = e[al.name]
                elif self.load(name + "." + al.name) is not None:
                    v = Mod(name + "." + al.name)
                else:
                    self.exc(st, "ImportError", None, n)
                self.bindname(st, al.asname or al.name, v, fr)
            return
        for al in n.names:
            p = name + "." + al.name
            h = self.exts.get(p)
            self.bindname(st, al.asname or al.name, h if h is not None and not callable(h) else Ext(p), fr)

    def s_FunctionDef(self, st, n, fr):
        v = self.make_func(st, n, fr)
        for d in reversed(n.decorator_list):
            v = self.call(st, self.ev_(st, d, fr), [v], {}, d)
        self.bindname(st, self.mangle(n.name, fr), v, fr)

    def make_func(self, st, n, fr, name=None):
        ds = tuple(self.ev_(st, d, fr) for d in n.args.defaults)
        kd = tuple(None if d is None else self.ev_(st, d, fr) for d in n.args.kw_defaults)
        env = fr.env if fr.env != fr.mod.env and not getattr(fr, "isclass", False) else getattr(fr, "outer_env", None)
        isgen = False
        if not isinstance(n, ast.Lambda):
            isgen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in walk_scope(n))
        return Func(n, fr.mod, env, fr.cls, ds, kd, name or getattr(n, "name", "<lambda>"), isgen)

    def s_ClassDef(self, st, n, fr):
        bases = tuple(self.ev_(st, b, fr) for b in n.bases)
        bases = tuple(b for b in bases if isinstance(b, (Cls, Ext))) or (Ext("builtins.object"),)
        cls = Cls(n.name, fr.mod, n, bases, {}, {})
        for k in n.keywords:
            if k.arg == "metaclass" and isinstance(self.ev_(st, k.value, fr), Ext):
                cls.extra["metaclass"] = self.ev_(st, k.value, fr).path
        env = self.new(st, EnvO({"__module__": Str(fr.mod.name), "__qualname__": Str(n.name)}, fr.env if fr.env != fr.mod.env else None)).oid
        cf = Frame("<class %s>" % n.name, fr.mod, cls, env)
        cf.isclass = True
        cf.outer_env = fr.env if fr.env != fr.mod.env else None
        self.stack.append(cf)
        try:
            self.block(st, n.body, cf)
        finally:
            self.stack.pop()
        attrs = dict(st.heap[env].vars)
        cls.attrs.update(attrs)
        for k, x in attrs.items():
            h = st.heap.get(x.oid) if isinstance(x, Ref) else None
            if isinstance(h, Inst) and isinstance(h.cls, Cls):
                f = self.find_attr(h.cls, "__set_name__")
                if f is not None:
                    self.call(st, Bound(f, x), [cls, Str(k)], {}, n)
        ab = set()
        for b in n.body:
            if isinstance(b, ast.FunctionDef):
                for d in b.decorator_list:
                    if ast.unparse(d).split(".")[-1] in ("abstractmethod", "abstractproperty"):
                        ab.add(b.name)
        cls.extra["abstract"] = ab
        if any(isinstance(k, Ext) and k.path.split(".")[-1] in ("Enum", "IntEnum", "StrEnum", "Flag") for k in cls.mro()):
            self.make_enum(st, cls)
        v = cls
        for d in reversed(n.decorator_list):
            dv = self.ev_(st, d, fr)
            if isinstance(dv, Ext) and dv.path in ("dataclasses.dataclass",):
                cls.extra["dataclass"] = True
                continue
            v = self.call(st, dv, [v], {}, d)
            if isinstance(v, Opaque):
                if isinstance(v.label, tuple) and "dataclass" in str(v.label):
                    cls.extra["dataclass"] = True
                v = cls
        for k in cls.mro()[1:]:
            if isinstance(k, Cls) and "__init_subclass__" in k.attrs:
                f = k.attrs["__init_subclass__"]
                self.call(st, f.f if isinstance(f, ClassM) else f, [cls], {}, n)
                break
        self.bindname(st, self.mangle(n.name, fr), v, fr)

    def make_enum(self, st, cls):
        members, auto, autos = [], 0, {}
        for k, v in list(cls.attrs.items()):
            if k.startswith("_") or isinstance(v, (Func, Prop, StaticM, ClassM, Cls)):
                continue
            if isinstance(v, Opaque) and isinstance(v.label, tuple) and v.label[0] == "enum.auto":
                if v.label in autos:
                    v = autos[v.label]
                else:
                    auto += 1
                    autos[v.label] = v = num(auto)
            elif isinstance(v, Num) and v.p.const() is not None:
                auto = int(v.p.const())
            for m in members:
                if m["value"] == v:
                    cls.attrs[k] = m["ref"]
                    break
            else:
                r = self.new(st, Inst(cls, {"name": Str(k), "value": v, "_name_": Str(k), "_value_": v}))
                members.append({"name": k, "value": v, "ref": r})
                cls.attrs[k] = r
        cls.extra["enum"] = True
        cls.extra["members"] = members

    def s_With(self, st, n, fr, k=0):
        if k == len(n.items):
            self.block(st, n.body, fr)
            return
        it = n.items[k]
        rest = lambda s: self.s_With(s, n, fr, k + 1)
        cm = self.pick(st, self.ev_(st, it.context_expr, fr))
        if isinstance(cm, Opaque) and isinstance(cm.label, tuple) and cm.label[0] == "suppress":
            self.sinks.append([])
            s, conts = st.fork(), []
            try:
                rest(s)
                conts.append((s, None))
            except Dead:
                pass
            for rs, v, w in self.sinks.pop():
                if self.exc_matches(self.exc_class(rs, v), cm.label[1]) is False:
                    self.sinks[-1].append((rs, v, w))
                else:
                    conts.append((rs.fork(), None))
            if not conts:
                raise Dead
            st.become(self.merge_all(conts)[0])
            return
        if isinstance(cm, Opaque) and isinstance(cm.label, tuple) and cm.label[0] == "gen":
            # the body of the with statement runs at the yield of the generator
            f, g = cm.label[1:]

            def at_yield(s, v):
                self.stack.append(fr)
                try:
                    if it.optional_vars is not None:
                        self.assign(s, it.optional_vars, v, fr)
                    rest(s)
                finally:
                    self.stack.pop()
            g.consumer, g.outer, g.returns = at_yield, fr, []
            self.stack.append(g)
            try:
                try:
                    self.block(st, f.node.body, g)
                    g.returns.append((State(st.heap, st.path), NONE))
                except Dead:
                    pass
            finally:
                self.stack.pop()
            if not g.returns:
                raise Dead
            st.become(self.merge_all(g.returns)[0])
            return
        v = cm
        ex = None
        if isinstance(cm, Ref) and isinstance(st.heap[cm.oid], Inst) and isinstance(st.heap[cm.oid].cls, Cls):
            c = st.heap[cm.oid].cls
            v = self.call(st, Bound(self.find_attr(c, "__enter__"), cm), [], {}, n)
            ex = self.find_attr(c, "__exit__")
        if it.optional_vars is not None:
            self.assign(st, it.optional_vars, v, fr)
        if ex is None:
            rest(st)
        else:
            self.try_finally(st, rest, lambda s: self.call(s, Bound(ex, cm), [NONE, NONE, NONE], {}, n), fr)

    def s_Match(self, st, n, fr):
        nm = "*subject%d.%d" % (n.lineno, n.col_offset)
        self.bindname(st, nm, self.ev_(st, n.subject, fr), fr)
        subj = ast.Name(nm, ast.Load())

        def test(p):
            if isinstance(p, ast.MatchValue):
                return ast.Compare(subj, [ast.Eq()], [p.value]), []
            if isinstance(p, ast.MatchSingleton):
                return ast.Compare(subj, [ast.Is()], [ast.Constant(p.value)]), []
            if isinstance(p, ast.MatchAs):
                t, b = test(p.pattern) if p.pattern is not None else (ast.Constant(True), [])
                return t, b + ([ast.Assign([ast.Name(p.name, ast.Store())], subj)] if p.name else [])
            if isinstance(p, ast.MatchOr):
                ts = [test(q) for q in p.patterns]
                if not any(b for _, b in ts):
                    return ast.BoolOp(ast.Or(), [t for t, _ in ts]), []
            if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
                return ast.Call(ast.Name("isinstance", ast.Load()), [subj, p.cls], []), []
            self.undecided("match pattern", n)
        tree = []
        for c in reversed(n.cases):
            t, b = test(c.pattern)
            if c.guard is not None:
                if b:
                    self.undecided("match pattern", n)
                t = ast.BoolOp(ast.And(), [t, c.guard])
            tree = [ast.If(t, b + c.body, tree)]
        for x in ast.walk(tree[0]):
            if not hasattr(x, "lineno"):
                ast.copy_location(x, n)
        self.block(st, tree, fr)

    def try_finally(self, st, body, fin, fr):
        outs = [fr.returns] + fr.breaks + fr.conts
        o = fr.outer
        while o is not None:
            outs += [o.returns] + o.breaks + o.conts
            o = o.outer
        outs = [(x, len(x)) for x in outs]
        self.sinks.append([])
        dead = False
        try:
            body(st)
        except Dead:
            dead = True
        raised = self.sinks.pop()
        for lst, k in outs:
            new = lst[k:]
            del lst[k:]
            for s, v in new:
                s = s.fork()
                try:
                    fin(s)
                    lst.append((s, v))
                except Dead:
                    pass
        for s, v, w in raised:
            s = s.fork()
            try:
                fin(s)
                self.sinks[-1].append((s, v, w))
            except Dead:
                pass
        if dead:
            raise Dead
        fin(st)

    def s_Try(self, st, n, fr):
        if n.finalbody:
            inner = ast.Try(body=n.body, handlers=n.handlers, orelse=n.orelse, finalbody=[])
            ast.copy_location(inner, n)
            if n.handlers:
                body = lambda s: self.s_Try(s, inner, fr)
            else:
                def body(s):
                    self.block(s, n.body, fr)
                    self.block(s, n.orelse, fr)
            self.try_finally(st, body, lambda s: self.block(s, n.finalbody, fr), fr)
            return
        entry = State(st.heap, st.path)
        self.sinks.append([])
        s = st.fork()
        conts = []
        try:
            self.block(s, n.body, fr)
            conts.append((s, None))
        except Dead:
            pass
        raised = self.sinks.pop()
        if conts:
            s = conts[0][0]
            conts = []
            try:
                self.block(s, n.orelse, fr)
                conts.append((s, None))
            except Dead:
                pass
        for rs, v, w in raised:
            c = self.exc_class(rs, v)
            done = False
            for h in n.handlers:
                m = True
                if h.type is not None:
                    hs = rs.fork()
                    m = self.exc_matches(c, self.ev_(hs, h.type, fr))
                    if m is None:
                        m = True
                if m:
                    done = True
                    hs = rs.fork()
                    if h.name:
                        self.bindname(hs, h.name, v, fr)
                    old = getattr(fr, "current_exc", None)
                    fr.current_exc = v
                    try:
                        self.block(hs, h.body, fr)
                        conts.append((hs, None))
                    except Dead:
                        pass
                    finally:
                        fr.current_exc = old
                    break
            if not done:
                self.sinks[-1].append((rs, v, w))
        if not conts:
            raise Dead
        s, _ = self.merge_all(conts)
        st.become(s)

    # loops live in loops.py
    def s_While(self, st, n, fr):
        from . import loops
        loops.do_while(self, st, n, fr)

    def s_For(self, st, n, fr):
        from . import loops
        loops.do_for(self, st, n, fr)

    # ------------------------------------------------------------------------------------------ expressions
    def ev_(self, st, n, fr):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            self.undecided("expression %s" % type(n).__name__, n)
        return m(st, n, fr)

    def cond(self, st, n, fr):
        """truth condition of an expression, joining the states of short-circuit operators"""
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return mk_not(self.cond(st, n.operand, fr))
        if isinstance(n, ast.BoolOp):
            isand = isinstance(n.op, ast.And)
            def rec(s, i):
                c = self.cond(s, n.values[i], fr)
                if i == len(n.values) - 1:
                    return Bool(c)
                if isand:
                    return self.branch(s, c, lambda q: rec(q, i + 1), lambda q: Bool(FALSE))
                return self.branch(s, c, lambda q: Bool(TRUE), lambda q: rec(q, i + 1))
            return rec(st, 0).c
        v = self.ev_(st, n, fr)
        v = self.pick(st, v)
        if isinstance(v, (Ref, IteV)):
            r = self.lift(st, v, lambda s, x: Bool(self.truth(s, x, n)))
            return r.c
        return self.truth(st, v, n)

    def e_Constant(self, st, n, fr):
        v = n.value
        if v is None:
            return NONE
        if isinstance(v, bool):
            return Bool(TRUE if v else FALSE)
        if isinstance(v, (int, float, complex)):
            return num(v)
        if isinstance(v, str):
            return Str(v)
        if v is Ellipsis:
            return ELL
        return Opaque(("const", repr(v)))

    def e_Name(self, st, n, fr):
        return self.lookup(st, n.id, fr, n)

    def e_Attribute(self, st, n, fr):
        o = self.ev_(st, n.value, fr)
        return self.getattr(st, o, self.mangle(n.attr, fr), n)

    def e_BinOp(self, st, n, fr):
        from . import npmodel
        a = self.ev_(st, n.left, fr)
        b = self.ev_(st, n.right, fr)
        return npmodel.binop(self, st, type(n.op).__name__, a, b, n)

    def e_UnaryOp(self, st, n, fr):
        from . import npmodel
        if isinstance(n.op, ast.Not):
            return Bool(mk_not(self.cond(st, n.operand, fr)))
        v = self.ev_(st, n.operand, fr)
        return npmodel.unop(self, st, type(n.op).__name__, v, n)

    def e_BoolOp(self, st, n, fr):
        isand = isinstance(n.op, ast.And)

        def rec(s, i):
            v = self.ev_(s, n.values[i], fr)
            if i == len(n.values) - 1:
                return v
            c = self.truth(s, v, n)
            if isand:
                return self.branch(s, c, lambda q: rec(q, i + 1), lambda q: v if not isinstance(v, Bool) else Bool(FALSE))
            return self.branch(s, c, lambda q: v if not isinstance(v, Bool) else Bool(TRUE), lambda q: rec(q, i + 1))
        return rec(st, 0)

    def e_IfExp(self, st, n, fr):
        c = self.cond(st, n.test, fr)
        return self.branch(st, c, lambda s: self.ev_(s, n.body, fr), lambda s: self.ev_(s, n.orelse, fr))

    def e_Compare(self, st, n, fr):
        from . import npmodel
        left = self.ev_(st, n.left, fr)

        def rec(s, left, i):
            right = self.ev_(s, n.comparators[i], fr)
            r = npmodel.compare(self, s, type(n.ops[i]).__name__, left, right, n)
            if i == len(n.ops) - 1:
                return r
            c = self.truth(s, r, n)
            return self.branch(s, c, lambda q: rec(q, right, i + 1), lambda q: Bool(FALSE))
        return rec(st, left, 0)

    def args_of(self, st, n, fr):
        args, kw = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.pick(st, self.ev_(st, a.value, fr))
                its = self.iter_items(st, v, a)
                if its is None:
                    self.undecided("star argument of unknown length", a)
                args += its
            else:
                args.append(self.ev_(st, a, fr))
        for k in n.keywords:
            if k.arg is None:
                v = self.pick(st, self.ev_(st, k.value, fr))
                if isinstance(v, Ref) and isinstance(st.heap[v.oid], DictO):
                    for kk, x in st.heap[v.oid].d.items():
                        kw[kk.s] = x
                else:
                    self.undecided("** argument", n)
            else:
                kw[k.arg] = self.ev_(st, k.value, fr)
        return args, kw

    def e_Call(self, st, n, fr):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            return Super(fr.cls, fr.selfv)
        f = self.ev_(st, n.func, fr)
        args, kw = self.args_of(st, n, fr)
        if f == Ext("builtins.locals"):
            return Opaque("locals")
        return self.call(st, f, args, kw, n)

    def e_Tuple(self, st, n, fr):
        return Tup(tuple(self.elts(st, n, fr)))

    def elts(self, st, n, fr):
        out = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                its = self.iter_items(st, self.pick(st, self.ev_(st, e.value, fr)), e)
                if its is None:
                    self.undecided("star element", e)
                out += its
            else:
                out.append(self.ev_(st, e, fr))
        return out

    def e_List(self, st, n, fr):
        return self.new(st, ListO(tuple(self.elts(st, n, fr))))

    def e_Set(self, st, n, fr):
        return self.new(st, ListO(tuple(self.elts(st, n, fr)), kind="set"))

    def e_Dict(self, st, n, fr):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                o = self.pick(st, self.ev_(st, v, fr))
                d.update(st.heap[o.oid].d)
                continue
            d[self.ev_(st, k, fr)] = self.ev_(st, v, fr)
        return self.new(st, DictO(d))

    def e_Subscript(self, st, n, fr):
        from . import npmodel
        o = self.ev_(st, n.value, fr)
        if isinstance(o, (Ext, Cls)) and not (isinstance(o, Ext) and self.exts.get(("getitem", o.path))):
            if isinstance(o, Cls) and o.extra.get("enum"):
                k = self.ev_(st, n.slice, fr)
                for m in o.extra["members"]:
                    if isinstance(k, Str) and m["name"] == k.s:
                        return m["ref"]
                self.exc(st, "KeyError", None, n)
            if isinstance(o, Ext) and o.path in ("numpy.r_", "numpy.c_", "numpy.s_", "numpy.ix_"):
                k = self.index(st, n.slice, fr)
                return npmodel.np_r(self, st, o.path, k, n)
            return Opaque("generic alias")
        k = self.index(st, n.slice, fr)
        return npmodel.getitem(self, st, o, k, n)

    def index(self, st, n, fr):
        if isinstance(n, ast.Slice):
            f = lambda x: NONE if x is None else self.ev_(st, x, fr)
            return SliceV(f(n.lower), f(n.upper), f(n.step))
        if isinstance(n, ast.Tuple):
            return Tup(tuple(self.index(st, e, fr) for e in n.elts))
        return self.ev_(st, n, fr)

    e_Slice = index

    def e_Lambda(self, st, n, fr):
        return self.make_func(st, n, fr)

    def e_NamedExpr(self, st, n, fr):
        v = self.ev_(st, n.value, fr)
        self.assign(st, n.target, v, fr)
        return v

    def e_JoinedStr(self, st, n, fr):
        parts = []
        known = True
        out = ""
        for p in n.values:
            if isinstance(p, ast.Constant):
                out += p.value
                parts.append(p.value)
            else:
                v = self.ev_(st, p.value, fr)
                spec = ""
                if p.format_spec is not None:
                    sv = self.ev_(st, p.format_spec, fr)
                    spec = sv.s if sv.known else None
                self.ev(st, "format", n, style="f", spec=spec, val=v, conv=p.conversion)
                parts.append(v)
                if isinstance(v, Str) and v.known and not spec:
                    out += v.s
                elif isinstance(v, Num) and v.p.const() is not None and v.ty == "int" and not spec:
                    out += str(int(v.p.const()))
                else:
                    known = False
        if known:
            return Str(out)
        return Str(("fmt", next(T._fresh)), tuple(parts))

    def e_FormattedValue(self, st, n, fr):
        return self.e_JoinedStr(st, ast.JoinedStr([n]), fr)

    def comp(self, st, n, fr, emit):
        env = self.new(st, EnvO({}, fr.env if fr.env != fr.mod.env else None)).oid
        sub = Frame(fr.name, fr.mod, fr.cls, env, fr.selfv)
        self.stack.append(sub)

        def rec(s, i):
            if i == len(n.generators):
                emit(s, sub)
                return
            g = n.generators[i]
            itv = self.pick(s, self.ev_(s, g.iter, sub if i else fr_for_iter))
            its = self.iter_items(s, itv, g.iter)
            if its is None:
                if len(n.generators) == 1 and not g.ifs:
                    raise _SymComp(itv)
                self.undecided("comprehension over a sequence of unknown length", n)
            for x in its:
                self.assign(s, g.target, x, sub)
                cs = [self.cond(s, f, sub) for f in g.ifs]
                c = mk_and(*cs) if cs else TRUE
                self.branch(s, c, lambda q: rec(q, i + 1), lambda q: None)
        fr_for_iter = sub
        try:
            rec(st, 0)
        finally:
            self.stack.pop()
        return sub

    def e_ListComp(self, st, n, fr):
        lst = self.new(st, ListO(()))

        def emit(s, sub):
            v = self.ev_(s, n.elt, sub)
            o = s.heap[lst.oid]
            s.heap[lst.oid] = replace(o, items=o.items + (v,))
        try:
            self.comp(st, n, fr, emit)
        except _SymComp as e:
            return self.symcomp(st, n, fr, e.it)
        return lst

    def symcomp(self, st, n, fr, it):
        from . import loops
        k, cnt, elem = loops.sym_iter(self, st, it, n)
        if k is None:
            return self.new(st, ListO((), ("comp", next(T._fresh))))
        env = self.new(st, EnvO({}, fr.env if fr.env != fr.mod.env else None)).oid
        sub = Frame(fr.name, fr.mod, fr.cls, env, fr.selfv)
        self.stack.append(sub)
        try:
            s = st.fork(mk_cmp("le", ZERO, P(k)), mk_cmp("lt", P(k), cnt))
            self.assign(s, n.generators[0].target, elem, sub)
            v = self.ev_(s, n.elt, sub)
            path = st.path
            st.heap = s.heap
            st.path = path
        finally:
            self.stack.pop()
        return self.new(st, ListO((), None, Seq(v, k, cnt)))

    def e_GeneratorExp(self, st, n, fr):
        return self.e_ListComp(st, n, fr)

    def e_SetComp(self, st, n, fr):
        r = self.e_ListComp(st, n, fr)
        st.heap[r.oid] = replace(st.heap[r.oid], kind="set")
        return r

    def e_DictComp(self, st, n, fr):
        r = self.new(st, DictO({}))

        def emit(s, sub):
            k, v = self.ev_(s, n.key, sub), self.ev_(s, n.value, sub)
            d = dict(s.heap[r.oid].d)
            d[k] = v
            s.heap[r.oid] = DictO(d)
        try:
            self.comp(st, n, fr, emit)
        except _SymComp:
            return Opaque("dictcomp")
        return r

    def e_Yield(self, st, n, fr):
        v = self.ev_(st, n.value, fr) if n.value is not None else NONE
        if fr.consumer is not None:
            fr.consumer(st, v)
            return NONE
        if fr.yields is None:
            self.undecided("yield", n)
        o = st.heap[fr.yields.oid]
        st.heap[fr.yields.oid] = replace(o, items=o.items + (v,))
        return NONE

    def e_YieldFrom(self, st, n, fr):
        if fr.consumer is not None:
            from . import loops
            loops.for_each(self, st, n, n.value, fr, lambda s, v: fr.consumer(s, v), [])
            return NONE
        v = self.pick(st, self.ev_(st, n.value, fr))
        its = self.iter_items(st, v, n)
        if its is None:
            self.undecided("yield from", n)
        o = st.heap[fr.yields.oid]
        st.heap[fr.yields.oid] = replace(o, items=o.items + tuple(its))
        return NONE

    def e_Starred(self, st, n, fr):
        self.undecided("starred", n)

    # ------------------------------------------------------------------------------------------ entry
    def run(self, st, f, args=(), kw=None, node=None):
        """call f from outside; returns (list of (state, value)) normal outcomes [0 or 1] and raised outcomes"""
        self.sinks.append([])
        s = self.pull(st.fork())
        fr = Frame("<client>", _CLIENT, None, None)
        self.stack.append(fr)
        try:
            try:
                v = self.call(s, f, list(args), kw or {}, node)
                ok = [(s, v)]
            except Dead:
                ok = []
        finally:
            self.stack.pop()
            raised = self.sinks.pop()
        return ok, raised


class _CM:
    name, path, env = "<client>", "?", None


_CLIENT = _CM()


class StarV(V):
    pass


class _SymComp(Exception):
    def __init__(self, it):
        self.it = it


def fill(I, v, default):
    """v with the default where the attribute is missing"""
    if isinstance(v, IteV):
        return I.mval(v.c, fill(I, v.a, default), fill(I, v.b, default))
    return default if v is UNSET else v


def has_unset(v):
    if isinstance(v, IteV):
        return has_unset(v.a) or has_unset(v.b)
    return v is UNSET


def has_order(c):
    if c.kind in ("and", "or"):
        return any(has_order(x) for x in c.args[0])
    if c.kind == "not":
        return has_order(c.args[0])
    return c.kind == "cmp"


def id_term(v):
    return Opaque(v.s) if not isinstance(v.s, str) else v.s


def walk_scope(n):
    todo = list(ast.iter_child_nodes(n))
    while todo:
        x = todo.pop()
        yield x
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo += list(ast.iter_child_nodes(x))
