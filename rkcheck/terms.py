"""Terms of the value graph.

A Poly is an exact normal form: a finite sum of monomials with rational coefficients; a monomial is a product of
atoms raised to rational powers times at most one exponential exp(P), P again a Poly.  A Cond is a boolean term.
Both are hash-consed, so equality of normal forms is identity of objects.
"""
from __future__ import annotations
from fractions import Fraction
from functools import lru_cache
import itertools

F0, F1 = Fraction(0), Fraction(1)
_uid = itertools.count(1)


# --------------------------------------------------------------------------------------------------- atoms
class Atom:
    __slots__ = ("kind", "args", "uid", "_deps", "_str")
    table: dict = {}

    def __new__(cls, kind, *args):
        key = (kind,) + args
        a = cls.table.get(key)
        if a is None:
            a = object.__new__(cls)
            a.kind, a.args, a.uid, a._deps, a._str = kind, args, next(_uid), None, None
            cls.table[key] = a
        return a

    def __repr__(self):
        if self._str is None:
            self._str = _atom_str(self)
        return self._str

    def __lt__(self, o):
        return self.uid < o.uid

    @property
    def deps(self):
        if self._deps is None:
            d = {self}
            if self.kind == "lam":
                raise AssertionError
            for x in self.args:
                d |= deps(x)
            self._deps = frozenset(d)
        return self._deps


def deps(x):
    if isinstance(x, (Atom, Poly, Cond)):
        return x.deps
    if isinstance(x, Lam):
        return x.deps
    if isinstance(x, tuple):
        d = set()
        for y in x:
            d |= deps(y)
        return d
    return frozenset()


class Lam:
    """A closed array-valued argument: content over the bound indices #0, #1, ... and the axes."""

    __slots__ = ("body", "axes", "tag", "_h", "_deps")
    table: dict = {}

    def __new__(cls, body, axes, tag=None):
        key = (body, axes, tag)
        a = cls.table.get(key)
        if a is None:
            a = object.__new__(cls)
            a.body, a.axes, a.tag, a._h, a._deps = body, axes, tag, hash(key), None
            cls.table[key] = a
        return a

    def __hash__(self):
        return self._h

    def __repr__(self):
        return "{%s%s}" % (self.body, "" if self.tag is None else "|%s" % (self.tag,))

    @property
    def deps(self):
        if self._deps is None:
            d = {a for a in deps(self.body) if a.kind != "idx"}
            for ax in self.axes:
                d |= {a for a in deps(ax) if a.kind != "idx"}
            self._deps = frozenset(d)
        return self._deps


def _atom_str(a):
    k, g = a.kind, a.args
    if k == "sym":
        return g[0]
    if k == "const":
        return g[0]
    if k == "idx":
        return "#%s" % (g[0],)
    if k == "elem":
        return "%s[%s]" % (g[0], ",".join(map(str, g[1])))
    if k == "app":
        s = "%s(%s)" % (g[0], ", ".join(map(str, g[1])))
        if len(g) > 2 and g[2]:
            s += "[%s]" % ",".join(map(str, g[2]))
        return s
    if k == "base":
        return "(%s)" % (g[0],)
    if k == "ite":
        return "if(%s; %s; %s)" % g
    return "%s%s" % (k, g)


# symbol attributes: real, int, nan (may be NaN/inf)
SYMATTR: dict = {}


def sym(name, **attr):
    a = Atom("sym", name)
    if attr:
        SYMATTR.setdefault(name, {}).update(attr)
    return a


_fresh = itertools.count(1)


def fresh(prefix, **attr):
    return sym("%s~%d" % (prefix, next(_fresh)), **attr)


I_ = Atom("const", "I")
PI_ = Atom("const", "pi")
INF_ = Atom("const", "inf")
NAN_ = Atom("const", "nan")


# --------------------------------------------------------------------------------------------------- polynomials
class Poly:
    __slots__ = ("t", "_h", "_deps", "_str")
    table: dict = {}

    def __new__(cls, terms: dict):
        key = frozenset((m, c) for m, c in terms.items() if c != 0)
        p = cls.table.get(key)
        if p is None:
            p = object.__new__(cls)
            p.t = {m: c for m, c in terms.items() if c != 0}
            p._h, p._deps, p._str = hash(key), None, None
            cls.table[key] = p
        return p

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    # -- construction helpers
    @property
    def deps(self):
        if self._deps is None:
            d = set()
            for (pw, ex) in self.t:
                for a, _ in pw:
                    d |= a.deps
                if ex is not None:
                    d |= ex.deps
            self._deps = frozenset(d)
        return self._deps

    def is_const(self):
        return not self.t or (len(self.t) == 1 and EMPTY in self.t)

    def const(self):
        """rational value or None"""
        if not self.t:
            return F0
        if len(self.t) == 1 and EMPTY in self.t:
            return self.t[EMPTY]
        return None

    def single(self):
        """(coef, mono) if monomial"""
        if len(self.t) == 1:
            (m, c), = self.t.items()
            return c, m
        return None

    def atom(self):
        """the atom if this is exactly one atom with coefficient and exponent one"""
        s = self.single()
        if s and s[0] == 1 and s[1][1] is None and len(s[1][0]) == 1 and s[1][0][0][1] == 1:
            return s[1][0][0][0]
        return None

    def __add__(self, o):
        o = P(o)
        if not o.t:
            return self
        if not self.t:
            return o
        d = dict(self.t)
        for m, c in o.t.items():
            d[m] = d.get(m, 0) + c
        return Poly(d)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) - self

    def __mul__(self, o):
        o = P(o)
        if not self.t or not o.t:
            return ZERO
        return _mul(self, o) if self._h <= o._h else _mul(o, self)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = P(o)
        return self * power(o, Fraction(-1))

    def __rtruediv__(self, o):
        return P(o) / self

    def __pow__(self, r):
        return power(self, r)

    def __repr__(self):
        if self._str is None:
            if not self.t:
                self._str = "0"
            else:
                out = []
                for (pw, ex), c in self.t.items():
                    f = []
                    if c != 1 or (not pw and ex is None):
                        f.append(str(c) if c > 0 else "(%s)" % c)
                    for a, e in pw:
                        f.append(repr(a) if e == 1 else "%r^%s" % (a, e if e > 0 else "(%s)" % e))
                    if ex is not None:
                        f.append("exp(%r)" % (ex,))
                    out.append("*".join(f))
                self._str = " + ".join(out)
                if len(self._str) > 4000:
                    self._str = self._str[:4000] + "..."
        return self._str


EMPTY = ((), None)
ZERO = Poly({})
ONE = Poly({EMPTY: F1})


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        return Poly({(((x, F1),), None): F1})
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, (int, Fraction)):
        return Poly({EMPTY: Fraction(x)})
    if isinstance(x, float):
        return from_float(x)
    if isinstance(x, complex):
        return from_float(x.real) + from_float(x.imag) * IMAG
    raise TypeError(type(x))


def from_float(x):
    if x != x:
        return P(NAN_)
    if x in (float("inf"), float("-inf")):
        return P(INF_) if x > 0 else -P(INF_)
    # the simplest rational that the literal denotes: repr is the shortest decimal
    return Poly({EMPTY: Fraction(repr(x))})


@lru_cache(maxsize=200000)
def _mul(a, b):
    if len(a.t) * len(b.t) > 20000:
        raise OverflowError("term too large")
    d = {}
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            m, s = mono_mul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2 * s
    extra = [m for m in d if any(x.kind == "base" and e > 0 and e.denominator == 1 for x, e in m[0])]
    if extra:  # a positive integer power of a sum appeared by cancellation: expand it
        out = Poly({m: c for m, c in d.items() if m not in extra})
        for m in extra:
            if d[m] == 0:
                continue
            q = Poly({(tuple((x, e) for x, e in m[0] if not (x.kind == "base" and e > 0 and e.denominator == 1)), m[1]): d[m]})
            for x, e in m[0]:
                if x.kind == "base" and e > 0 and e.denominator == 1:
                    q = q * power(x.args[0], e)
            out = out + q
        return out
    return Poly(d)


@lru_cache(maxsize=400000)
def mono_mul(m1, m2):
    """(mono, sign/rational factor)"""
    p1, e1 = m1
    p2, e2 = m2
    ex = e1 if e2 is None else (e2 if e1 is None else e1 + e2)
    if ex is not None and not ex.t:
        ex = None
    if not p1:
        pw = p2
    elif not p2:
        pw = p1
    else:
        d = dict(p1)
        for a, e in p2:
            d[a] = d.get(a, F0) + e
        pw = tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=_akey))
    s = F1
    for a, e in pw:
        if a is I_ and (e >= 2 or e < 0) and e.denominator == 1:
            k = int(e) % 4
            s = F1 if k < 2 else -F1
            r = k % 2
            pw = tuple((x, y) for x, y in pw if x is not I_)
            if r:
                pw = tuple(sorted(pw + ((I_, F1),), key=_akey))
            break
    for a, e in pw:  # sqrt of a rational constant
        if a.kind == "base" and e.denominator == 1 and a.args[0].is_const():
            c = a.args[0].const()
            s = s * (c ** int(e))
            pw = tuple((x, y) for x, y in pw if x is not a)
            return mono_mul((pw, ex), EMPTY)[0], s
    return (pw, ex), s


def _akey(t):
    return t[0].uid


IMAG = P(I_)
PI = P(PI_)


def exp(p):
    p = P(p)
    if not p.t:
        return ONE
    # e^{i pi k/2} for the constant part
    m = mono_mul((((I_, F1),), None), (((PI_, F1),), None))[0]
    c = p.t.get(m)
    f = ONE
    if c is not None and (2 * c).denominator == 1:
        k = int(2 * c) % 4
        f = (ONE, IMAG, -ONE, -IMAG)[k]
        p = p - Poly({m: c})
        if not p.t:
            return f
    return f * Poly({((), p): F1})


@lru_cache(maxsize=100000)
def power(p, r):
    p = P(p)
    if isinstance(r, Poly):
        c = r.const()
        if c is None:
            return P(Atom("app", "pow", (p, r)))
        r = c
    r = Fraction(r)
    if r == 0:
        return ONE
    if r == 1:
        return p
    s = p.single()
    if s is not None:
        c, (pw, ex) = s
        if r.denominator == 1:
            q = Poly({EMPTY: c ** int(r)})
            for a, e in pw:
                q = q * Poly({_one(a, e * r)[0]: _one(a, e * r)[1]})
            if ex is not None:
                q = q * exp(ex * r)
            return q
        # fractional power: split off what is known to be positive
        q, rest = ONE, Poly({EMPTY: F1 if c > 0 else -F1})
        if c != 0:
            q = q * const_pow(abs(c), r)
        for a, e in pw:
            if is_positive_atom(a):
                q = q * Poly({(((a, e * r),), None): F1})
            else:
                rest = rest * Poly({(((a, e),), None): F1})
        if ex is not None:
            if is_real(ex):
                q = q * exp(ex * r)
            else:
                rest = rest * exp(ex)
        if rest.const() == 1:
            return q
        return q * Poly({(((Atom("base", rest), r),), None): F1})
    if not p.t:
        return ZERO if r > 0 else P(Atom("app", "div0", ()))
    if r.denominator == 1 and 0 < r <= 12:
        q = p
        for _ in range(int(r) - 1):
            q = q * p
        return q
    # normalise: take out common monomial and leading coefficient
    common = None
    for (pw, ex) in p.t:
        d = dict(pw)
        if common is None:
            common = d
        else:
            common = {a: min(e, d.get(a, F0)) for a, e in common.items() if (a in d) or e < 0}
            for a, e in d.items():
                if e < 0 and a not in common:
                    common[a] = e
            common = {a: e for a, e in common.items() if e != 0}
    fac = ONE
    if r.denominator == 1 or all(is_positive_atom(a) for a in common):
        for a, e in common.items():
            m, sg = _one(a, -e)
            p = p * Poly({m: sg})
            m, sg = _one(a, e * r)
            fac = fac * Poly({m: sg})
    if r.denominator == 1 and 3 <= len(p.t) <= 40:
        for k in (5, 4, 3, 2):
            q = poly_root(p, k)
            if q is not None:
                return fac * power(q[0], r * k) * Poly({EMPTY: q[1] ** int(r)})
    lead = p.t[min(p.t, key=_mono_key)]
    if r.denominator == 1:
        p = p * (1 / lead)
        fac = fac * Poly({EMPTY: lead ** int(r)})
    elif abs(lead) != 1:
        p = p * (1 / abs(lead))
        fac = fac * const_pow(abs(lead), r)
    return fac * Poly({(((Atom("base", p), r),), None): F1})


@lru_cache(maxsize=20000)
def poly_root(p, k):
    """(q, c) with p == c * q**k for an exp-free polynomial p, or None"""
    atoms = set()
    for (pw, ex) in p.t:
        if ex is not None:
            return None
        for a, e in pw:
            if e.denominator != 1 or e < 0:
                return None
            atoms.add(a)
    atoms = sorted(atoms, key=lambda a: a.uid)
    key = lambda m: tuple(dict(m[0]).get(a, 0) for a in atoms)
    lead = max(p.t, key=key)
    if any(e % k for _, e in lead[0]):
        return None
    c = p.t[lead]
    m0 = Poly({(tuple((a, e / k) for a, e in lead[0]), None): F1})
    p = p * (1 / c)
    q, last = m0, key(lead)
    inv = power(m0, 1 - k) * Fraction(1, k)
    k0 = key(m0.single()[1])
    prev = k0
    for _ in range(6):
        r = p - power(q, k)
        if not r.t:
            return q, c
        lm = max(r.t, key=key)
        t = Poly({lm: r.t[lm]}) * inv
        tm = t.single()[1]
        if any(e < 0 for _, e in tm[0]) or key(tm) >= prev:
            return None
        prev = key(tm)
        q = q + t
    return None


def _mono_key(m):
    pw, ex = m
    return (tuple((a.uid, e) for a, e in pw), 0 if ex is None else 1, 0 if ex is None else repr(ex))


def _one(a, e):
    return mono_mul((((a, e),), None), EMPTY)


def const_pow(c, r):
    """c**r for rational c > 0, exactly if possible"""
    if c == 1:
        return ONE
    n, d = c.numerator, c.denominator
    k = r.denominator

    def root(x):
        y = round(x ** (1.0 / k))
        for z in (y - 1, y, y + 1):
            if z >= 0 and z ** k == x:
                return z
        return None

    rn, rd = root(n), root(d)
    if rn is not None and rd is not None:
        return Poly({EMPTY: Fraction(rn, rd) ** r.numerator})
    ip = r.numerator // r.denominator
    fr = r - ip
    q = Poly({EMPTY: c ** ip})
    return q * Poly({(((Atom("base", Poly({EMPTY: c})), fr),), None): F1})


def is_positive_atom(a):
    if a.kind == "const":
        return a is PI_
    if a.kind == "sym":
        return SYMATTR.get(a.args[0], {}).get("pos", False)
    if a.kind == "app":
        return a.args[0] in ("norm", "abs_pos", "len", "besselzero")
    if a.kind == "base":
        return a.args[0].is_const()
    return False


def is_real_atom(a):
    if a is I_:
        return False
    if a.kind == "sym":
        return SYMATTR.get(a.args[0], {}).get("real", False)
    if a.kind == "const":
        return True
    if a.kind == "idx":
        return True
    if a.kind == "elem":
        return SYMATTR.get(a.args[0], {}).get("real", False)
    if a.kind == "app":
        if a.args[0] in ("norm", "norm0", "fl", "abs", "real", "imag", "max", "min", "floor", "ceil", "len", "cond", "besselzero", "count",
                         "npmax", "npmin", "angle", "log", "mod"):
            return True
        if a.args[0] in ("irfft",):
            return True
        return False
    if a.kind == "base":
        return is_real(a.args[0])
    if a.kind == "ite":
        return is_real(a.args[1]) and is_real(a.args[2])
    return False


@lru_cache(maxsize=100000)
def is_real(p):
    for (pw, ex) in p.t:
        for a, e in pw:
            if a is I_:
                if e % 2 != 0:
                    return False
            elif not is_real_atom(a):
                return False
        if ex is not None and not is_real(ex):
            return False
    return True


@lru_cache(maxsize=100000)
def conj(p):
    p = P(p)
    out = ZERO
    for (pw, ex), c in p.t.items():
        q = Poly({EMPTY: c})
        for a, e in pw:
            if a is I_:
                q = q * power(-IMAG, e)
            elif is_real_atom(a):
                q = q * Poly({(((a, e),), None): F1})
            elif a.kind == "app" and a.args[0] == "conj" and e.denominator == 1:
                q = q * power(a.args[1][0], e)
            elif a.kind == "base" and e.denominator == 1:
                q = q * power(conj(a.args[0]), e)
            elif a.kind == "ite":
                q = q * power(ite(a.args[0], conj(a.args[1]), conj(a.args[2])), e)
            else:
                q = q * power(P(Atom("app", "conj", (P(a),))), e)
        if ex is not None:
            q = q * exp(conj(ex))
        out = out + q
    return out


def real_part(p):
    p = P(p)
    if is_real(p):
        return p
    c = conj(p)
    r, im = ZERO, ZERO
    # split rational I only when the rest is real
    ok = True
    for (pw, ex), cf in p.t.items():
        odd = any(a is I_ for a, e in pw)
        rest = tuple((a, e) for a, e in pw if a is not I_)
        q = Poly({(rest, ex): cf})
        if not is_real(q):
            ok = False
            break
        if odd:
            im = im + q
        else:
            r = r + q
    if ok:
        return r
    return P(Atom("app", "real", (p,)))


def imag_part(p):
    p = P(p)
    if is_real(p):
        return ZERO
    im = ZERO
    for (pw, ex), cf in p.t.items():
        odd = any(a is I_ for a, e in pw)
        rest = tuple((a, e) for a, e in pw if a is not I_)
        q = Poly({(rest, ex): cf})
        if not is_real(q):
            return P(Atom("app", "imag", (p,)))
        if odd:
            im = im + q
    return im


def absval(p):
    p = P(p)
    c = p.const()
    if c is not None:
        return P(abs(c))
    s = p.single()
    if s is not None:
        c, (pw, ex) = s
        q = P(abs(c))
        for a, e in pw:
            if a is I_:
                continue
            if is_positive_atom(a):
                q = q * Poly({(((a, e),), None): F1})
            elif a.kind == "app" and a.args[0] == "abs" and e.denominator == 1:
                q = q * Poly({(((a, e),), None): F1})
            else:
                q = q * power(P(Atom("app", "abs", (P(a),))), e)
        if ex is not None:
            q = q * exp(real_part(ex))
        return q
    # normalise sign
    if p.t[min(p.t, key=_mono_key)] < 0:
        p = -p
    return P(Atom("app", "abs", (p,)))


# --------------------------------------------------------------------------------------------------- conditions
class Cond:
    __slots__ = ("kind", "args", "uid", "_deps")
    table: dict = {}

    def __new__(cls, kind, *args):
        key = (kind,) + args
        c = cls.table.get(key)
        if c is None:
            c = object.__new__(cls)
            c.kind, c.args, c.uid, c._deps = kind, args, next(_uid), None
            cls.table[key] = c
        return c

    @property
    def deps(self):
        if self._deps is None:
            d = set()
            for x in self.args:
                if isinstance(x, frozenset):
                    for y in x:
                        d |= deps(y)
                else:
                    d |= deps(x)
            self._deps = frozenset(d)
        return self._deps

    def __repr__(self):
        k = self.kind
        if k == "T":
            return "True"
        if k == "F":
            return "False"
        if k == "cmp":
            op = {"lt": "<", "le": "<=", "eq": "=="}[self.args[0]]
            return "%r %s %r" % (self.args[1], op, self.args[2])
        if k == "not":
            return "not(%r)" % (self.args[0],)
        if k in ("and", "or"):
            return "(" + (" %s " % k).join(sorted(map(repr, self.args[0]))) + ")"
        if k == "sym":
            return self.args[0]
        return "%s(%s)" % (self.args[0], ", ".join(map(repr, self.args[1])))


TRUE = Cond("T")
FALSE = Cond("F")


def csym(name):
    return Cond("sym", name)


def capp(name, *args):
    return Cond("app", name, args)


def mk_not(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.kind == "not":
        return c.args[0]
    if c.kind == "and":
        return mk_or(*[mk_not(x) for x in c.args[0]])
    if c.kind == "or":
        return mk_and(*[mk_not(x) for x in c.args[0]])
    if c.kind == "cmp" and c.args[0] in ("lt", "le") and not maybe_nan(c.args[1]) and not maybe_nan(c.args[2]):
        return mk_cmp("le" if c.args[0] == "lt" else "lt", c.args[2], c.args[1])
    return Cond("not", c)


def _flat(kind, cs):
    out = set()
    for c in cs:
        if c.kind == kind:
            out |= c.args[0]
        else:
            out.add(c)
    return out


def mk_and(*cs):
    s = _flat("and", cs)
    s.discard(TRUE)
    if FALSE in s:
        return FALSE
    for c in s:
        if mk_not(c) in s:
            return FALSE
    for c in list(s):  # absorption and unit resolution
        if c.kind == "or":
            rest = frozenset(x for x in c.args[0] if mk_not(x) not in s)
            if any(x in s for x in rest):
                s.discard(c)
            elif len(rest) < len(c.args[0]):
                s.discard(c)
                return mk_and(*s, mk_or(*rest))
    le = [c for c in s if c.kind == "cmp" and c.args[0] == "le"]
    for i, c in enumerate(le):  # a <= b <= a
        for d in le[:i]:
            if c.args[1] + d.args[1] is ZERO or c.args[1] + d.args[1] == ZERO:
                s.discard(c)
                s.discard(d)
                return mk_and(*s, mk_cmp("eq", c.args[1], ZERO))
    if not s:
        return TRUE
    if len(s) == 1:
        return next(iter(s))
    return Cond("and", frozenset(s))


def mk_or(*cs):
    s = _flat("or", cs)
    s.discard(FALSE)
    if TRUE in s:
        return TRUE
    for c in s:
        if mk_not(c) in s:
            return TRUE
    for c in list(s):
        if c.kind == "and":
            rest = frozenset(x for x in c.args[0] if mk_not(x) not in s)
            if any(x in s for x in rest):
                s.discard(c)
            elif len(rest) < len(c.args[0]):
                s.discard(c)
                return mk_or(*s, mk_and(*rest))
    if not s:
        return FALSE
    if len(s) == 1:
        return next(iter(s))
    return Cond("or", frozenset(s))


@lru_cache(maxsize=100000)
def maybe_nan(p):
    if p is None:
        return False
    for a in p.deps:
        if a.kind in ("sym", "elem") and SYMATTR.get(a.args[0], {}).get("nan"):
            return True
        if a in (NAN_, INF_):
            return True
        if a.kind == "app" and a.args[0] in ("norm", "norm0", "max", "div0"):
            return True
    return False


def strip_positive(d):
    """divide by the common power of atoms known to be positive"""
    common = None
    for (pw, ex) in d.t:
        e = {a: x for a, x in pw if is_positive_atom(a)}
        if common is None:
            common = e
        else:
            common = {a: min(common.get(a, F0), e.get(a, F0)) for a in set(common) | set(e)}
    for a, e in (common or {}).items():
        if e != 0:
            d = d * Poly({(((a, -e),), None): F1})
    return d


def inf_sign(p):
    if INF_ in p.deps:
        if p.atom() is INF_:
            return 1
        if (-p).atom() is INF_:
            return -1
    return 0


def counted(op, d):
    """comparisons of the number of entries selected by a mask that ask whether there are any"""
    cs = [a for a in d.deps if a.kind == "app" and a.args[0] == "count"]
    k = linear_in(d, cs[0]) if len(cs) == 1 else None
    if k is None or not isinstance(cs[0].args[1], tuple) or not cs[0].args[1] or not isinstance(cs[0].args[1][0], Lam):
        return None
    if isinstance(k, complex):
        return None
    lam = cs[0].args[1][0]
    rest = d - P(cs[0]) * k
    c = rest.const()
    if c is None and len(lam.axes) == 1 and isinstance(lam.axes[0], Poly) and rest is lam.axes[0] * (-k):
        # against the number of all entries
        missing = mk_capp("any", Lam(mk_not(lam.body), ((lam.axes[0], None),)))
        if op == "eq":
            return mk_not(missing)
        return (missing if op == "lt" else TRUE) if k > 0 else FALSE if op == "lt" else mk_not(missing)
    if c is None or isinstance(c, complex):
        return None
    some = mk_capp("any", Lam(lam.body, tuple((n, None) for n in lam.axes)))
    v = -c / k
    if op == "eq":
        return mk_not(some) if v == 0 else FALSE if v < 0 else None
    if k > 0:
        if v < 0 or v == 0 and op == "lt":
            return FALSE
        return mk_not(some) if v < 1 or v == 1 and op == "lt" else None
    if v < 0 or v == 0 and op == "le":
        return TRUE
    return some if v < 1 or v == 1 and op == "le" else None


def linear_in(d, a):
    """the number a is multiplied with in d, if d is linear in a with a number as the rest"""
    for m, k in d.t.items():
        if len(m[0]) == 1 and m[0][0][0] is a and m[0][0][1] == 1 and m[1] is None:
            return k
    return None


def mk_cmp(op, a, b):
    a, b = P(a), P(b)
    if op == "gt":
        return mk_cmp("lt", b, a)
    if op == "ge":
        return mk_cmp("le", b, a)
    if op == "ne":
        return mk_not(mk_cmp("eq", a, b))
    if NAN_ in a.deps and a.atom() is NAN_ or NAN_ in b.deps and b.atom() is NAN_:
        return FALSE
    ca, cb = a.const(), b.const()
    if ca is not None and cb is not None:
        return TRUE if {"lt": ca < cb, "le": ca <= cb, "eq": ca == cb}[op] else FALSE
    ia, ib = inf_sign(a), inf_sign(b)
    if ia or ib:
        fa, fb = ia or (0 if not maybe_nan(a) and is_real(a) else None), ib or (0 if not maybe_nan(b) and is_real(b) else None)
        if fa is not None and fb is not None:
            return TRUE if {"lt": fa < fb, "le": fa <= fb, "eq": fa == fb}[op] else FALSE
    if maybe_nan(a) or maybe_nan(b):
        if op == "eq" and b.deps and (not a.deps or repr(b) < repr(a)):
            a, b = b, a
        return Cond("cmp", op, a, b)
    if a is b:
        return FALSE if op == "lt" else TRUE
    d = a - b
    if len(d.t) > 1:
        d = strip_positive(d)
    cd = d.const()
    if cd is not None:
        return TRUE if {"lt": cd < 0, "le": cd <= 0, "eq": cd == 0}[op] else FALSE
    k = min(d.t, key=_mono_key)
    if len(d.t) <= 2:
        c = counted(op, d)
        if c is not None:
            return c
    if op == "eq":
        d = d * (1 / d.t[k])
        s = d.single()
        if s is not None and s[1][1] is None and s[1][0] and all(e > 0 for _, e in s[1][0]) and len(s[1][0]) == 1:
            d = P(s[1][0][0][0])
        return Cond("cmp", "eq", d, ZERO)
    d = d * (1 / abs(d.t[k]))
    return Cond("cmp", op, d, ZERO)


# --------------------------------------------------------------------------------------------------- gated terms
@lru_cache(maxsize=200000)
def shifted(c, lit, val):
    """truth of a comparison of +-L + r given one of L, r a number"""
    if not (isinstance(c.args[1], Poly) and isinstance(lit.args[1], Poly) and c.args[2] is ZERO and lit.args[2] is ZERO):
        return None
    L, D = lit.args[1], c.args[1]
    if len(L.t) > 6 or len(D.t) > 6:
        return None
    for s in (1, -1):
        r = (D - L if s == 1 else D + L).const()
        if r is not None and not isinstance(r, complex):
            break
    else:
        return None
    from .ops import is_int_poly
    integer = is_int_poly(L)
    op = lit.args[0]
    lo = hi = None  # closed bounds of L; open ones only when L is an integer
    strict = False
    if op == "eq":
        if not val:
            return None
        lo = hi = 0
    elif val:
        hi, strict = (-1, False) if op == "lt" and integer else (0, op == "lt")
    elif integer:
        lo = 0 if op == "lt" else 1
    else:
        return None
    if s == -1:
        lo, hi = (None if hi is None else -hi), (None if lo is None else -lo)
    # now bounds of s*L; shift by r
    lo, hi = (None if lo is None else lo + r), (None if hi is None else hi + r)
    up = strict and s == 1
    dn = strict and s == -1
    k = c.args[0]
    if k == "lt":
        if hi is not None and (hi < 0 or up and hi <= 0):
            return True
        if lo is not None and lo >= 0:
            return False
    elif k == "le":
        if hi is not None and hi <= 0:
            return True
        if lo is not None and (lo > 0 or dn and lo >= 0):
            return False
    elif k == "eq":
        if lo is not None and hi is not None and lo == hi:
            return lo == 0
        if hi is not None and (hi < 0 or up and hi <= 0) or lo is not None and (lo > 0 or dn and lo >= 0):
            return False
    return None


def cond_assume(c, lit, val):
    """simplify condition c assuming literal lit is val"""
    if c is lit:
        return TRUE if val else FALSE
    if c.kind == "not":
        return mk_not(cond_assume(c.args[0], lit, val))
    if c.kind in ("and", "or"):
        xs = [cond_assume(x, lit, val) for x in c.args[0]]
        return mk_and(*xs) if c.kind == "and" else mk_or(*xs)
    if lit.kind == "not":
        return cond_assume(c, lit.args[0], not val)
    if lit.kind == "and" and val:
        for x in lit.args[0]:
            c = cond_assume(c, x, True)
        return c
    if lit.kind == "or" and not val:
        for x in lit.args[0]:
            c = cond_assume(c, x, False)
        return c
    if c.kind == "cmp" and lit.kind == "cmp" and c is not lit:
        # opposite orderings of the same pair
        if mk_not(lit) is c:
            return FALSE if val else TRUE
        if val and lit.args[0] == "lt" and c.args[0] == "le" and lit.args[1:] == c.args[1:]:
            return TRUE
        if val and lit.args[0] == "lt" and c.args[0] in ("lt", "le") and lit.args[1] is c.args[2] and lit.args[2] is c.args[1]:
            return FALSE
        if val and lit.args[0] == "lt" and c.args[0] == "eq" and set(lit.args[1:]) == set(c.args[1:]):
            return FALSE
        if lit.args[2] is ZERO and c.args[2] is ZERO and lit.args[1] is (-c.args[1]):
            if val and lit.args[0] == "lt":
                return FALSE
        r = shifted(c, lit, val)
        if r is not None:
            return TRUE if r else FALSE
    if c.kind == "app" and c.args[0] == "any" and isinstance(c.args[1][0], Lam):
        b = cond_assume(c.args[1][0].body, lit, val) if isinstance(c.args[1][0].body, Cond) else c.args[1][0].body
        if b is FALSE:
            return FALSE
        return c
    if lit.kind == "app" and lit.args[0] == "any" and isinstance(lit.args[1][0], Lam) and not val:
        b = lit.args[1][0].body
        if b is c:
            return FALSE
        if isinstance(b, Cond) and mk_not(b) is c:
            return TRUE
    # anything nested inside the arguments
    return c


def assume(p, lit, val, un=False):
    """simplify a Poly under a literal; un: a literal about one component is taken to hold of every component"""
    if lit.kind == "not":
        return assume(p, lit.args[0], not val, un)
    return _assume(p, lit, val, un)


@lru_cache(maxsize=100000)
def _assume(p, lit, val, un):
    if not any(a.kind == "ite" for a in p.deps):
        return p
    out = ZERO
    for (pw, ex), c in p.t.items():
        q = Poly({EMPTY: c})
        for a, e in pw:
            q = q * power(_assume_atom(a, lit, val, un), e)
        if ex is not None:
            q = q * exp(_assume(ex, lit, val, un))
        out = out + q
    return out


def _assume_atom(a, lit, val, un):
    if not any(x.kind == "ite" for x in a.deps):
        return P(a)
    if a.kind == "ite":
        c = cond_assume(a.args[0], lit, val)
        if c is TRUE:
            return _assume(a.args[1], lit, val, un)
        if c is FALSE:
            return _assume(a.args[2], lit, val, un)
        return ite(c, _assume(a.args[1], lit, val, un), _assume(a.args[2], lit, val, un))
    if a.kind == "base":
        return _assume(a.args[0], lit, val, un)
    if a.kind == "app":
        return rebuild(a, lambda x: _assume_any(x, lit, val, un))
    return P(a)


def _assume_any(x, lit, val, un):
    if isinstance(x, Poly):
        return _assume(x, lit, val, un)
    if isinstance(x, Lam):
        if not un and any(d.kind == "idx" for d in lit.deps):
            return x
        return Lam(_assume_any(x.body, lit, val, un), x.axes, x.tag)
    if isinstance(x, tuple):
        return tuple(_assume_any(y, lit, val, un) for y in x)
    if isinstance(x, Cond):
        return cond_assume(x, lit, val)
    return x


def solve_eq(c):
    """a substitution implied by an equality condition: (atom, Poly) or None"""
    if c.kind != "cmp" or c.args[0] != "eq":
        return None
    a, b = c.args[1], c.args[2]
    d = a - b
    best = None
    for (pw, ex), cf in d.t.items():
        if ex is None and len(pw) == 1 and pw[0][1] == 1 and pw[0][0].kind in ("sym", "elem"):
            at = pw[0][0]
            rest = d - Poly({(pw, ex): cf})
            if at in rest.deps:
                continue
            if best is None or at.uid > best[0].uid:
                best = (at, rest * (-1 / cf))
    return best


def ite(c, a, b):
    """gated value with the collapses that make caches, masks and clamps comparable"""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.kind == "not":
        return ite(c.args[0], b, a)
    a2, b2 = assume(a, c, True), assume(b, c, False)
    if a2 is b2:
        return a2
    # else-branch, read under the condition, already gives the then-value (and vice versa)
    if assume(b2, c, True) is a2:
        return b2
    if assume(a2, c, False) is b2:
        return a2
    s = solve_eq(c)
    if s is not None:
        m = {s[0]: s[1]}
        bs = subst(b2, m)
        if bs is subst(a2, m):
            return b2
    if c.kind == "app" and c.args[0] == "any" and isinstance(c.args[1][0], Lam):
        body = c.args[1][0].body
        if isinstance(body, Cond):
            if assume(a2, body, False) is b2:
                return a2
            if assume(b2, body, False) is assume(a2, body, False):
                # only reachable elements differ
                pass
    if c.kind == "cmp" and c.args[0] == "lt" and maybe_nan(c.args[1]) is False and maybe_nan(c.args[2]) is False:
        # if(a<b; b; a) and if(b<a; a; b) are the same maximum
        pass
    return P(Atom("ite", c, a2, b2))


# --------------------------------------------------------------------------------------------------- substitution
APP_HOOKS = {}  # name -> function(args, idx) returning Poly or None, used when a term is rebuilt


BITS = {"bitBitAnd": int.__and__, "bitBitOr": int.__or__, "bitBitXor": int.__xor__, "bitLShift": int.__lshift__, "bitRShift": int.__rshift__}


def _bit_hook(f):
    def h(args, idx):
        x, y = (a.const() for a in args)
        if x is not None and y is not None and x.denominator == y.denominator == 1 and y >= 0:
            return P(f(int(x), int(y)))
    return h


def mk_app(name, args, idx=()):
    h = APP_HOOKS.get(name)
    if h is not None:
        r = h(args, idx)
        if r is not None:
            return r
    return P(Atom("app", name, args, idx) if idx else Atom("app", name, args))


def rebuild(a, f):
    """rebuild atom a applying f to its term arguments; returns Poly"""
    k = a.kind
    if k == "app":
        idx = f(a.args[2]) if len(a.args) > 2 else ()
        args = tuple(f(x) for x in a.args[1])
        if a.args[0] == "abs" and len(args) == 1 and isinstance(args[0], Poly):
            return absval(args[0])
        if a.args[0] == "conj":
            return conj(args[0])
        if a.args[0] == "real":
            return real_part(args[0])
        if a.args[0] == "imag":
            return imag_part(args[0])
        if a.args[0] == "pow":
            return power(args[0], args[1])
        return mk_app(a.args[0], args, idx)
    if k == "base":
        return f(a.args[0])
    if k == "ite":
        return ite(f(a.args[0]), f(a.args[1]), f(a.args[2]))
    if k == "elem":
        return P(Atom("elem", a.args[0], f(a.args[1])))
    if k == "node":
        return P(Atom("node", *[f(x) for x in a.args]))
    return P(a)


class Subst:
    """simultaneous replacement of atoms by Polys"""

    def __init__(self, mapping, into_lam=True):
        self.m = {k: P(v) for k, v in mapping.items()}
        self.keys = frozenset(self.m)
        self.hasidx = any(k.kind == "idx" for k in self.keys)
        self.cache = {}

    def __call__(self, x):
        if isinstance(x, Poly):
            if not (x.deps & self.keys):
                return x
            r = self.cache.get(x)
            if r is None:
                r = ZERO
                for (pw, ex), c in x.t.items():
                    q = Poly({EMPTY: c})
                    for a, e in pw:
                        q = q * power(self.atom(a), e)
                    if ex is not None:
                        q = q * exp(self(ex))
                    r = r + q
                self.cache[x] = r
            return r
        if isinstance(x, Cond):
            return self.cond(x)
        if isinstance(x, Lam):
            if not (x.deps & self.keys):
                return x
            r = self.cache.get(x)
            if r is None:
                sub = self
                if self.hasidx:
                    sub = Subst({k: v for k, v in self.m.items() if k.kind != "idx"})
                r = Lam(sub(x.body), tuple(sub(y) for y in x.axes), sub(x.tag) if isinstance(x.tag, (tuple, Poly)) else x.tag)
                self.cache[x] = r
            return r
        if isinstance(x, tuple):
            return tuple(self(y) for y in x)
        if isinstance(x, Atom):
            return self.atom(x)
        return x

    def atom(self, a):
        v = self.m.get(a)
        if v is not None:
            return v
        if not (a.deps & self.keys):
            return P(a)
        r = self.cache.get(a)
        if r is None:
            r = rebuild(a, self)
            self.cache[a] = r
        return r

    def cond(self, c):
        if not (c.deps & self.keys):
            return c
        r = self.cache.get(c)
        if r is None:
            if c.kind == "cmp":
                r = mk_cmp(c.args[0], self(c.args[1]), self(c.args[2]))
            elif c.kind == "not":
                r = mk_not(self(c.args[0]))
            elif c.kind == "and":
                r = mk_and(*[self(y) for y in c.args[0]])
            elif c.kind == "or":
                r = mk_or(*[self(y) for y in c.args[0]])
            elif c.kind == "app":
                r = mk_capp(c.args[0], *[self(y) for y in c.args[1]])
            else:
                r = c
            self.cache[c] = r
        return r


def mk_capp(name, *args):
    if name == "any" and isinstance(args[0], Lam):
        if args[0].body is FALSE:
            return FALSE
        if args[0].body is TRUE:
            return Cond("app", name, args)
    if name in ("isnan", "isinf") and isinstance(args[0], Poly):
        a = args[0].atom()
        if a is NAN_:
            return TRUE if name == "isnan" else FALSE
        if a is INF_ or (-args[0]).atom() is INF_:
            return FALSE if name == "isnan" else TRUE
        if not maybe_nan(args[0]):
            return FALSE
        # a finite non-zero factor changes neither
    return Cond("app", name, args)


def subst(x, mapping):
    if not mapping:
        return x
    return Subst(mapping)(x)


class Rename(Subst):
    """Subst that also replaces whole Lam arguments / whole Polys by table"""

    def __init__(self, mapping, lams=None):
        super().__init__(mapping)
        self.lams = lams or {}
        if self.lams:
            d = set()
            for l in self.lams:
                d |= l.deps
            self.keys = frozenset(self.keys | d)

    def __call__(self, x):
        if isinstance(x, Lam) and x in self.lams:
            return self.lams[x]
        return super().__call__(x)


def conds_in(p):
    """literals gating a term"""
    out = set()
    for a in p.deps:
        if a.kind == "ite":
            out |= literals(a.args[0])
    return out


def literals(c):
    if c.kind in ("and", "or"):
        s = set()
        for x in c.args[0]:
            s |= literals(x)
        return s
    if c.kind == "not":
        return literals(c.args[0])
    if c in (TRUE, FALSE):
        return set()
    return {c}


def equal(a, b, facts=(), limit=14):
    return differ(a, b, facts, limit)[0]


def differ(a, b, facts=(), limit=14):
    """are two gated terms equal?  Normal forms first, then by cases on the gating literals.
    Returns (True, None) or (False, list of literal assignments of a differing case)."""
    if a is b:
        return True, None
    for lit, val in facts:
        a, b = assume(a, lit, val), assume(b, lit, val)
    if a is b:
        return True, None
    ls = conds_in(a) | conds_in(b)
    return _eq_cases(a, b, (), limit)


def _eq_cases(a, b, trail, limit):
    if a is b:
        return True, None
    ls = sorted(conds_in(a) | conds_in(b), key=lambda c: c.uid)
    if not ls:
        # factor through pending equalities of the trail
        m = {}
        for lit, val in trail:
            if val:
                s = solve_eq(subst(lit, m)) if m else solve_eq(lit)
                if s is not None:
                    m = {k: subst(v, {s[0]: s[1]}) for k, v in m.items()}
                    m[s[0]] = s[1]
        if m:
            a2, b2 = subst(a, m), subst(b, m)
            if a2 is b2:
                return True, None
            if (a2, b2) != (a, b) and (conds_in(a2) or conds_in(b2)):
                return _eq_cases(a2, b2, trail, limit)
        if is_zero_rational(a - b):
            return True, None
        return False, [(l, v) for l, v in trail]
    if len(trail) >= limit:
        return False, [(l, v) for l, v in trail]
    l = ls[0]
    for v in (True, False):
        if inconsistent(trail, l, v):
            continue
        ok, w = _eq_cases(assume(a, l, v), assume(b, l, v), trail + ((l, v),), limit)
        if not ok:
            return ok, w
    return True, None


def inconsistent(trail, l, v):
    """cheap consistency of an ordering literal with those already chosen (same pair of terms)"""
    for m, w in trail:
        r = cond_assume(l, m, w)
        if r is TRUE and not v or r is FALSE and v:
            return True
    return empty_interval(trail, l, v)


def empty_interval(trail, l, v):
    """integer comparisons of the same quantity up to a shift that leave no value"""
    if l.kind != "cmp" or not isinstance(l.args[1], Poly) or l.args[2] is not ZERO:
        return False
    from .ops import is_int_poly
    D = l.args[1]
    if len(D.t) > 6 or not is_int_poly(D):
        return False
    lo, hi, holes = None, None, set()
    n = 0
    for c, w in tuple(trail) + ((l, v),):
        if c.kind != "cmp" or not isinstance(c.args[1], Poly) or c.args[2] is not ZERO or len(c.args[1].t) > 6:
            continue
        for s in (1, -1):
            r = (c.args[1] - D if s == 1 else c.args[1] + D).const()
            if r is not None and r == int(r):
                break
        else:
            continue
        n += 1
        # s*D + r  op  0
        op = c.args[0]
        a, b = None, None  # bounds of s*D
        if op == "eq":
            if w:
                a = b = -r
            else:
                holes.add(-r * s)
        elif w:
            b = -r - 1 if op == "lt" else -r
        else:
            a = -r if op == "lt" else -r + 1
        if s == -1:
            a, b = (None if b is None else -b), (None if a is None else -a)
        lo = a if lo is None else lo if a is None else max(lo, a)
        hi = b if hi is None else hi if b is None else min(hi, b)
    if n < 2 or lo is None or hi is None:
        return False
    while lo in holes and lo <= hi:
        lo += 1
    return lo > hi


def is_zero_rational(p):
    """multiply out denominators that are sums; zero test of a rational function"""
    for _ in range(8):
        if not p.t:
            return True
        den = None
        for (pw, ex) in p.t:
            for a, e in pw:
                if a.kind == "base" and e < 0 and e.denominator == 1:
                    if den is None or e < den[1]:
                        den = (a, e) if den is None or den[0] is a else den
        if den is None:
            # fractional bases: combine x^(k/m) of the same base is automatic
            return False
        a = den[0]
        e = min((x[1] for (pw, ex) in p.t for x in pw if x[0] is a), default=F0)
        try:
            p = p * power(P(a.args[0]), -e) if False else mul_base(p, a, -e)
        except OverflowError:
            return False
    return not p.t


def mul_base(p, a, k):
    """p * base^k keeping exact cancellation with base^-j"""
    out = ZERO
    for (pw, ex), c in p.t.items():
        d = dict(pw)
        e = d.pop(a, F0) + k
        q = Poly({(tuple(sorted(d.items(), key=_akey)), ex): c})
        if e != 0:
            q = q * power(a.args[0], e)
        out = out + q
    return out


_UNC_COND = {"truth", "arraytruth", "nonempty", "opq", "isinstance", "hasattr", "callable", "in", "listeq", "streq", "is", "isclose", "ewcond", "mat", "isnone", "isdtype"}
_unc = {}


def uncertain(x):
    """does x contain a part the interpreter could not give a meaning to?"""
    if isinstance(x, (tuple, list, frozenset)):
        return any(uncertain(y) for y in x)
    if not isinstance(x, (Poly, Cond, Atom, Lam)):
        return False
    k = id(x)
    r = _unc.get(k)
    if r is not None and r[0] is x:
        return r[1]
    if isinstance(x, Poly):
        r = any(uncertain(a) for m in x.t for a, _ in m[0]) or any(m[1] is not None and uncertain(m[1]) for m in x.t)
    elif isinstance(x, Cond):
        r = x.kind == "app" and x.args[0] in _UNC_COND or any(uncertain(a) for a in x.args)
    elif isinstance(x, Lam):
        r = uncertain(x.body)
    else:
        r = (x.kind == "app" and isinstance(x.args[0], str) and x.args[0].startswith(("opq:", "bad:"))) or (x.kind == "sym" and "~" in x.args[0]) or any(uncertain(a) for a in x.args)
    _unc[k] = (x, r)
    return r


for _n, _f in BITS.items():
    APP_HOOKS[_n] = _bit_hook(_f)
