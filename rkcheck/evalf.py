"""Values of normal forms at sample points.

Used only to tell two different normal forms apart (polynomial identity testing of terms the analysis derived):
nothing of the analysed program is executed.  Uninterpreted functions become fixed smooth functions of their arguments."""
from __future__ import annotations
import cmath, math, zlib
from .terms import *
from .terms import P, SYMATTR
from . import terms as T
from .order import prove


class Unknown(Exception):
    pass


def h01(*key):
    return (zlib.crc32(repr(key).encode()) % 1000003) / 1000003.0


J0Z = [2.404825557695773, 5.520078110286311, 8.653727912911013, 11.791534439014281, 14.930917708487787]


def j0zero(k):
    k = int(round(k.real))
    if k < 1:
        raise Unknown("zero")
    if k <= 5:
        return J0Z[k - 1]
    b = (k - 0.25) * math.pi
    return b + 1 / (8 * b) - 124 / (3 * (8 * b) ** 3)


def mat_mul(a, b):
    return [[sum((x * b[k][j] for k, x in enumerate(row)), 0j) for j in range(len(b[0]))] for row in a]


def mat_pow(a, n):
    if n < 0:
        raise Unknown("inverse")
    r = [[1 + 0j if i == j else 0j for j in range(len(a))] for i in range(len(a))]
    for _ in range(n):
        r = mat_mul(r, a)
    return r


class Eval:
    def __init__(self, env=None, seed=0, alias=None):
        self.env = dict(env or {})
        self.seed = seed
        self.alias = alias or {}  # arrays and symbols that have the values of others
        self.memo = {}

    def sym(self, a):
        if a.args[0] in self.alias:
            a = Atom("sym", self.alias[a.args[0]])
        if a in self.env:
            return complex(self.env[a])
        at = SYMATTR.get(a.args[0], {})
        r = h01(a.args[0], self.seed)
        if at.get("int"):
            v = 2 + int(7 * r)
        elif at.get("pos"):
            v = 0.4 + r
        elif at.get("real"):
            v = 3 * r - 1.1
        else:
            v = complex(2 * r - 0.9, 2 * h01(a.args[0], "im", self.seed) - 0.9)
        self.env[a] = v
        return complex(v)

    def poly(self, p):
        m = self.memo.get(p)
        if m is None:
            s = 0j
            for (pw, ex), c in p.t.items():
                x = complex(c.numerator / c.denominator)
                for a, e in pw:
                    v = self.atom(a)
                    try:
                        x *= v ** int(e) if e.denominator == 1 else v ** (e.numerator / e.denominator)
                    except ZeroDivisionError:
                        raise Unknown("division by zero")
                if ex is not None:
                    x *= cmath.exp(self.poly(ex))
                s += x
            m = self.memo[p] = s
        return m

    def atom(self, a):
        m = self.memo.get(a)
        if m is None:
            m = self.memo[a] = self._atom(a)
        return m

    def real(self, p):
        return self.poly(p).real

    def _atom(self, a):
        k, g = a.kind, a.args
        if k == "sym":
            return self.sym(a)
        if k == "const":
            if g[0] == "I":
                return 1j
            if g[0] == "pi":
                return complex(math.pi)
            raise Unknown(g[0])
        if k == "idx":
            if a in self.env:
                return complex(self.env[a])
            raise Unknown("free index")
        if k == "base":
            return self.poly(g[0])
        if k == "ite":
            return self.poly(g[1] if self.cond(g[0]) else g[2])
        if k == "elem":
            if self.alias and any(isinstance(k, tuple) for k in self.alias):
                at = tuple(P(int(round(self.poly(x).real))) if isinstance(x, Poly) else x for x in g[1])
                other = self.alias.get((g[0], repr(at)))
                if other is not None:
                    return self.atom(Atom("elem", other, *g[1:]))
            if g[0] in self.alias:
                return self.atom(Atom("elem", self.alias[g[0]], *g[1:]))
            z = self.mix(("elem", repr(g[0]), self.seed), list(g[1]))
            z = complex(1.7 * math.sin(7.3 * z.real + 2 * z.imag), 1.7 * math.sin(5.1 * z.real - 3 * z.imag + 1))
            if SYMATTR.get(g[0], {}).get("pos"):
                return complex(0.3 + abs(z.real))
            return complex(z.real) if T.is_real_atom(a) else z
        if k == "app":
            return self.app(g[0], g[1], g[2] if len(g) > 2 else ())
        raise Unknown(k)

    def mix(self, name, args, ix=()):
        z = complex(h01(name, "re"), h01(name, "im") - 0.5)
        for i, x in enumerate(args):
            w = 0.5 + h01(name, i, "w")
            if isinstance(x, Poly):
                v = self.poly(x)
                z += (0.3 + h01(name, i)) * cmath.sin(w * v + i) if abs(v.imag) < 50 else w
            elif isinstance(x, Lam):
                for q, v in enumerate(self.lam(x, ix)):
                    z += (0.2 + h01(name, i, q)) * cmath.sin(w * v + q)
            elif isinstance(x, Cond):
                z += w if self.cond(x) else 0
            elif isinstance(x, Atom):
                z += w * self.atom(x)
            elif isinstance(x, (tuple, list)):
                z += self.mix((name, i), list(x))
            else:
                z += h01(name, i, repr(x))
        return z

    def inside(self, sub):
        e = Eval({**{k: v for k, v in self.env.items() if k.kind != "idx"}, **sub}, self.seed, self.alias)
        return e

    def lam(self, x, ix=()):
        """values of an array argument at every index (or at samples of them); ix are the values of its free indices"""
        par = {Atom("idx", len(x.axes) + i): self.poly(v) for i, v in enumerate(ix) if isinstance(v, Poly)}
        lens = []
        for ax in x.axes:
            n = self.poly(ax[0]).real
            lens.append(int(round(n)))
        pts = [()]
        for n in lens:
            pts = [p + (i,) for p in pts for i in (range(n) if n <= 12 else (0, 1, 2, n // 2, n - 1))]
        if len(pts) > 400:
            pts = pts[::len(pts) // 200]
        out = []
        for p in pts:
            e = self.inside({**par, **{Atom("idx", i): v for i, v in enumerate(p)}})
            if any(ax[1] is not None and not e.cond(ax[1]) for ax in x.axes):
                continue
            out.append(e.poly(x.body) if isinstance(x.body, Poly) else complex(e.cond(x.body)))
        return out

    def total(self, x, ix):
        lens = [int(round(self.poly(ax[0]).real)) for ax in x.axes]
        if len(lens) != 1 or lens[0] > 4000 or x.axes[0][1] is not None:
            return sum(self.lam(x, ix))
        s = 0j
        par = {Atom("idx", 1 + i): self.poly(v) for i, v in enumerate(ix)}
        for i in range(lens[0]):
            s += self.inside({**par, Atom("idx", 0): i}).poly(x.body)
        return s

    def column(self, x, par=()):
        """all values of a one-index array argument"""
        n = int(round(self.poly(x.axes[0][0]).real))
        if len(x.axes) != 1 or x.axes[0][1] is not None or n > 600:
            raise Unknown("vector")
        ps = {Atom("idx", 1 + i): self.poly(v) for i, v in enumerate(par)}
        out = []
        for i in range(n):
            e = self.inside({**ps, Atom("idx", 0): i})
            out.append(e.poly(x.body) if isinstance(x.body, Poly) else complex(e.cond(x.body)))
        return out

    def matrix(self, x):
        key = ("matrix", x)
        m = self.memo.get(key)
        if m is None:
            if len(x.axes) != 2 or any(a[1] is not None for a in x.axes):
                raise Unknown("matrix")
            c, r = (int(round(self.poly(a[0]).real)) for a in x.axes)
            if r * c > 4000:
                raise Unknown("large matrix")
            m = []
            for i in range(r):
                row = []
                for j in range(c):
                    e = self.inside({Atom("idx", 0): j, Atom("idx", 1): i})
                    row.append(e.poly(x.body) if isinstance(x.body, Poly) else complex(e.cond(x.body)))
                m.append(row)
            self.memo[key] = m
        return m

    def app(self, n, args, ix):
        if n in ("fft", "ifft", "rfft", "irfft") and isinstance(args[0], Lam) and len(args) <= 2 and ix and all(isinstance(x, Poly) and not any("fftnorm" in repr(d) for d in x.deps) for x in args[1:]):
            key = ("dft", n, args, tuple(self.poly(x) for x in ix[1:]))
            v = self.memo.get(key)
            if v is None:
                v = self.memo[key] = self.dft(n, args, ix)
            i = int(round(self.poly(ix[0]).real))
            if not 0 <= i < len(v):
                raise Unknown("index")
            return v[i]
        if n == "mv" and all(isinstance(x, Lam) for x in args) and len(ix) == 1:
            i = int(round(self.poly(ix[0]).real))
            v = self.column(args[1])
            return sum((a * b for a, b in zip(self.matrix(args[0])[i], v)), 0j)
        if n == "vm" and all(isinstance(x, Lam) for x in args) and len(ix) == 1:
            i = int(round(self.poly(ix[0]).real))
            return sum((row[i] * b for row, b in zip(self.matrix(args[1]), self.column(args[0]))), 0j)
        if n in ("mm", "mpow") and isinstance(args[0], Lam) and len(ix) == 2:
            key = ("word", n, args)
            m = self.memo.get(key)
            if m is None:
                if n == "mpow":
                    m = mat_pow(self.matrix(args[0]), int(round(self.poly(args[1]).real)))
                else:
                    for x in args:
                        q = mat_pow(self.matrix(x), 1 if x.tag is None else int(round(self.poly(P(x.tag)).real)))
                        m = q if m is None else mat_mul(m, q)
                self.memo[key] = m
            j, i = (int(round(self.poly(x).real)) for x in ix)
            return m[i][j]
        if n == "diagpart" and isinstance(args[0], Lam) and len(args[0].axes) == 2:
            i = int(round(self.poly(ix[0]).real))
            return self.matrix(args[0])[i][i]
        if n == "norm" and isinstance(args[0], Lam) and len(args) == 1:
            return complex(math.sqrt(sum(abs(v) ** 2 for v in self.lam(args[0], ix))))
        return self.app0(n, args, ix)

    def dft(self, n, args, ix):
        x = self.column(args[0], ix[1:])
        m = int(round(self.poly(args[1]).real)) if len(args) > 1 else None
        if n == "irfft":
            m = 2 * (len(x) - 1) if m is None else m
            h = m // 2 + 1
            x = (x + [0j] * h)[:h]
            full = [0j] * m
            full[0] = complex(x[0].real)
            for k in range(1, h):
                if m % 2 == 0 and k == m // 2:
                    full[k] = complex(x[k].real)
                else:
                    full[k], full[m - k] = x[k], x[k].conjugate()
            return [complex(sum(full[k] * cmath.exp(2j * math.pi * k * j / m) for k in range(m)).real / m) for j in range(m)]
        m = len(x) if m is None else m
        x = (x + [0j] * m)[:m]
        if n == "rfft":
            x = [complex(v.real) for v in x]
        sg = 2j if n == "ifft" else -2j
        out = [sum(x[j] * cmath.exp(sg * math.pi * k * j / m) for j in range(m)) for k in range(m if n != "rfft" else m // 2 + 1)]
        return [v / m for v in out] if n == "ifft" else out

    def app0(self, n, args, ix):
        if n == "besselzero" and len(ix) == 1:
            if not (isinstance(args[0], Poly) and args[0].const() == 0):
                return self.mix(("app", n), list(args) + list(ix))
            return complex(j0zero(self.poly(ix[0])))
        if n in ("sum", "count", "prod", "mean", "npmax", "any") or any(isinstance(x, Lam) for x in args):
            if n == "sum" and len(args) == 1 and isinstance(args[0], Lam):
                return self.total(args[0], ix)
            return self.mix(("app", n), list(args) + list(ix), ix)
        vs = [self.poly(x) for x in args if isinstance(x, Poly)]
        if len(vs) == len(args) and not ix:
            r = self.known(n, vs)
            if r is not None:
                return complex(r)
        return self.mix(("app", n), list(args) + list(ix))

    def known(self, n, v):
        x = v[0] if v else None
        if n == "abs":
            return abs(x)
        if n == "conj":
            return x.conjugate()
        if n == "real":
            return x.real
        if n == "imag":
            return x.imag
        if n == "floor":
            return math.floor(x.real + 1e-12)
        if n == "roundto" and len(v) == 2:
            return complex(round(x.real, int(v[1].real)), round(x.imag, int(v[1].real)))
        if n == "ceil":
            return math.ceil(x.real - 1e-12)
        if n == "trunc":
            return math.trunc(x.real + math.copysign(1e-12, x.real))
        if n == "sign":
            return 0 if abs(x) < 1e-13 else math.copysign(1, x.real)
        if n == "mod":
            y = v[1].real
            r = x.real - y * math.floor(x.real / y + 1e-12)
            return r
        if n in T.BITS and all(abs(y - round(y.real)) < 1e-9 for y in v):
            return T.BITS[n](round(v[0].real), round(v[1].real))
        if n == "pow":
            return v[0] ** v[1]
        if n == "log" and abs(x) > 0:
            return cmath.log(x)
        if n == "angle":
            return cmath.phase(x)
        return None

    def cond(self, c):
        k = c.kind
        if k == "T":
            return True
        if k == "F":
            return False
        if k == "not":
            return not self.cond(c.args[0])
        if k == "and":
            return all(self.cond(x) for x in c.args[0])
        if k == "or":
            return any(self.cond(x) for x in c.args[0])
        if k == "cmp":
            d = (self.poly(c.args[1]) - self.poly(c.args[2]))
            tol = 1e-11 * (1 + abs(self.poly(c.args[1])))
            if c.args[0] == "eq":
                return abs(d) <= tol
            if abs(d.real) <= tol:
                return c.args[0] == "le"
            return d.real < 0
        if c.args[0] in ("any", "all") and len(c.args[1]) == 1 and isinstance(c.args[1][0], Lam):
            x = c.args[1][0]
            if not any(a.kind == "idx" and (not isinstance(a.args[0], int) or a.args[0] >= len(x.axes)) for a in x.deps) and isinstance(x.body, Cond) and plain(x.body):
                v = self.lam(x)
                return any(v) if c.args[0] == "any" else all(v)
        key = (c.args[0], tuple(repr(x) for x in (c.args[1] if len(c.args) > 1 else ())))
        return h01("cond", key, self.seed) < 0.5


def plain(c):
    """a condition made of comparisons only"""
    return c.kind in ("T", "F", "cmp") or c.kind == "not" and plain(c.args[0]) or c.kind in ("and", "or") and all(plain(x) for x in c.args[0])


def close(x, y, tol=1e-8):
    return abs(x - y) <= tol * (1 + abs(x) + abs(y))


def same(a, b, facts=(), env=None, trials=6):
    """True when two terms agree at every sample point satisfying the facts, False when they differ, None when
    no sample point could be evaluated"""
    done = 0
    for s in range(trials * 5):
        e = Eval(env, s)
        try:
            if not all(e.cond(f) for f in facts):
                continue
            x, y = e.poly(a), e.poly(b)
        except (Unknown, OverflowError, ValueError, ZeroDivisionError):
            continue
        if not close(x, y):
            return False
        done += 1
        if done >= trials:
            break
    return True if done else None


def points(rows, base):
    """environments: every index tuple inside the given extents"""
    out = [()]
    for n in rows:
        out = [p + (i,) for p in out for i in range(n)]
    return [{**base, **{Atom("idx", k): i for k, i in enumerate(p)}} for p in out]


def same_on(a, b, envs, seeds=2, tol=1e-8, alias=None):
    """(True/False/None, environment of a difference): agreement of two terms at every listed point"""
    done = 0
    for e0 in envs:
        for s in range(seeds):
            e = Eval(e0, s, alias)
            try:
                x, y = e.poly(a), e.poly(b)
            except (Unknown, OverflowError, ValueError, ZeroDivisionError):
                continue
            if not close(x, y, tol):
                return False, "%s: %s instead of %s" % (show(e0), fmt(x), fmt(y))
            done += 1
    return (True if done >= len(envs) else None), "at most %d of %d points could be evaluated" % (done, len(envs) * seeds)


def fmt(z):
    return "%.6g" % z.real if abs(z.imag) < 1e-12 * (1 + abs(z)) else "%.6g%+.6gi" % (z.real, z.imag)


def show(e):
    return ", ".join("%s=%s" % (a, v) for a, v in e.items())


def all_conds(x, out=None, seen=None):
    """comparisons anywhere inside a term"""
    out = set() if out is None else out
    seen = set() if seen is None else seen
    if isinstance(x, (tuple, frozenset, list)):
        for y in x:
            all_conds(y, out, seen)
        return out
    if isinstance(x, Lam):
        return all_conds((x.body, x.axes, x.tag), out, seen)
    if isinstance(x, Cond):
        if x not in seen:
            seen.add(x)
            if x.kind == "cmp":
                out.add(x)
            all_conds(x.args, out, seen)
    elif isinstance(x, Atom):
        if x not in seen:
            seen.add(x)
            all_conds(x.args, out, seen)
    elif isinstance(x, Poly):
        for a in x.deps:
            if a not in seen and a.kind in ("ite", "app", "base"):
                all_conds(a, out, seen)
    return out


def thresholds(x, s):
    """integer values of the symbol s next to the boundaries of comparisons that involve no other symbol"""
    out = set()
    for c in all_conds(x):
        d = c.args[1] - c.args[2]
        if d.deps != {s}:
            continue
        try:
            f = lambda v: Eval({s: v}).poly(d).real
            y0, y1, y2 = f(0), f(1), f(2)
        except Exception:
            continue
        roots = []
        if abs(y0 - 2 * y1 + y2) < 1e-9 and abs(y1 - y0) > 1e-12:
            roots.append(-y0 / (y1 - y0))
        for r in roots:
            if abs(r) < 1e5:
                out |= {int(math.floor(r)) + k for k in (-1, 0, 1, 2)}
    return sorted(out)


def corners(rows):
    out = [()]
    for n in rows:
        out = [p + (i,) for p in out for i in sorted({0, 1, n // 2, n - 1}) if 0 <= i < n]
    return out


def compare(R, rule, con, got, want, envs, facts=(), site="", grow=None):
    """one obligation: two terms are the same function.  grow: (symbol, least value, extents as a function of the
    value) adds sample points at both sides of every size the derived term treats specially"""
    if isinstance(got, Cond) or isinstance(want, Cond):
        got, want = (T.ite(x, ONE, ZERO) if isinstance(x, Cond) else x for x in (got, want))
    if got is want:
        return R.ok(rule, con, "identical normal forms", site)
    try:
        if T.equal(got, want, facts):
            return R.ok(rule, con, "equal by cases", site)
    except Exception:
        pass
    if grow:
        s, lo, ext = grow
        for v in thresholds(got, s):
            if v >= lo:
                envs = envs + [{s: v, **{Atom("idx", k): i for k, i in enumerate(q)}} for q in corners(ext(v))]
    r, d = same_on(got, want, envs)
    if r:
        R.notes.append("%s %s: normal forms differ in shape and agree at all %d sample points" % (rule, con, len(envs)))
        return R.ok(rule, con, "agree at %d sample points" % len(envs), site)
    if r is None or T.uncertain(got):
        return R.unk(rule, con, d, site)
    return R.viol(rule, con, "differs from the specification at " + d, site)
