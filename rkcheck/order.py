"""A small polyhedral domain: do known linear facts about monomials entail an ordering?  (Fourier-Motzkin, exact)"""
from fractions import Fraction
from .terms import *
from .terms import P, SYMATTR


def lin(p):
    """Poly -> ({mono: coef}, const)"""
    d = {m: c for m, c in p.t.items() if m != EMPTY}
    return d, p.t.get(EMPTY, F0)


def as_ineqs(c, out):
    """conjunction of facts -> list of (dict, const, strict) meaning dict + const < 0 or <= 0"""
    if c.kind == "and":
        for x in c.args[0]:
            as_ineqs(x, out)
    elif c.kind == "cmp":
        op, a, b = c.args
        d, k = lin(a - b)
        if op in ("lt", "le") and d and integral(d):
            out.append(tightened(d, k, op == "lt"))
        elif op == "lt":
            out.append((d, k, True))
        elif op == "le":
            out.append((d, k, False))
        else:
            out.append((d, k, False))
            out.append(({m: -v for m, v in d.items()}, -k, False))
    elif c.kind == "not" and c.args[0].kind == "cmp" and c.args[0].args[0] != "eq":
        op, a, b = c.args[0].args
        if not (maybe_nan(a) or maybe_nan(b)):
            d, k = lin(b - a)
            out.append(tightened(d, k, op == "le") if d and integral(d) else (d, k, op == "le"))


def integral(d):
    """only products of integers"""
    from .ops import is_int_atom
    return all(ex is None and all(e.denominator == 1 and e > 0 and is_int_atom(a) for a, e in pw) for pw, ex in d)


def tightened(d, k, strict):
    """sum d + k <(=) 0 over integers, with coprime coefficients and the constant rounded"""
    import math
    m = math.lcm(*[v.denominator for v in d.values()])
    g = math.gcd(*[int(v * m) for v in d.values()])
    d = {x: v * m / g for x, v in d.items()}
    k = Fraction(k) * m / g
    top = math.ceil(-k) - 1 if strict else math.floor(-k)
    return d, Fraction(-top), False


def sign_mono(m, facts):
    """'+', '0+' or None for a monomial, from facts/attributes of its atoms"""
    pw, ex = m
    r = "+"
    if ex is not None and not is_real(ex):
        return None
    for a, e in pw:
        if e.denominator == 1 and e % 2 == 0 and is_real_atom(a):
            s = "+" if is_positive_atom(a) or e < 0 else "0+"
        elif is_positive_atom(a):
            s = "+"
        elif a.kind == "app" and a.args[0] in ("norm", "abs", "len", "count"):
            s = "0+"
        elif a.kind == "sym" and SYMATTR.get(a.args[0], {}).get("nonneg"):
            s = "0+"
        else:
            s = None
            one = (((a, F1),), None)
            for d, k, strict in facts:
                if len(d) == 1 and one in d and d[one] < 0 and k >= 0:
                    s = "+" if (strict or k > 0) else "0+"
                    if s == "+":
                        break
        if s is None:
            return None
        if s == "0+":
            if e < 0:
                return None
            r = "0+"
    return r


def infeasible(cons, cap=600):
    cons = list(cons)
    while True:
        for d, k, s in cons:
            if not d and (k > 0 or (k == 0 and s)):
                return True
        cons = [c for c in cons if c[0]]
        if not cons:
            return False
        occ = {}
        for d, k, s in cons:
            for m, v in d.items():
                p = occ.setdefault(m, [0, 0])
                p[v > 0] += 1
        m = min(occ, key=lambda m: occ[m][0] * occ[m][1])
        pos = [c for c in cons if c[0].get(m, 0) > 0]
        neg = [c for c in cons if c[0].get(m, 0) < 0]
        new = [c for c in cons if m not in c[0]]
        seen = set()
        for d1, k1, s1 in pos:
            for d2, k2, s2 in neg:
                a, b = -d2[m], d1[m]
                d = {}
                for x, v in d1.items():
                    d[x] = d.get(x, 0) + a * v
                for x, v in d2.items():
                    d[x] = d.get(x, 0) + b * v
                d = {x: v for x, v in d.items() if v != 0}
                k = a * k1 + b * k2
                key = (frozenset(d.items()), k, s1 or s2)
                if key not in seen:
                    seen.add(key)
                    new.append((d, k, s1 or s2))
        if len(new) > cap:
            return False
        cons = new


def rounding(monos):
    """bounds of floor, ceil and mod of terms in play"""
    out, seen = [], set()
    for pw, ex in monos:
        for a, e in pw:
            if e != 1 or a.kind != "app" or a in seen or len(a.args[1]) == 0 or not isinstance(a.args[1][0], Poly):
                continue
            seen.add(a)
            x, f = a.args[1][0], P(a)
            if a.args[0] == "floor":
                bounds = [(f - x, False), (x - 1 - f, True)]
            elif a.args[0] == "ceil":
                bounds = [(x - f, False), (f - x - 1, True)]
            elif a.args[0] == "mod" and len(a.args[1]) == 2 and a.args[1][1].const() is not None and a.args[1][1].const() > 0:
                bounds = [(-f, False), (f - a.args[1][1], True)]
            else:
                continue
            for q, strict in bounds:
                dd, kk = lin(q)
                out.append((dd, kk, strict))
    return out


def entails(facts, goal):
    """facts: iterable of Conds; goal: a cmp Cond (lt/le/eq) -> True if provable"""
    if goal.kind == "not" and goal.args[0].kind == "cmp":
        g = goal.args[0]
        if g.args[0] == "eq":
            return entails(facts, mk_cmp("lt", g.args[1], g.args[2])) or entails(facts, mk_cmp("lt", g.args[2], g.args[1]))
        return False
    if goal.kind != "cmp":
        return False
    op, a, b = goal.args
    if op == "eq":
        return entails(facts, mk_cmp("le", a, b)) and entails(facts, mk_cmp("le", b, a))
    d, k = lin(a - b)
    ineq = []
    for f in facts:
        as_ineqs(f, ineq)
    ineq += rounding(set().union(*[c[0] for c in ineq], d) if ineq else set(d))
    base = list(ineq)
    # relevant closure over shared monomials
    monos = set(d)
    rel = []
    changed = True
    pool = list(ineq)
    while changed:
        changed = False
        for c in list(pool):
            if set(c[0]) & monos or not c[0]:
                rel.append(c)
                pool.remove(c)
                monos |= set(c[0])
                changed = True
        # products monomial*(linear fact) that stay inside the monomials in play
    extra = []
    for m in list(monos):
        s = sign_mono(m, base)
        if s == "+":
            extra.append(({m: -F1}, F0, True))
        elif s == "0+":
            extra.append(({m: -F1}, F0, False))
    # product facts: x*y monomials bounded through facts on x (c + sum) times nonneg y
    for m in list(monos):
        pw, ex = m
        if len(pw) >= 2 and ex is None:
            for i, (a, e) in enumerate(pw):
                if e != 1:
                    continue
                rest = (tuple(q for j, q in enumerate(pw) if j != i), None)
                sr = sign_mono(rest, base)
                if sr is None:
                    continue
                one = (((a, F1),), None)
                for dd, kk, st in base:
                    if one in dd and len(dd) <= 3:
                        nd, okp = {}, True
                        for mm, v in dd.items():
                            q, sg = mono_mul(mm, rest)
                            nd[q] = nd.get(q, 0) + v * sg
                        if kk:
                            nd[rest] = nd.get(rest, 0) + kk
                        extra.append(({x: v for x, v in nd.items() if v != 0}, F0, st and sr == "+"))
                        for q in nd:
                            s2 = sign_mono(q, base)
                            if s2:
                                extra.append(({q: -F1}, F0, s2 == "+"))
    # negated goal: a-b > 0 (for le) / >= 0 (for lt)
    neg = ({m: -v for m, v in d.items()}, -k, op == "le")
    return infeasible(rel + extra + [neg])


def cases(p, limit=6):
    """split a gated term into (assumptions, ungated term) leaves"""
    ls = sorted(conds_in(p), key=lambda c: c.uid)
    if not ls or limit == 0:
        return [((), p)]
    l = ls[0]
    out = []
    for v in (True, False):
        for tr, q in cases(assume(p, l, v), limit - 1):
            out.append(((l if v else mk_not(l),) + tr, q))
    return out


def prove(facts, goal):
    """entails, by cases on gated terms inside the goal"""
    if goal is TRUE:
        return True
    if goal is FALSE:
        return False
    if goal.kind == "and":
        return all(prove(facts, g) for g in goal.args[0])
    if goal in facts:
        return True
    if goal.kind == "cmp":
        op, a, b = goal.args
        if not (conds_in(a) or conds_in(b)):
            return entails(facts, goal)
        for tr, q in cases(a - b):
            g = mk_cmp(op, q, ZERO)
            if g is TRUE:
                continue
            fs = list(facts) + list(tr)
            if not prove_leaf(fs, g):
                return False
        return True
    if goal.kind == "or":
        return any(prove(facts, g) for g in goal.args[0])
    return entails(facts, goal)


def prove_leaf(fs, g):
    ineq = []
    for f in fs:
        as_ineqs(f, ineq)
    if infeasible(ineq):
        return True
    return g is not FALSE and entails(fs, g)


def saturate(facts):
    """facts, with disjunctions replaced by what is left of them when alternatives the other facts refute are dropped"""
    facts = list(facts)
    changed = True
    while changed:
        changed = False
        for i, c in enumerate(facts):
            if c.kind != "or":
                continue
            rest = facts[:i] + facts[i + 1:]
            keep = [x for x in c.args[0] if x not in [mk_not(r) for r in rest] and not refuted(rest, x)]
            if len(keep) < len(c.args[0]):
                new = mk_or(*keep)
                facts = rest + (list(new.args[0]) if new.kind == "and" else [new])
                changed = True
                break
    return facts


def refuted(facts, c):
    ineq = []
    as_ineqs(c, ineq)
    if not ineq:
        return False
    for f in facts:
        as_ineqs(f, ineq)
    return infeasible(ineq)
