"""Unusable operators are refused at construction, every other one is accepted."""
from ..client import *
from ..kit import MODS, SOLVERS, nl_handler
from ..arrays import LAM
from ..values import Arr

N_ = T.sym("n", int=True, real=True, pos=True)
M_ = T.sym("m", int=True, real=True, pos=True)
K_ = T.sym("k", int=True, real=True, pos=True)


def shapes():
    n, m, k = P(N_), P(M_), P(K_)
    ne = mk_not(mk_cmp("eq", n, m))
    return [
        ("0-d array", (), [], False),
        ("1-d array", (n,), [], True),
        ("1-d array of one entry", (ONE,), [], True),
        ("square matrix", (n, n), [], True),
        ("1x1 matrix", (ONE, ONE), [], True),
        ("n x m matrix, n<m", (n, m), [mk_cmp("lt", n, m)], False),
        ("n x m matrix, n>m", (n, m), [mk_cmp("lt", m, n)], False),
        ("n x 1 matrix, n>1", (n, ONE), [mk_cmp("lt", ONE, n)], False),
        ("1 x n matrix, n>1", (ONE, n), [mk_cmp("lt", ONE, n)], False),
        ("3-d array", (n, n, n), [], False),
        ("3-d array of any shape", (n, m, k), [], False),
        ("4-d array", (n, n, n, n), [], False),
    ]


def accepts_diag(name):
    return name in ("ETD34", "ETD35", "IF34")


def check(R):
    R.rule("refused", "an operator of any other shape raises ValueError in the constructor")
    R.rule("accepted", "every 1-D or square operator, real or complex, constructs (the (4,5) integrating-factor solver: every 1-D operator)")
    R.rule("singular", "with diagonalize=True an operator whose condition number is infinite or above 1e16 raises ValueError, one below 1e15 constructs")
    R.assumptions += ["operators are numpy arrays", "eigendecomposition and inverse succeed on operators of condition number below 1e15"]
    for name in SOLVERS:
        for sname, shape, facts, good in shapes():
            if name == "IF45DP" and len(shape) == 2:
                good = False
            for dt in ("float", "complex"):
                for diag in ((False, True) if accepts_diag(name) and len(shape) <= 2 else (False,)):
                    con = "%s(%s, %s%s)" % (name, sname, dt, ", diagonalize=True" if diag else "")
                    attempt(R, name, shape, facts, dt, diag, Num(P(50)), good, con, "accepted" if good else "refused")
        if accepts_diag(name):
            c = T.sym("condL", real=True)
            for cname, v, f, good in (("infinite", INF, [], False), ("above 1e16", Num(P(c)), [mk_cmp("lt", P(10 ** 16), P(c))], False), ("between 1 and 1e15", Num(P(c)), [mk_cmp("le", ONE, P(c)), mk_cmp("lt", P(c), P(10 ** 15))], True)):
                for dt in ("float", "complex"):
                    con = "%s(matrix with condition number %s, %s, diagonalize=True)" % (name, cname, dt)
                    attempt(R, name, (P(N_), P(N_)), f, dt, True, v, good, con, "singular")
            for dt in ("float", "complex"):
                attempt(R, name, (P(N_), P(N_)), [], dt, False, INF, True, "%s(singular matrix, %s, diagonalize=False)" % (name, dt), "accepted")


def attempt(R, name, shape, facts, dt, diag, cond, good, con, rule):
    C = Client(R)
    I = C.I
    I.problem = "diagonal" if len(shape) == 1 else "diagonalized" if diag else "matrix"
    I.handlers["ghost.nl"] = nl_handler
    used = []
    old = I.handlers.get("numpy.linalg.cond")

    def cond_h(I2, st, args, kw, node):
        v = args[0]
        o = st.heap.get(v.oid) if isinstance(v, Ref) else None
        if isinstance(o, Arr) and o.content is P(LAM):
            used.append(1)
            return cond
        return old(I2, st, args, kw, node)
    I.handlers["numpy.linalg.cond"] = cond_h
    st = C.st.fork(*facts)
    if len(shape) == 2:
        a = Arr(P(LAM), tuple((s, None) for s in shape), dt, "op", owner="user:lin_op")
    else:
        a = Arr(P(Atom("elem", "lam", tuple(P(idx(k)) for k in range(len(shape))))), tuple((s, None) for s in shape), dt, owner="user:lin_op")
    try:
        cls = C.cls(MODS[name], name)
        kw = {"lin_op": I.new(st, a), "nl_func": Ext("ghost.nl")}
        if diag:
            kw["diagonalize"] = Bool(TRUE)
        ok, rs = C.run(st, cls, **kw)
    except Undecided as e:
        R.unk(rule, con, str(e))
        return
    finally:
        R.absorb(I)
    site = rs[0][1] if rs else ""
    if good:
        if rs:
            R.verdict(None if all(T.uncertain(s.path) for _, _, s in rs) else False, rule, con, "raises %s" % rs[0][0][0], site)
        elif ok is None:
            R.unk(rule, con, "no outcome")
        else:
            R.ok(rule, con)
        return
    if ok is not None:
        R.verdict(None if T.uncertain(ok[0].path) or (rule == "singular" and not used) else False, rule, con, "is accepted", "")
        return
    bad = [r for r in rs if "ValueError" not in r[0] or r[0][0] == "LinAlgError"]
    if bad:
        R.viol(rule, con, "raises %s instead of ValueError" % bad[0][0][0], bad[0][1])
    else:
        R.ok(rule, con, "", site)
