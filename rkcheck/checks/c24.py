"""Logging never changes results and never fails."""
import ast, os, re
from ..client import *
from ..client import reach
from ..steps import *
from ..kit import stubbed
from ..report import pmap
from ..order import prove
from ..values import Inst, Arr, ListO, DictO

METHODS = {"debug", "info", "warning", "warn", "error", "critical", "exception", "log"}
LVL = T.sym("loglevel", int=True, real=True)
SPEC_RE = re.compile(r"%(?:\((\w+)\))?([#0\- +]*)(\*|\d+)?(?:\.(\*|\d+))?[hlL]?(.)")
PCT = object()


# ------------------------------------------------------------------------------------------ formats
def directives(fmt):
    """conversion letters of a %-format, or None when it is malformed"""
    out, i = [], 0
    while True:
        i = fmt.find("%", i)
        if i < 0:
            return out
        m = SPEC_RE.match(fmt, i)
        if not m or m.group(5) not in "diouxXeEfFgGcrsa%":
            return None
        if m.group(5) != "%":
            out += ["d"] * ((m.group(3) == "*") + (m.group(4) == "*"))
            out.append((m.group(1), m.group(5)) if m.group(1) else m.group(5))
        i = m.end()


def leaves(v):
    return leaves(v.a) + leaves(v.b) if isinstance(v, IteV) else [v]


def fits(st_heap, letter, v, style):
    """(True/False/None, reason): can the value be formatted with this letter"""
    res = True
    for x in leaves(v):
        if letter in "sra" and style == "%" or letter == "":
            continue
        if isinstance(x, Bool):
            continue
        if isinstance(x, Num):
            if letter in "diouxXc":
                if x.ty in ("int", "bool"):
                    continue
                if style == "f" and letter in "oxXcd":
                    return False, "%r is not an integer" % (x,)
                if letter in "oxXc":
                    return False, "%r is not an integer" % (x,)
                if T.maybe_nan(x.p):
                    return False, "%r may be NaN or infinite" % (x,)
                continue
            if x.ty == "complex" and style == "%":
                return False, "%r is complex" % (x,)
            if letter in "s":
                return False, "number formatted as a string"
            continue
        if isinstance(x, (NoneV, Tup)) or isinstance(x, (Cls, Func, Bound)):
            return False, "%r is not a number" % (x,)
        if isinstance(x, Str):
            if letter == "s":
                continue
            return False, "a string is not a number"
        if isinstance(x, Ref):
            o = st_heap.get(x.oid)
            if isinstance(o, Arr) and o.axes:
                return False, "an array is not a number"
            if isinstance(o, (ListO, DictO)):
                return False, "a container is not a number"
        res = None
    return res, "unknown value"


def check_format(R, rule, con, heap, style, spec, val, site, args=None, kw=None):
    if style == "str":
        return
    if spec is None:
        if args is not None and not args:
            R.ok(rule, con, "no arguments", site)
            return
        R.unk(rule, con, "the format is not a constant", site)
        return
    if style == "%":
        ds = directives(spec)
        if ds is None:
            R.viol(rule, con, "malformed format %r" % spec, site)
            return
        named = [d for d in ds if isinstance(d, tuple)]
        vals = args if args is not None else (list(val.items) if isinstance(val, Tup) else [val])
        if args is not None and not args:
            R.ok(rule, con, "no arguments", site)  # the logging module formats only when there are arguments
            return
        if named:
            R.ok(rule, con, "named directives", site)
            return
        if len(vals) == 1 and isinstance(vals[0], Opaque) and args is None:
            R.unk(rule, con, "unknown arguments", site)
            return
        if len(vals) != len(ds):
            R.viol(rule, con, "%d directives in %r but %d arguments" % (len(ds), spec, len(vals)), site)
            return
        pairs = list(zip(ds, vals))
    elif style == "f":
        m = re.match(r"^(.?[<>=^])?[+\- ]?z?#?0?\d*[_,]?(\.\d+)?([a-zA-Z%]?)$", spec)
        if not m:
            R.ok(rule, con, "unusual format %r" % spec, site)
            return
        pairs = [(m.group(3), val)]
        if m.group(2) is None and not m.group(3) and spec == "":
            R.ok(rule, con, "", site)
            return
        if not m.group(3):
            pairs = [("g" if m.group(2) else "", val)]
    else:
        fields = re.findall(r"(?<!\{)\{([^{}:!]*)(?:![rsa])?(?::([^{}]*))?\}", spec.replace("{{", "").replace("}}", ""))
        vals = list(val.items) if isinstance(val, Tup) else []
        pairs = []
        for k, (nm, sp) in enumerate(fields):
            if nm == "":
                if k >= len(vals):
                    R.viol(rule, con, "%r needs more than the %d arguments given" % (spec, len(vals)), site)
                    return
                v = vals[k]
            elif nm.isdigit():
                if int(nm) >= len(vals):
                    R.viol(rule, con, "%r refers to an argument that is not given" % spec, site)
                    return
                v = vals[int(nm)]
            else:
                continue
            if sp:
                pairs.append((sp[-1] if sp[-1].isalpha() else "", v))
        style = "f"
    for letter, v in pairs:
        ok, why = fits(heap, letter, v, style)
        if ok is not True:
            R.verdict(ok, rule, con, "%s in %r: %s" % (letter, spec, why), site)
            return
    R.ok(rule, con, "", site)


# ------------------------------------------------------------------------------------------ static part
def log_calls(R):
    """(file, span, call) of every logging call, from the syntax trees"""
    out = []
    top = os.path.join(R.root, "rkstiff")
    for d, ds, fs in sorted(os.walk(top)):
        for f in sorted(fs):
            if f.endswith(".py"):
                p = os.path.join(d, f)
                rel = os.path.relpath(p, R.root)
                for n in ast.walk(ast.parse(open(p, encoding="utf-8").read())):
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in METHODS:
                        b = n.func.value
                        nm = b.attr if isinstance(b, ast.Attribute) else b.id if isinstance(b, ast.Name) else ""
                        if "log" in nm.lower():
                            out.append((rel, (n.lineno, n.end_lineno), n))
    return out


def static_formats(R, calls):
    for rel, span, n in calls:
        a = n.args[1:] if n.func.attr == "log" else n.args
        if not a or not isinstance(a[0], ast.Constant) or not isinstance(a[0].value, str) or any(isinstance(x, ast.Starred) for x in a):
            continue
        con = "%s:%d" % (rel, span[0])
        ds = directives(a[0].value)
        k = len(a) - 1
        if k == 0:
            R.ok("log-format", con + " (arguments)")
        elif ds is None:
            R.viol("log-format", con + " (arguments)", "malformed format %r" % a[0].value, con)
        elif not any(isinstance(d, tuple) for d in ds) and len(ds) != k:
            R.viol("log-format", con + " (arguments)", "%d directives in %r but %d arguments" % (len(ds), a[0].value, k), con)
        else:
            R.ok("log-format", con + " (arguments)")


# ------------------------------------------------------------------------------------------ interpreted part
class Watch:
    """collects what the logging calls of a run receive"""

    def __init__(self, R, I, con, spans):
        self.R, self.I, self.con, self.spans = R, I, con, spans
        I.log_hook = self.hook
        self.n0 = len(I.events)

    def hook(self, I, st, name, args, kw, node):
        if not I.record:
            return
        a = list(args[1:])
        if name == "log":
            a = a[1:]
        msg = a[0] if a else Str("")
        site = I.site(node)
        check_format(self.R, "log-format", "%s: %s" % (self.con, site), st.heap, "%", msg.s if isinstance(msg, Str) and msg.known else None, None, site, args=a[1:])

    def inlog(self, site):
        f, _, l = site.rpartition(":")
        return l.isdigit() and any(f == r and s[0] <= int(l) <= s[1] for r, s, _ in self.spans)

    def done(self, heap):
        R = self.R
        for e in self.I.events[self.n0:]:
            if e["kind"] == "format" and not self.inlog(e["site"]) or e["kind"] == "format" and self.inlog(e["site"]):
                if e["style"] in ("%", "f", "format"):
                    check_format(R, "message-format", "%s: %s" % (self.con, e["site"]), heap, e["style"], e["spec"], e["val"], e["site"])
            elif e["kind"] == "div" and self.inlog(e["site"]):
                den = e["den"]
                if not isinstance(den, Num) or not isinstance(e["num"], Num) or den.ty not in ("int", "float"):
                    continue
                con = "%s: %s" % (self.con, e["site"])
                s = State({}, e["path"])
                zero = mk_cmp("eq", den.p, ZERO)
                d = self.I.decide(s, zero)
                facts = list(e["path"])
                if d is not False and (prove(facts, mk_cmp("lt", ZERO, den.p)) or prove(facts, mk_cmp("lt", den.p, ZERO))):
                    d = False
                if d is False:
                    R.ok("log-arguments", con, "divides by %r" % (den.p,), e["site"])
                else:
                    R.viol("log-arguments", con, "a logging argument divides by %r, which is not shown to be other than zero" % (den.p,), e["site"])


def mentions(v, seen=None):
    """does a value depend on the log level"""
    def dep(x):
        return LVL in T.deps(x)
    if isinstance(v, Num):
        return dep(v.p) and v.p is not P(LVL)
    if isinstance(v, Bool):
        return dep(v.c)
    if isinstance(v, IteV):
        return dep(v.c) or mentions(v.a) or mentions(v.b)
    if isinstance(v, Tup):
        return any(mentions(x) for x in v.items)
    return False


def dependent(st, roots):
    for o, path in reach(st, roots).items():
        h = st.heap[o]
        if isinstance(h, Arr) and LVL in T.deps(h.content):
            return path
        vals = list(h.f.items()) if isinstance(h, Inst) else list(enumerate(h.items)) if isinstance(h, ListO) else list(h.d.items()) if isinstance(h, DictO) else []
        for k, x in vals:
            if hasattr(x, "c") and hasattr(x, "v") and LVL in T.deps(x.c):
                return "%s.%s" % (path, k)
            if isinstance(x, V) and mentions(x):
                return "%s.%s" % (path, k)
    for n, v in roots:
        if mentions(v):
            return n
    return None


def outcome(R, I, con, ok, rs, o, name, inlog=None):
    p = None
    for s, v in ok:
        p = dependent(s, [(name, o), ("the result", v)])
        if p:
            R.viol("level-independent", con, "%s depends on the log level" % p)
            return
    for s, e, w in rs:
        if inlog and inlog(w) and not T.uncertain(s.path):
            R.viol("log-arguments", con, "%s is raised by the arguments of a logging call" % excname(I.exc_names(I.exc_class(s, e))), w)
            return
        if any(LVL in T.deps(c) for c in s.path):
            R.viol("level-independent", con, "%s is raised depending on the log level" % excname(I.exc_names(I.exc_class(s, e))), w)
            return
    R.ok("level-independent", con)


def run_form(R, name, rep, spans):
    con = "%s[%s]" % (name, rep)
    p = Problem(R, name, rep, collapse=True)
    I = p.I
    st = p.st
    I.strict_math = True
    w = Watch(R, I, con, spans)
    ok, rs = I.run(st, p.cls, [], {"lin_op": p.lin_op(st), "nl_func": Ext("ghost.nl"), "loglevel": Num(P(LVL), "int"), **({"diagonalize": Bool(TRUE)} if rep == "diagonalized" else {})})
    if not ok:
        raise Undecided("cannot construct")
    st, o = ok[0]
    outcome(R, I, con + " constructor", ok, rs, o, name, w.inlog)
    u = p.vec(st)
    num_ = lambda n, **k: Num(P(T.sym(n, real=True, **k)), "int" if k.get("int") else "float")
    ok, rs = p.call(st, o, "_update_stages", u, Num(P(H)))
    outcome(R, I, con + " stages", ok, rs, o, name, w.inlog)
    ok, rs = p.call(st, o, "reset")
    outcome(R, I, con + " reset", ok, rs, o, name, w.inlog)
    t0, tf = num_("t0"), num_("tf")
    if name in ADAPTIVE:
        with stubbed(I, p.cls):
            ok, rs = p.call(st, o, "step", u, Num(P(H)))
            outcome(R, I, con + " step", ok, rs, o, name, w.inlog)
            ok, rs = p.call(st, o, "evolve", u, t0, tf)
            outcome(R, I, con + " evolve", ok, rs, o, name, w.inlog)
            ok, rs = p.call(st, o, "evolve", u, t0, tf, h_init=Num(P(H)), store_freq=Num(P(T.sym("freq", int=True, real=True, pos=True)), "int"))
            outcome(R, I, con + " evolve with a first step", ok, rs, o, name, w.inlog)
    else:
        ok, rs = p.call(st, o, "step", u, Num(P(H)))
        outcome(R, I, con + " step", ok, rs, o, name, w.inlog)
        ok, rs = p.call(st, o, "evolve", u, t0, tf, Num(P(H)))
        outcome(R, I, con + " evolve", ok, rs, o, name, w.inlog)
        ok, rs = p.call(st, o, "evolve", u, t0, tf, Num(P(H)), store_freq=Num(P(T.sym("freq", int=True, real=True, pos=True)), "int"))
        outcome(R, I, con + " evolve, sparse records", ok, rs, o, name, w.inlog)
    w.done(st.heap)
    R.absorb(I)


NAMES = {"DEBUG": 10, "INFO": 20, "WARNING": 30, "ERROR": 40, "CRITICAL": 50, "debug": 10, "Info": 20}
BAD = ["VERBOSE", "", "TRACE", "BASIC_FORMAT", "_STYLES", "warnings", "10"]


def levels(R, name, spans):
    rep = "diagonal"
    p = Problem(R, name, rep)
    I = p.I
    w = Watch(R, I, name + " set_loglevel", spans)
    st, o = p.make(p.st, loglevel=Num(P(LVL), "int"))
    lg = st.heap[o.oid].f.get("logger")
    if not isinstance(lg, Ref):
        R.unk("unknown-level", name, "no logger attribute")
        return

    def level(s):
        return s.heap[lg.oid].f.get("level")
    if level(st) != Num(P(LVL), "int"):
        R.verdict(None if isinstance(level(st), (Opaque, IteV)) else False, "levels", name + " constructor", "an integer level gives the logger %r" % (level(st),))
    else:
        R.ok("levels", name + " constructor")
    routes = [("set_loglevel", lambda s, v: p.call(s, o, "set_loglevel", v)),
              ("constructor", lambda s, v: I.run(s, p.cls, [], {"lin_op": p.lin_ref, "nl_func": Ext("ghost.nl"), "loglevel": v}))]
    for rn, run in routes:
        for nm, val in NAMES.items():
            con = "%s %s(%r)" % (name, rn, nm)
            ok, rs = run(st.fork(), Str(nm))
            if rs and not ok:
                R.viol("levels", con, "refused", rs[0][2])
            elif ok:
                lv = level(ok[0][0])
                R.verdict(True if lv == num(val) else None if isinstance(lv, (Opaque, IteV)) else False, "levels", con, "the level becomes %r" % (lv,))
        for bad in BAD + [Str(("some text", "user"))]:
            v = bad if isinstance(bad, Str) else Str(bad)
            con = "%s %s(%s)" % (name, rn, repr(bad) if not isinstance(bad, Str) else "any text that is no level name")
            ok, rs = run(st.fork(), v)
            if ok and not isinstance(bad, Str):
                R.viol("unknown-level", con, "accepted, the level becomes %r" % (level(ok[0][0]),))
                continue
            if not rs:
                R.unk("unknown-level", con, "no refusal found")
                continue
            for s, e, wh in rs:
                nms = I.exc_names(I.exc_class(s, e))
                if "ValueError" not in nms:
                    R.viol("unknown-level", con, "raises %s" % excname(nms), wh)
                elif level(s) != level(st):
                    R.viol("unknown-level", con, "the level is %r after the refusal, was %r" % (level(s), level(st)), wh)
                else:
                    R.ok("unknown-level", con, "", wh)
    # an integer level through set_loglevel
    l2 = Num(P(T.sym("level2", int=True, real=True)), "int")
    ok, rs = p.call(st, o, "set_loglevel", l2)
    con = name + " set_loglevel(any integer)"
    if not ok or rs:
        R.viol("levels", con, "raises %s" % excname(I.exc_names(I.exc_class(rs[0][0], rs[0][1]))), rs[0][2])
    else:
        R.verdict(level(ok[0][0]) == l2, "levels", con, "the level becomes %r" % (level(ok[0][0]),))
    w.done(st.heap)
    R.absorb(I)


LEVELSEQ = [
    ("the default level", [None, None, None]),
    ("level 0", [Num(P(0), "int")] * 3),
    ("level NOTSET", [Str("NOTSET"), Str("notset"), Str("NOTSET")]),
    ("levels INFO, 0, 5", [Str("INFO"), Num(P(0), "int"), Num(P(5), "int")]),
    ("levels CRITICAL, DEBUG and an unknown one", [Str("CRITICAL"), Str("debug"), Str("no such level"), None]),
]


def handlers(R, seq, levels, later=False):
    """handlers after one, two and three instances of every class; later: the level of each is set to the value afterwards"""
    I = Interp(R.root)
    I.problem = "diagonal"
    I.handlers["ghost.nl"] = nl_handler
    I.load("rkstiff")
    clss = [(n, I.glob(MODS[n], n)) for n in SOLVERS]
    st = I.st0.fork()
    lin = I.new(st, Arr(LAMV, ((NLEN, None),), "any", owner="user:lin_op"))
    prev = None
    seq += " by set_loglevel" if later else " at construction"
    for rnd, lv in enumerate(levels):
        for n, c in clss:
            kw = {} if lv is None or later else {"loglevel": lv}
            k, rs = I.run(st, c, [], {"lin_op": lin, "nl_func": Ext("ghost.nl"), **kw})
            if not k and not rs:
                return R.unk("handlers", n, "no outcome")
            st = k[0][0] if k else rs[0][0]
            if k and later and lv is not None:
                f = I.getattr(st, k[0][1], "set_loglevel", None)
                k2, rs2 = I.run(st, f, [lv])
                st = (k2 or rs2)[0][0]
        now = {}
        for nm, (lg, hs) in I._loggers.items():
            o = st.heap.get(hs.oid)
            now[nm] = o
            con = "logger %s after %d instances of every class with %s" % (nm, rnd + 1, seq)
            if o is None:
                continue
            if any(not isinstance(x, Ref) for x in o.items) or o.prefix is not None:
                R.unk("handlers", con, "%r" % (o,))
            elif len(o.items) > 1:
                evs = [e["site"] for e in I.events if e["kind"] == "addHandler" and e["obj"] == lg]
                R.viol("handlers", con, "%d handlers" % len(o.items), evs[-1] if evs else "")
                return
            else:
                R.ok("handlers", con)
        if prev is not None and rnd == len(levels) - 1:
            same = all(prev.get(k) is v or prev.get(k) == v for k, v in now.items())
            R.verdict(True if same else None, "handlers-fixpoint", "after %d instances of every class with %s" % (rnd + 1, seq), "the handler lists keep changing")
        prev = now
    R.absorb(I)


def check(R):
    R.rule("log-format", "every logging call's arguments fit its format string")
    R.rule("message-format", "every formatted text is built from values its format accepts, NaN and infinity included")
    R.rule("log-arguments", "no argument of a logging call divides by a number that can be zero there")
    R.rule("level-independent", "with an arbitrary log level no result, state, record or exception depends on it")
    R.rule("handlers", "a logger never gets more than one handler")
    R.rule("handlers-fixpoint", "creating more solvers leaves the handlers of every logger as they are")
    R.rule("levels", "every documented level name, in any case, and every integer is set as the level")
    R.rule("unknown-level", "an unknown level name raises ValueError and the level stays")
    R.assumptions += ["the logging module behaves as documented; handlers installed by the application are its own"]
    calls = log_calls(R)
    static_formats(R, calls)
    todo = [("form", n, r) for n, r in forms(R)] + [("levels", n) for n in SOLVERS] + [("handlers", q, l) for q in range(len(LEVELSEQ)) for l in (False, True) if q or not l]

    def one(R, it):
        try:
            if it[0] == "form":
                run_form(R, it[1], it[2], calls)
            elif it[0] == "levels":
                levels(R, it[1], calls)
            else:
                handlers(R, *LEVELSEQ[it[1]], later=it[2])
        except Undecided as e:
            R.unk("level-independent", " ".join(map(str, it)), str(e))
    pmap(R, one, todo)
