"""The logging module."""
from __future__ import annotations
from .terms import *
from .terms import P
from . import terms as T
from .values import *
from . import npmodel as N

LEVELS = {"DEBUG": 10, "INFO": 20, "WARNING": 30, "WARN": 30, "ERROR": 40, "CRITICAL": 50, "FATAL": 50, "NOTSET": 0}


def registry(I, st):
    r = getattr(I, "_loggers", None)
    if r is None:
        I._loggers = {}
        r = I._loggers
    return r


def getlogger_h(I, st, args, kw, node):
    nm = args[0] if args else kw.get("name", NONE)
    I.ev(st, "getLogger", node, name=nm)
    reg = registry(I, st)
    k = nm.s if isinstance(nm, Str) else "root" if isinstance(nm, NoneV) else ("?", repr(nm))
    if k not in reg:
        hs = I.new(st, ListO(()))
        lg = I.new(st, Inst(Ext("logging.Logger"), {"name": nm, "level": num(0), "handlers": hs, "propagate": Bool(TRUE), "disabled": Bool(FALSE)}))
        I.st0.heap.setdefault(hs.oid, st.heap[hs.oid])
        I.st0.heap.setdefault(lg.oid, st.heap[lg.oid])
        reg[k] = (lg, hs)
    lg, hs = reg[k]
    st.heap.setdefault(hs.oid, ListO(()))
    st.heap.setdefault(lg.oid, Inst(Ext("logging.Logger"), {"name": nm, "level": num(0), "handlers": hs, "propagate": Bool(TRUE), "disabled": Bool(FALSE)}))
    return lg


def child_h(I, st, args, kw, node):
    b = st.heap[args[0].oid].f["name"]
    if isinstance(b, Str) and b.known and args[1].known:
        return getlogger_h(I, st, [Str(b.s + "." + args[1].s)], {}, node)
    return getlogger_h(I, st, [Str(("child", repr(b), repr(args[1])))], {}, node)


def setlevel_h(I, st, args, kw, node):
    o = st.heap[args[0].oid]
    v = args[1] if len(args) > 1 else kw.get("level")
    v = I.pick(st, v)
    if isinstance(v, Str) and v.known:
        if v.s not in LEVELS:
            I.exc(st, "ValueError", None, node)
        v = num(LEVELS[v.s])
    st.heap[args[0].oid] = Inst(o.cls, {**o.f, "level": v})
    I.ev(st, "setLevel", node, obj=args[0], level=v)
    return NONE


def add_h(I, st, args, kw, node):
    o = st.heap[args[0].oid]
    h = o.f["handlers"]
    lo = st.heap[h.oid]
    if args[1] not in lo.items:
        st.heap[h.oid] = replace(lo, items=lo.items + (args[1],))
    I.ev(st, "addHandler", node, obj=args[0], handler=args[1])
    return NONE


def handler_h(kind):
    def h(I, st, args, kw, node):
        return I.new(st, Inst(Ext("logging.Handler"), {"kind": Str(kind), "formatter": NONE, "level": num(0)}))
    return h


def log_h(name):
    def h(I, st, args, kw, node):
        I.ev(st, "log", node, level=name, args=tuple(args[1:]), kw=tuple(kw))
        hk = getattr(I, "log_hook", None)
        if hk is not None:
            hk(I, st, name, args, kw, node)
        return NONE
    return h


def enabled_h(I, st, args, kw, node):
    return Bool(T.Cond("app", "log-enabled", (P(T.sym("loglevel", int=True, real=True)), args[1].p if len(args) > 1 and isinstance(args[1], Num) else ZERO)))


def has_h(I, st, args, kw, node):
    """a logger has handlers when it or, while it propagates, one of its ancestors has any"""
    o = st.heap[args[0].oid]
    reg = registry(I, st)
    nm = o.f["name"]
    while True:
        lo = st.heap[o.f["handlers"].oid]
        if lo.items:
            return Bool(TRUE)
        if o.f["propagate"] != Bool(TRUE) or not (isinstance(nm, Str) and nm.known):
            return Bool(T.Cond("app", "has-handlers", (P(T.fresh("v")),)))
        while "." in nm.s:
            nm = Str(nm.s.rsplit(".", 1)[0])
            if nm.s in reg and reg[nm.s][0].oid in st.heap:
                o = st.heap[reg[nm.s][0].oid]
                break
        else:
            # the root logger belongs to the application
            return Bool(T.Cond("app", "root-handlers", ()))


def name_h(I, st, args, kw, node):
    v = args[0]
    if isinstance(v, Num) and v.p.const() is not None:
        import logging
        return Str(logging.getLevelName(int(v.p.const())))
    if isinstance(v, Str) and v.known:
        import logging
        r = logging.getLevelName(v.s)
        return num(r) if isinstance(r, int) else Str(r)
    return I.opaque_value("level name")


def install(I):
    R = lambda names, h: N.reg(I, names, h, lift=False)
    R("logging.getLogger", getlogger_h)
    R("logger.getChild", child_h)
    R("logger.setLevel", setlevel_h)
    R("logger.addHandler", add_h)
    for k in ("StreamHandler", "NullHandler", "FileHandler"):
        R("logging." + k, handler_h(k))
    R("logging.Formatter", lambda I, st, a, k, n: Opaque("formatter"))
    R("handler.setFormatter handler.setLevel logger.removeHandler logger.addFilter logging.basicConfig", lambda I, st, a, k, n: NONE)
    for n in ("debug", "info", "warning", "error", "critical", "exception", "log"):
        R("logger." + n, log_h(n))
        R("logging." + n, log_h(n))
    R("logger.isEnabledFor", enabled_h)
    R("logger.hasHandlers", has_h)
    R("logger.getEffectiveLevel", lambda I, st, a, k, n: st.heap[a[0].oid].f["level"])
    R("logging.getLevelName", name_h)
    for k, v in LEVELS.items():
        I.exts["logging." + k] = num(v)
