"""Liveness of local variables at loop heads (backward dataflow over the syntax tree of a function)."""
import ast

_CACHE = {}


def uses(*nodes):
    return {n.id for x in nodes if x is not None for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Load, ast.Del))}


def stores(t):
    """names a target binds"""
    if isinstance(t, ast.Name):
        return {t.id}
    if isinstance(t, (ast.Tuple, ast.List)):
        return set().union(*[stores(x) for x in t.elts]) if t.elts else set()
    if isinstance(t, ast.Starred):
        return stores(t.value)
    return set()


class Live:
    def __init__(self, fn):
        self.heads = {}
        body = fn.body if isinstance(fn.body, list) else [ast.Expr(fn.body)]
        self.always = set()
        for x in ast.walk(ast.Module(body, [])):
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.GeneratorExp, ast.ClassDef)):
                self.always |= uses(x)
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                self.always |= set(x.names)
        self.opaque = bool({"locals", "vars", "eval", "exec", "dir", "globals"} & uses(*body))
        if not self.opaque:
            self.block(body, frozenset(), None, None)

    def block(self, stmts, out, brk, cont):
        for s in reversed(stmts):
            out = self.stmt(s, out, brk, cont)
        return out

    def stmt(self, s, out, brk, cont):
        if isinstance(s, ast.Assign):
            k = set()
            for t in s.targets:
                k |= stores(t)
            return (out - k) | uses(s.value, *s.targets)
        if isinstance(s, ast.AnnAssign):
            return ((out - stores(s.target)) if s.value is not None else out) | uses(s.value, s.target)
        if isinstance(s, ast.AugAssign):
            return out | uses(s.value, s.target) | stores(s.target)
        if isinstance(s, (ast.Return, ast.Raise)):
            return frozenset(uses(s))
        if isinstance(s, ast.Break):
            return brk
        if isinstance(s, ast.Continue):
            return cont
        if isinstance(s, ast.If):
            return self.block(s.body, out, brk, cont) | self.block(s.orelse, out, brk, cont) | uses(s.test)
        if isinstance(s, (ast.While, ast.For)):
            after = self.block(s.orelse, out, brk, cont)
            head = after
            bound = stores(s.target) if isinstance(s, ast.For) else set()
            while True:
                b = self.block(s.body, head, out, head)
                n = head | (b - bound) | (uses(s.test) if isinstance(s, ast.While) else uses(s.target))
                if n == head:
                    break
                head = n
            self.heads[s] = head
            return head | uses(s.iter) if isinstance(s, ast.For) else head
        if isinstance(s, ast.With):
            inner = self.block(s.body, out, brk, cont)
            for it in s.items:
                if it.optional_vars is not None:
                    inner = inner - stores(it.optional_vars)
                inner = inner | uses(it.context_expr, it.optional_vars)
            return inner | out
        if isinstance(s, ast.Try):
            # an exception can leave the body anywhere
            fin = self.block(s.finalbody, out | (brk or frozenset()) | (cont or frozenset()), brk, cont)
            hs = frozenset(fin)
            for h in s.handlers:
                hs |= self.block(h.body, fin, brk, cont) | uses(h.type)
            els = self.block(s.orelse, fin, brk, cont)
            return self.nokill(s.body, hs | els, brk, cont)
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return (out - {s.name}) | uses(s)
        if isinstance(s, (ast.Expr, ast.Assert, ast.Delete)):
            return out | uses(s)
        if isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal)):
            return out
        # anything else: everything it mentions stays alive
        return out | uses(s) | (brk or frozenset()) | (cont or frozenset())

    def nokill(self, stmts, out, brk, cont):
        r = self.block(stmts, out, brk, cont)
        return r | out | uses(*stmts)


def dead_at(fn, loop, names):
    """those of the names whose value at the head of the loop is never read"""
    if fn is None or not isinstance(loop, (ast.While, ast.For)):
        return frozenset()
    L = _CACHE.get(fn)
    if L is None:
        L = _CACHE[fn] = Live(fn)
    if L.opaque or loop not in L.heads:
        return frozenset()
    return frozenset(n for n in names if n not in L.heads[loop] and n not in L.always)
