"""The package runs as declared: grammar, imports, packages."""
import ast, io, os, re, sys, tokenize, tomllib

# names of the standard library that are younger than 3.9: (3, minor) they appeared in
NEW = {
    "builtins.aiter": 10, "builtins.anext": 10, "builtins.EncodingWarning": 10, "builtins.ExceptionGroup": 11, "builtins.BaseExceptionGroup": 11, "builtins.PythonFinalizationError": 13,
    "itertools.pairwise": 10, "itertools.batched": 12, "math.cbrt": 11, "math.exp2": 11, "math.sumprod": 12, "math.fma": 13,
    "typing.TypeAlias": 10, "typing.ParamSpec": 10, "typing.Concatenate": 10, "typing.TypeGuard": 10, "typing.ParamSpecArgs": 10, "typing.ParamSpecKwargs": 10, "typing.is_typeddict": 10,
    "typing.Self": 11, "typing.Never": 11, "typing.LiteralString": 11, "typing.TypeVarTuple": 11, "typing.Unpack": 11, "typing.Required": 11, "typing.NotRequired": 11, "typing.assert_never": 11,
    "typing.assert_type": 11, "typing.reveal_type": 11, "typing.dataclass_transform": 11, "typing.clear_overloads": 11, "typing.get_overloads": 11, "typing.override": 12, "typing.TypeAliasType": 12,
    "typing.TypeIs": 13, "typing.ReadOnly": 13, "typing.NoDefault": 13,
    "types.NoneType": 10, "types.EllipsisType": 10, "types.NotImplementedType": 10, "types.UnionType": 10, "types.get_original_bases": 12,
    "enum.StrEnum": 11, "enum.verify": 11, "enum.member": 11, "enum.nonmember": 11, "enum.global_enum": 11, "enum.FlagBoundary": 11, "enum.EnumCheck": 11, "enum.ReprEnum": 11, "enum.property": 11, "enum.EnumType": 11,
    "dataclasses.KW_ONLY": 10, "contextlib.aclosing": 10, "contextlib.chdir": 11, "datetime.UTC": 11, "operator.call": 11, "operator.is_none": 14, "inspect.get_annotations": 10,
    "logging.getLevelNamesMapping": 11, "logging.getHandlerByName": 12, "logging.getHandlerNames": 12, "statistics.correlation": 10, "statistics.covariance": 10, "statistics.linear_regression": 10,
    "statistics.kde": 13, "sys.exception": 11, "sys.stdlib_module_names": 10, "sys.orig_argv": 10, "warnings.deprecated": 13, "copy.replace": 13, "random.binomialvariate": 12, "functools.Placeholder": 14,
    "asyncio.TaskGroup": 11, "asyncio.timeout": 11, "asyncio.Runner": 11, "time.clock": 99, "string.templatelib": 14, "abc.update_abstractmethods": 10, "os.EFD_CLOEXEC": 10,
    "collections.abc.Buffer": 12, "threading.excepthook": 8, "threading.gettrace": 10, "threading.getprofile": 10, "array.fromunicode": 99, "traceback.print_last_exc": 99, "bisect.bisect_key": 99,
}
NEW = {k: v for k, v in NEW.items() if v != 99}
NEWMOD = {"tomllib": 11, "asyncio.taskgroups": 11, "asyncio.timeouts": 11, "annotationlib": 14, "compression": 14, "concurrent.interpreters": 14, "wsgiref.types": 11, "re._parser": 11}
NEWKW = {("zip", "strict"): 10, ("dataclass", "slots"): 10, ("dataclass", "kw_only"): 10, ("dataclass", "match_args"): 10, ("dataclass", "weakref_slot"): 11, ("field", "kw_only"): 10,
         ("bisect_left", "key"): 10, ("bisect_right", "key"): 10, ("insort", "key"): 10, ("map", "strict"): 14, ("NamedTemporaryFile", "delete_on_close"): 12}
NEWMETH = {"bit_count": 10, "add_note": 11, "is_integer": 0}

# names of the dependencies: the release they appeared in, and those that are gone from a release on
DEPNEW = {"numpy": {
    (1, 22): "", (1, 23): "from_dlpack", (1, 25): "exceptions dtypes",
    (2, 0): "acos acosh asin asinh atan atan2 atanh bitwise_invert bitwise_left_shift bitwise_right_shift concat isdtype permute_dims pow matrix_transpose astype vecdot bitwise_count trapezoid "
            "unique_all unique_counts unique_inverse unique_values strings long ulong bool linalg.cross linalg.diagonal linalg.matmul linalg.matrix_norm linalg.matrix_transpose linalg.outer linalg.svdvals "
            "linalg.tensordot linalg.trace linalg.vecdot linalg.vector_norm lib.array_utils lib.introspect",
    (2, 1): "unstack cumulative_sum cumulative_prod", (2, 2): "matvec vecmat",
}, "scipy": {
    (1, 8): "special.log_expit linalg.bandwidth linalg.issymmetric linalg.ishermitian sparse.csr_array sparse.csc_array sparse.coo_array sparse.dia_array", (1, 10): "special.powm1 interpolate.make_smoothing_spline",
    (1, 12): "fft.prev_fast_len", (1, 15): "special.softplus special.sph_harm_y differentiate optimize.elementwise integrate.tanhsinh integrate.nsum integrate.cubature special.logsumexp_ special.legendre_p special.sph_legendre_p",
}}
DEPGONE = {"numpy": {
    (1, 24): "int float complex object str typeDict",
    (2, 0): "float_ complex_ Inf Infinity NaN PINF NINF PZERO NZERO infty mat_ product cumproduct alltrue sometrue round_ cast source lookfor who issubsctype asfarray string_ unicode_ longfloat longcomplex singlecomplex cfloat "
            "clongfloat clongdouble_ msort safe_eval asscalar find_common_type obj2sctype sctype2char issctype maximum_sctype nbytes deprecate byte_bounds compat add_newdoc_ufunc geterrobj seterrobj recfromcsv recfromtxt",
}, "scipy": {(1, 14): "integrate.simps integrate.trapz integrate.cumtrapz misc", (1, 12): "linalg.pinv2 linalg.pinvh_ misc.derivative"}}
DEPMETH = {"mT": ("numpy", (2, 0)), "to_device": ("numpy", (2, 0))}
DEPKW = {("numpy.reshape", "copy"): (2, 1), ("numpy.reshape", "shape"): (2, 1), ("numpy.asarray", "copy"): (2, 0), ("numpy.vstack", "dtype"): (1, 24), ("numpy.hstack", "dtype"): (1, 24), ("numpy.stack", "dtype"): (1, 24),
         ("numpy.unique", "equal_nan"): (1, 24), ("numpy.unique", "sorted"): (2, 3), ("numpy.quantile", "method"): (1, 22), ("numpy.percentile", "method"): (1, 22), ("numpy.var", "mean"): (2, 0), ("numpy.std", "mean"): (2, 0),
         ("numpy.fft.fft", "out"): (2, 0), ("numpy.fft.ifft", "out"): (2, 0), ("numpy.fft.rfft", "out"): (2, 0), ("numpy.fft.irfft", "out"): (2, 0), ("numpy.linalg.pinv", "rtol"): (2, 0), ("numpy.linalg.matrix_rank", "rtol"): (2, 0)}


def check(R):
    R.rule("grammar", "every module parses under the grammar of the oldest declared Python")
    R.rule("runtime-types", "no annotation or expression that is evaluated at run time uses type syntax younger than the oldest declared Python")
    R.rule("stdlib-names", "no name, module or argument of the standard library younger than the oldest declared Python is used")
    R.rule("dependency-names", "no name or argument of a dependency is used that its oldest declared release lacks or that a release in the declared range has dropped")
    R.rule("imports", "every import is of the standard library, a declared dependency or the package itself")
    R.rule("internal", "every import from the package names an existing module, and a name that module defines")
    R.rule("packages", "every package directory the package imports from is part of the declared distribution")
    R.assumptions += ["the table of younger standard library names lists those a numerical library would plausibly use; __version__ is generated at build time as declared"]
    with open(os.path.join(R.root, "pyproject.toml"), "rb") as fh:
        toml = tomllib.load(fh)
    proj = toml["project"]
    m = re.search(r">=\s*3\.(\d+)", proj.get("requires-python", ""))
    minor = int(m.group(1)) if m else 9
    R.notes.append("oldest declared Python: 3.%d" % minor)
    deps = {re.match(r"[A-Za-z0-9_.\-]+", d).group(0).lower().replace("-", "_") for d in proj.get("dependencies", [])}
    lower, upper = {}, {}
    for d in proj.get("dependencies", []):
        nm = re.match(r"[A-Za-z0-9_.\-]+", d).group(0).lower().replace("-", "_")
        for op, tgt in ((r"(?:>=|==|~=)", lower), (r"(?:<=|<|==)", upper)):
            v = re.search(op + r"\s*(\d+)(?:\.(\d+))?", d)
            if v:
                tgt[nm] = (int(v.group(1)), int(v.group(2) or 0))
    R.notes.append("oldest declared dependencies: %s" % ", ".join("%s %d.%d" % ((k,) + v) for k, v in sorted(lower.items())))
    gen = toml.get("tool", {}).get("setuptools_scm", {}).get("write_to")
    pk = toml.get("tool", {}).get("setuptools", {}).get("packages")
    top = os.path.join(R.root, "rkstiff")
    files = []
    for d, ds, fs in os.walk(top):
        ds[:] = sorted(x for x in ds if x != "__pycache__")
        files += [os.path.join(d, f) for f in sorted(fs) if f.endswith(".py")]
    mods = {}
    for f in files:
        rel = os.path.relpath(f, R.root)
        name = rel[:-3].replace(os.sep, ".")
        if name.endswith(".__init__"):
            name = name[:-9]
        mods[name] = (f, rel)
    used_pkgs = {}
    defs = {}
    trees = {}
    for name, (f, rel) in mods.items():
        src = open(f, encoding="utf-8").read()
        R.analysed["files"].add(rel)
        try:
            tree = ast.parse(src, rel, feature_version=(3, minor))
        except SyntaxError as e:
            R.viol("grammar", rel, "%s" % e.msg, "%s:%s" % (rel, e.lineno))
            try:
                tree = ast.parse(src, rel)
            except SyntaxError:
                continue
        else:
            bad = fstrings(src) if minor < 12 else None
            if bad:
                R.viol("grammar", rel, bad[1], "%s:%d" % (rel, bad[0]))
            else:
                R.ok("grammar", rel)
        trees[name] = tree
        defs[name] = bound(tree)
    for name, tree in trees.items():
        f, rel = mods[name]
        unions(R, rel, tree, minor)
        names(R, rel, tree, minor)
        depnames(R, rel, tree, lower, upper)
        imports(R, name, rel, f, tree, deps, mods, defs, gen, used_pkgs)
    # distribution
    if isinstance(pk, list):
        listed = lambda p: p in pk
    elif isinstance(pk, dict) and "find" in pk:
        from fnmatch import fnmatch
        fd = pk["find"]
        inc, exc = fd.get("include", ["*"]), fd.get("exclude", [])
        listed = lambda p: any(fnmatch(p, x) for x in inc) and not any(fnmatch(p, x) for x in exc)
    else:
        listed = lambda p: True
    for p in sorted(used_pkgs):
        if listed(p):
            R.ok("packages", "pyproject.toml:" + p, "", used_pkgs[p])
        else:
            R.viol("packages", "pyproject.toml:" + p, "%s imports from the package %s, which the declared distribution leaves out" % (used_pkgs[p], p), used_pkgs[p])


def fstrings(src):
    """f-strings that only the 3.12 tokenizer accepts: (line, text) of the first"""
    try:
        toks = list(tokenize.generate_tokens(io.StringIO(src).readline))
    except (tokenize.TokenError, SyntaxError, IndentationError):
        return None
    FS, FE = getattr(tokenize, "FSTRING_START", None), getattr(tokenize, "FSTRING_END", None)
    if FS is None:
        return None
    stack = []
    for t in toks:
        if t.type == FS:
            q = t.string.lstrip("rRfFbBuU")
            if stack and (q[0] == stack[-1][0][0] and (len(q) == len(stack[-1][0]) or len(stack[-1][0]) == 1)):
                return t.start[0], "an f-string reuses its own quotes inside an expression"
            stack.append((q, t.start[0]))
        elif t.type == FE:
            stack.pop()
        elif stack:
            q = stack[-1][0]
            if t.type == tokenize.STRING:
                s = t.string.lstrip("rRfFbBuU")
                if s[0] == q[0] and len(q) == 1 or s.startswith(q):
                    return t.start[0], "an f-string reuses its own quotes inside an expression"
                if "\\" in t.string:
                    return t.start[0], "a backslash inside the expression part of an f-string"
            elif t.type == tokenize.COMMENT:
                return t.start[0], "a comment inside the expression part of an f-string"
            elif t.type == tokenize.NL and len(q) == 1:
                return t.start[0], "a line break inside the expression part of an f-string"
    return None


def bound(tree):
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            out.add(n.name)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split(".")[0])
    return out


def typelike(n):
    if isinstance(n, ast.Constant):
        return n.value is None
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.BitOr):
        return typelike(n.left) and typelike(n.right)
    if isinstance(n, ast.Name):
        return n.id in {"int", "float", "complex", "str", "bytes", "bool", "list", "dict", "tuple", "set", "frozenset", "type", "object", "Callable", "Any", "Optional", "Union"} or n.id[:1].isupper() and not n.id.isupper()
    if isinstance(n, ast.Attribute):
        return n.attr in {"ndarray", "Logger", "Callable", "integer", "floating", "number", "generic"} or n.attr[:1].isupper() and not n.attr.isupper()
    if isinstance(n, ast.Subscript):
        return typelike(n.value)
    return False


def unions(R, rel, tree, minor):
    if minor >= 10:
        return
    future = any(isinstance(n, ast.ImportFrom) and n.module == "__future__" and any(a.name == "annotations" for a in n.names) for n in tree.body)
    anns = set()
    for n in ast.walk(tree):
        for a in ([n.annotation] if isinstance(n, (ast.arg, ast.AnnAssign)) and n.annotation else []) + ([n.returns] if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.returns else []):
            for x in ast.walk(a):
                anns.add(id(x))
                if isinstance(x, ast.BinOp) and isinstance(x.op, ast.BitOr) and not future:
                    R.viol("runtime-types", rel, "the annotation %s is evaluated at run time and needs Python 3.10" % ast.unparse(a), "%s:%d" % (rel, x.lineno))
                    return
    for n in ast.walk(tree):
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.BitOr) and id(n) not in anns and typelike(n) and not (isinstance(n.left, ast.Constant) and isinstance(n.right, ast.Constant)):
            R.viol("runtime-types", rel, "the union %s is evaluated at run time and needs Python 3.10" % ast.unparse(n), "%s:%d" % (rel, n.lineno))
            return
    R.ok("runtime-types", rel)


def names(R, rel, tree, minor):
    alias = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                alias[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
                if NEWMOD.get(a.name, 0) > minor and not guarded(tree, n):
                    R.viol("stdlib-names", rel, "module %s needs Python 3.%d" % (a.name, NEWMOD[a.name]), "%s:%d" % (rel, n.lineno))
                    return
        elif isinstance(n, ast.ImportFrom) and n.level == 0:
            for a in n.names:
                full = "%s.%s" % (n.module, a.name)
                alias[a.asname or a.name] = full
                v = max(NEW.get(full, 0), NEWMOD.get(n.module, 0), NEWMOD.get(full, 0))
                if v > minor and not guarded(tree, n):
                    R.viol("stdlib-names", rel, "%s needs Python 3.%d" % (full, v), "%s:%d" % (rel, n.lineno))
                    return
    own = bound(tree)
    for n in ast.walk(tree):
        d = None
        if isinstance(n, ast.Attribute):
            d = dotted(n)
            if d and d.split(".")[0] in alias:
                d = alias[d.split(".")[0]] + d[len(d.split(".")[0]):]
            if isinstance(n.ctx, ast.Load) and NEWMETH.get(n.attr, 0) > minor and not (d and d.split(".")[0] in ("numpy", "np")):
                R.viol("stdlib-names", rel, "method %s needs Python 3.%d" % (n.attr, NEWMETH[n.attr]), "%s:%d" % (rel, n.lineno))
                return
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in own:
            d = "builtins." + n.id
        if d and NEW.get(d, 0) > minor and not guarded(tree, n):
            R.viol("stdlib-names", rel, "%s needs Python 3.%d" % (d, NEW[d]), "%s:%d" % (rel, n.lineno))
            return
        if isinstance(n, ast.Call):
            f = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else None
            for k in n.keywords:
                if NEWKW.get((f, k.arg), 0) > minor:
                    R.viol("stdlib-names", rel, "%s(%s=...) needs Python 3.%d" % (f, k.arg, NEWKW[(f, k.arg)]), "%s:%d" % (rel, n.lineno))
                    return
    R.ok("stdlib-names", rel)


def depnames(R, rel, tree, lower, upper):
    new, gone = {}, {}
    for d, t in DEPNEW.items():
        new.update(("%s.%s" % (d, x), v) for v, w in t.items() for x in w.split() if d in lower and v > lower[d])
    for d, t in DEPGONE.items():
        gone.update(("%s.%s" % (d, x), v) for v, w in t.items() for x in w.split() if d in lower and v < upper.get(d, (99, 0)))
    alias = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                alias[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
        elif isinstance(n, ast.ImportFrom) and n.level == 0:
            for a in n.names:
                alias[a.asname or a.name] = "%s.%s" % (n.module, a.name)
    seen = 0

    def full(n):
        d = dotted(n)
        return alias[d.split(".")[0]] + d[len(d.split(".")[0]):] if d and d.split(".")[0] in alias else None

    def report(n, what, v, verb):
        R.viol("dependency-names", rel, "%s %s %s %d.%d" % (what, verb, what.split(".")[0], *v), "%s:%d" % (rel, n.lineno))
    for n in ast.walk(tree):
        ds = []
        if isinstance(n, ast.Attribute):
            ds = [full(n)]
            v = DEPMETH.get(n.attr)
            if v and isinstance(n.ctx, ast.Load) and not ds[0] and v[0] in lower and v[1] > lower[v[0]] and not probed(tree, n, n.attr) and dotted(n.value) != "self":
                report(n, "%s.ndarray.%s" % (v[0], n.attr), v[1], "needs")
                return
        elif isinstance(n, ast.ImportFrom) and n.level == 0:
            ds = ["%s.%s" % (n.module, a.name) for a in n.names] + [n.module]
        elif isinstance(n, ast.Import):
            ds = [a.name for a in n.names]
        for d in ds:
            if not d or d.split(".")[0] not in lower:
                continue
            seen += 1
            for t, verb in ((new, "needs"), (gone, "is gone in")):
                if d in t and not probed(tree, n, d.split(".")[-1]):
                    report(n, d, t[d], verb)
                    return
        if isinstance(n, ast.Call):
            d = full(n.func)
            for k in n.keywords:
                v = DEPKW.get((d, k.arg))
                if v and d.split(".")[0] in lower and v > lower[d.split(".")[0]] and not probed(tree, n, k.arg):
                    report(n, "%s(%s=...)" % (d, k.arg), v, "needs")
                    return
    R.ok("dependency-names", rel, "%d uses" % seen)


def probed(tree, node, name):
    """guarded, or under a test that asks whether the name is there"""
    if guarded(tree, node):
        return True
    for p in ast.walk(tree):
        if isinstance(p, (ast.If, ast.IfExp)):
            t = ast.dump(p.test)
            if "__version__" in t or "version" in t or "hasattr" in t and repr(name) in t:
                b = [p.body, p.orelse] if isinstance(p, ast.IfExp) else p.body + p.orelse
                if any(x is node for y in b for x in ast.walk(y)):
                    return True
    return False


def dotted(n):
    if isinstance(n, ast.Attribute):
        b = dotted(n.value)
        return b + "." + n.attr if b else None
    return n.id if isinstance(n, ast.Name) else None


def guarded(tree, node):
    """under TYPE_CHECKING, a version test, or a try that catches the failure"""
    for p in ast.walk(tree):
        if isinstance(p, ast.If):
            t = ast.dump(p.test)
            if ("TYPE_CHECKING" in t or "version_info" in t) and any(x is node for b in p.body + p.orelse for x in ast.walk(b)):
                return True
        if isinstance(p, ast.Try) and any(x is node for b in p.body for x in ast.walk(b)):
            for h in p.handlers:
                t = ast.dump(h.type) if h.type else "ImportError"
                if any(k in t for k in ("ImportError", "ModuleNotFoundError", "AttributeError", "'Exception'", "NameError")):
                    return True
    return False


def typing_only(tree, node):
    for p in ast.walk(tree):
        if isinstance(p, ast.If) and "TYPE_CHECKING" in ast.dump(p.test) and any(x is node for b in p.body for x in ast.walk(b)):
            return True
    return False


def imports(R, name, rel, f, tree, deps, mods, defs, gen, used):
    ispkg = os.path.basename(f) == "__init__.py"
    pkg = name if ispkg else name.rsplit(".", 1)[0]

    def internal(mod, site, node):
        parts = mod.split(".")
        for k in range(1, len(parts) + 1):
            p = ".".join(parts[:k])
            if p in mods and os.path.basename(mods[p][0]) == "__init__.py" and not typing_only(tree, node):
                used.setdefault(p, site)
        if mod in mods:
            return True
        path = mod.replace(".", "/")
        if gen and gen == path + ".py":
            return None
        return os.path.isdir(os.path.join(R.root, path)) or False
    for n in ast.walk(tree):
        if isinstance(n, ast.Import):
            targets = [(a.name, None) for a in n.names]
        elif isinstance(n, ast.ImportFrom):
            if n.level:
                base = pkg.split(".")
                base = base[:len(base) - (n.level - 1)]
                mod = ".".join(base + ([n.module] if n.module else []))
            else:
                mod = n.module
            targets = [(mod, a.name) for a in n.names]
        elif isinstance(n, ast.Call) and (dotted(n.func) or "").split(".")[-1] in ("import_module", "__import__") and n.args and isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str):
            if n.args[0].value.startswith("."):
                continue
            targets = [(n.args[0].value, None)]
        else:
            continue
        site = "%s:%d" % (rel, n.lineno)
        for mod, nm in targets:
            root = mod.split(".")[0]
            con = "%s: %s%s" % (rel, mod, "." + nm if nm else "")
            if root == "rkstiff":
                r = internal(mod, site, n)
                if r is None:
                    R.ok("internal", con, "generated at build time", site)
                    continue
                if not r:
                    R.viol("internal", con, "no such module", site)
                    continue
                if nm and nm != "*" and mod + "." + nm in mods:
                    internal(mod + "." + nm, site, n)
                elif nm and nm != "*" and mod in defs and nm not in defs[mod] and "__getattr__" not in defs[mod]:
                    R.viol("internal", con, "%s does not define %s" % (mod, nm), site)
                    continue
                R.ok("internal", con, "", site)
            elif root in sys.stdlib_module_names or root in deps or root == "__future__":
                R.ok("imports", con, "", site)
            elif guarded(tree, n):
                R.ok("imports", con, "optional: the import is guarded", site)
            else:
                R.viol("imports", con, "%s is neither in the standard library nor a declared dependency (%s)" % (root, ", ".join(sorted(deps))), site)
