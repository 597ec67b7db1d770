"""C23: effect rules over the whole program: nothing reads the clock, random numbers, the environment, identity or hash order to
compute a result, nothing parsed is executed, and no state is left behind for a later evaluation."""
import ast
import re

CLOCK = {"datetime.datetime.now", "datetime.datetime.utcnow", "datetime.datetime.today", "datetime.date.today", "time.time", "time.time_ns",
         "time.monotonic", "time.monotonic_ns", "time.perf_counter", "time.perf_counter_ns", "time.process_time", "time.localtime", "time.gmtime",
         "pandas.Timestamp.now", "pandas.Timestamp.today", "pandas.Timestamp.utcnow", "time.strftime", "time.ctime"}
RANDOM = re.compile(r"^(random\.|numpy\.random\.|secrets\.|os\.urandom|uuid\.uuid[14]$|uuid_utils\..*uuid\d$|libecalc\.common\.utils\.ecalc_uuid\.)")
UUID = re.compile(r"(^uuid\.uuid[14]$|^uuid_utils\..*uuid\d$|^libecalc\.common\.utils\.ecalc_uuid\.)")
ENV = re.compile(r"^(os\.environ|os\.getenv|os\.getpid|os\.getlogin|platform\.|socket\.gethost|getpass\.|locale\.|threading\.get_ident)")
# settings of the process that change what later arithmetic or parsing gives
SETTING = re.compile(r"^(numpy\.(seterr|seterrcall|setbufsize)|pandas\.(set_option|options\.)|decimal\.(setcontext|getcontext)|warnings\.(simplefilter|filterwarnings)|"
                     r"time\.tzset|sys\.set(recursionlimit|switchinterval)|numpy\.set_string_function)")
EXEC = {"eval", "exec", "compile", "__import__", "builtins.eval", "builtins.exec", "os.system", "os.popen", "importlib.import_module",
        "pickle.loads", "pickle.load", "marshal.loads", "shelve.open", "yaml.unsafe_load", "yaml.full_load", "yaml.unsafe_load_all",
        "yaml.full_load_all", "subprocess.Popen", "subprocess.run", "subprocess.call", "subprocess.check_output", "subprocess.check_call",
        "pandas.eval", "pandas.read_pickle", "numpy.load", "joblib.load", "dill.loads", "dill.load", "ast.parse", "code.interact", "runpy.run_path",
        "runpy.run_module"}
MUTATORS = {"append", "extend", "insert", "add", "update", "setdefault", "pop", "popitem", "clear", "remove", "discard", "__setitem__", "sort",
            "reverse", "appendleft"}
SAFE_ITER = {"sorted", "len", "min", "max", "any", "all", "set", "frozenset", "bool", "isinstance", "str", "repr", "sum", "type", "Counter"}
ORDERED = {"list", "tuple", "enumerate", "zip", "next", "iter", "map", "filter", "reversed", "array", "asarray", "fromiter", "DataFrame", "Series",
           "Index", "DatetimeIndex", "concat", "deque", "dict", "chain", "reduce"}
# process-wide singletons that hold connections and caches (not inputs of a calculation); their use is decided by C15-C17
SINGLETONS = {"_neqsim_service", "_max_memory", "unique_id"}
MUTABLE_MODULE_STATE = {"ecalc_neqsim_wrapper.cache_service.CacheService._caches", "libecalc.common.decorators.capturer.unique_id"}


def imports(m):
    out = {}
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                out[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
        elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
            for a in n.names:
                out[a.asname or a.name] = f"{n.module}.{a.name}"
    return {k: re.sub(r"^(np|pd)\b", lambda z: {"np": "numpy", "pd": "pandas"}[z.group()], v) for k, v in out.items()}


def dotted(node, imp):
    parts = []
    while isinstance(node, ast.Attribute):
        parts.append(node.attr)
        node = node.value
    if not isinstance(node, ast.Name):
        return None
    return ".".join([imp.get(node.id, node.id)] + parts[::-1])


def functions(m):
    """(qualified name, class name or None, node) of every function, nested ones included."""
    def walk(body, pre, cls):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                yield f"{pre}.{n.name}", cls, n
                yield from walk(n.body, f"{pre}.{n.name}", cls)
            elif isinstance(n, ast.ClassDef):
                yield from walk(n.body, f"{pre}.{n.name}", n.name)
            else:
                for f in ("body", "orelse", "finalbody", "handlers"):
                    if hasattr(n, f):
                        yield from walk(getattr(n, f), pre, cls)
    yield from walk(m.tree.body, m.name, None)


def parents(tree):
    return {c: n for n in ast.walk(tree) for c in ast.iter_child_nodes(n)}


def where(m, n):
    return f"{m.relpath}:{n.lineno}"


_NUMERIC = {"int", "float", "hash", "sum", "min", "max", "sorted", "sort", "bytes", "ord", "seed", "shuffle", "choice", "sample", "range", "divmod", "abs"}


def is_identity(n, par, seen=()):
    """The fresh id only serves as an identifier: it is stored, passed on, compared for equality or shown, never ordered or computed with."""
    x = n
    while x in par and not isinstance(x, ast.stmt):
        x0, x = x, par[x]
        if isinstance(x, ast.JoinedStr) or isinstance(x, ast.Attribute) and x.attr == "hex" or isinstance(x, ast.Call) and x0 is not x.func and ast.unparse(x.func) == "str":
            return True  # becomes part of a text
        if isinstance(x, ast.BinOp) and not (isinstance(x.op, (ast.Add, ast.Mod)) and any(isinstance(y, ast.Constant) and isinstance(y.value, str) for y in (x.left, x.right))):
            return False
        if isinstance(x, (ast.UnaryOp, ast.BoolOp)) and not isinstance(getattr(x, "op", None), ast.Or):
            return False
        if isinstance(x, ast.Compare) and any(isinstance(o, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)) for o in x.ops):
            return False
        if isinstance(x, ast.Subscript) and x0 is x.value:
            return False
        if isinstance(x, ast.Attribute) and x.attr in ("int", "bytes", "time", "fields", "node", "clock_seq", "bytes_le"):
            return False
        if isinstance(x, ast.Call) and x0 is not x.func:
            return ast.unparse(x.func).split(".")[-1] not in _NUMERIC
        if isinstance(x, ast.Lambda):
            call = par.get(par.get(x)) if isinstance(par.get(x), ast.keyword) else par.get(x)
            if isinstance(call, ast.Call) and ast.unparse(call.func).split(".")[-1] in _NUMERIC:
                return False
    if isinstance(x, (ast.If, ast.While, ast.Assert)):
        return False
    if isinstance(x, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
        ts = x.targets if isinstance(x, ast.Assign) else [x.target]
        f = x
        while f in par and not isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
            f = par[f]
        if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for t in ts:
                if isinstance(t, ast.Name) and t.id not in seen:
                    for y in ast.walk(f):
                        if isinstance(y, ast.Name) and y.id == t.id and isinstance(y.ctx, ast.Load) and not is_identity(y, par, seen + (t.id,)):
                            return False
        return not isinstance(x, ast.AugAssign)
    return True


def stamps(n, par):
    """The time is only recorded as start or end of the run, or names a log file."""
    x = n
    while x in par and not isinstance(x, ast.stmt):
        x = par[x]
        if isinstance(x, ast.keyword) and x.arg in ("start", "end"):
            return True
        if isinstance(x, ast.JoinedStr) and "log" in ast.unparse(x):
            return True
        if isinstance(x, ast.Call) and re.search(r"\blog(ger|ging)?\.", ast.unparse(x.func)):
            return True
    if isinstance(x, ast.Assign):
        return all(re.search(r"(start|end|elapsed|duration|tic|toc|t0|t1)\w*$", ast.unparse(t)) for t in x.targets)
    return False


def setlike_functions(p):
    names = set()
    for m in p.modules.values():
        if m.name.startswith("spec."):
            continue
        for q, c, f in functions(m):
            if f.returns is not None and re.match(r"^(set|frozenset|Set)\b", ast.unparse(f.returns).strip("'\"")):
                names.add(f.name)
    return names


def local_sets(f, setfun):
    """Names in function f whose every assignment is a set."""
    kinds = {}

    def is_set(e):
        if isinstance(e, ast.SetComp) and isinstance(e.elt, ast.Name) and any(
                isinstance(g.iter, ast.Call) and ast.unparse(g.iter.func) in ("enumerate", "range") and
                e.elt.id == ast.unparse(g.target.elts[0] if isinstance(g.target, ast.Tuple) else g.target) for g in e.generators):
            return False      # small integers hash to themselves
        if isinstance(e, (ast.Set, ast.SetComp)):
            return True
        if isinstance(e, ast.Call):
            n = e.func.attr if isinstance(e.func, ast.Attribute) else e.func.id if isinstance(e.func, ast.Name) else ""
            if n in ("set", "frozenset") and isinstance(e.func, ast.Name):
                return True
            if n in ("union", "intersection", "difference", "symmetric_difference", "copy") and isinstance(e.func, ast.Attribute):
                return is_set(e.func.value)
            return n in setfun
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
            return is_set(e.left) or is_set(e.right)
        if isinstance(e, ast.Name):
            return kinds.get(e.id) is True
        if isinstance(e, ast.IfExp):
            return is_set(e.body) or is_set(e.orelse)
        return False
    a = f.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        if x.annotation is not None and re.match(r"^(set|frozenset|Set|AbstractSet)\b", ast.unparse(x.annotation)):
            kinds[x.arg] = True
    for _ in range(3):
        new = dict((k, v) for k, v in kinds.items() if k in {x.arg for x in a.args + a.kwonlyargs})
        for n in ast.walk(f):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                k = n.targets[0].id
                new[k] = is_set(n.value) and new.get(k, True)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                k = n.target.id
                new[k] = bool(re.match(r"^(set|frozenset|Set)\b", ast.unparse(n.annotation))) and new.get(k, True)
        if new == kinds:
            break
        kinds = new
    return is_set


def order_free_body(body):
    """A loop body whose effect does not depend on the order of the iterations."""
    for s in body:
        if isinstance(s, (ast.Pass, ast.Continue, ast.Raise, ast.Assert)):
            continue
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            continue
        if isinstance(s, ast.If):
            if order_free_body(s.body) and order_free_body(s.orelse):
                continue
            return False
        if isinstance(s, ast.For):
            if order_free_body(s.body):
                continue
            return False
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and \
                (s.value.func.attr in ("add", "discard", "update") or re.search(r"\blog", ast.unparse(s.value.func))):
            continue
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            t = s.targets[0] if isinstance(s, ast.Assign) else s.target
            if isinstance(t, (ast.Name, ast.Subscript)):      # a local of the iteration, or an entry of a mapping
                continue
            return False
        if isinstance(s, ast.Return) and (s.value is None or isinstance(s.value, ast.Constant)):
            continue
        return False
    return True


def scoped(n, par, imp):
    """Inside `with warnings.catch_warnings()`, `decimal.localcontext()`, `pandas.option_context()`: undone at the end of the block."""
    while n in par:
        n = par[n]
        if isinstance(n, ast.With) and any(isinstance(i.context_expr, ast.Call) and re.search(r"catch_warnings|localcontext|option_context|errstate", ast.unparse(i.context_expr.func))
                                           for i in n.items):
            return True
    return False


def check(ctx):
    p = ctx.p
    mods = [m for m in p.modules.values() if not m.name.startswith("spec.") and not re.search(r"\.(fixtures|testing|tests)(\.|$)", m.name)]
    setfun = setlike_functions(p)
    calls = 0
    for m in mods:
        imp = imports(m)
        par = parents(m.tree)
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.Call, ast.Attribute)) and not (isinstance(n, ast.Attribute) and isinstance(par.get(n), (ast.Attribute, ast.Call)) and
                                                                 (isinstance(par.get(n), ast.Attribute) or par[n].func is n)):
                f = n.func if isinstance(n, ast.Call) else n
                d = dotted(f, imp)
                if d is None:
                    continue
                calls += isinstance(n, ast.Call)
                if d in CLOCK:
                    ctx.require(stamps(n, par), "clock", f"{m.name}: {d}", f"{where(m, n)}: the wall clock is read and its value can reach a result: {ast.unparse(n)}")
                elif RANDOM.match(d):
                    ctx.require(bool(UUID.match(d)) and (is_identity(n, par) or m.name.endswith(".ecalc_uuid")), "random", f"{m.name}: {d}",
                                f"{where(m, n)}: a random value is used otherwise than as an identifier: {ast.unparse(par.get(n, n))[:200]}")
                elif ENV.match(d):
                    ctx.require(m.name.split(".")[0] == "ecalc_cli" and "logger" in m.name, "environment", f"{m.name}: {d}",
                                f"{where(m, n)}: a calculation reads the environment of the process: {ast.unparse(n)}")
                elif SETTING.match(d) and not (d.startswith("warnings.") and "error" not in ast.unparse(n)) and not scoped(n, par, imp):
                    ctx.bad("process-setting", f"{m.name}: {d}", f"{where(m, n)}: a setting of the whole process is changed, and with it what every calculation "
                                                                 f"in the process gives: {ast.unparse(n)[:200]}")
                elif isinstance(n, ast.Call) and d in EXEC:
                    ctx.bad("execution", f"{m.name}: {d}", f"{where(m, n)}: text or data is executed: {ast.unparse(n)[:200]}")
                elif isinstance(n, ast.Call) and d in ("yaml.load", "yaml.load_all"):
                    ld = next((k.value for k in n.keywords if k.arg == "Loader"), n.args[1] if len(n.args) > 1 else None)
                    ctx.require(ld is not None and safe_loader(p, m, imp, ld, n, par), "safe-loader", f"{m.name}: {d}",
                                f"{where(m, n)}: YAML is parsed with a loader that can construct arbitrary objects: {ast.unparse(n)[:200]}")
                elif isinstance(n, ast.Call) and d in ("hash", "id") and isinstance(n.func, ast.Name):
                    fn = n
                    while fn in par and not isinstance(fn, ast.FunctionDef):
                        fn = par[fn]
                    ctx.require(isinstance(fn, ast.FunctionDef) and fn.name in ("__hash__", "__eq__"), "identity", f"{m.name}: {d}",
                                f"{where(m, n)}: a hash or memory address is used as a value: {ast.unparse(n)}")
    ctx.counts["calls examined"] = calls
    iters = 0
    for m in mods:
        par = parents(m.tree)
        for q, c, f in functions(m):
            is_set = local_sets(f, setfun)
            for n in ast.walk(f):
                if isinstance(n, ast.For) and is_set(n.iter):
                    iters += 1
                    ctx.require(order_free_body(n.body), "set-order", q, f"{where(m, n)}: the loop over {ast.unparse(n.iter)[:80]} visits a set in arbitrary order and its body depends on the order")
                elif isinstance(n, (ast.ListComp, ast.GeneratorExp)) and is_set(n.generators[0].iter):
                    iters += 1
                    u = par.get(n)
                    ok = isinstance(u, ast.Call) and n in u.args and isinstance(u.func, ast.Name) and u.func.id in SAFE_ITER
                    ok = ok or isinstance(u, ast.Call) and isinstance(u.func, ast.Attribute) and u.func.attr in ("union", "update", "difference", "intersection")
                    ok = ok or in_message(n, par)
                    ctx.require(ok, "set-order", q, f"{where(m, n)}: the elements of {ast.unparse(n.generators[0].iter)[:80]} are listed in arbitrary order")
                elif isinstance(n, ast.Call):
                    nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ""
                    for a in n.args:
                        if is_set(a) and (nm in ORDERED or nm == "join"):
                            iters += 1
                            u = par.get(n)
                            ok = isinstance(u, ast.Call) and isinstance(u.func, ast.Name) and u.func.id in SAFE_ITER or in_message(n, par)
                            # picking the only element
                            ok = ok or nm in ("list", "tuple", "iter") and single(f, a)
                            ctx.require(ok, "set-order", q, f"{where(m, n)}: {ast.unparse(n)[:120]} depends on the order of a set")
                    if nm == "pop" and isinstance(n.func, ast.Attribute) and not n.args and is_set(n.func.value):
                        ctx.require(single(f, n.func.value), "set-order", q, f"{where(m, n)}: {ast.unparse(n)[:120]} takes an arbitrary element of a set")
    ctx.counts["set iterations"] = iters
    state(ctx, mods)


def single(f, e):
    """The function tests that the set has one element."""
    t = ast.unparse(e)
    return any(isinstance(n, ast.Compare) and f"len({t})" in ast.unparse(n) for n in ast.walk(f))


def in_message(n, par):
    x = n
    while x in par:
        x = par[x]
        if isinstance(x, (ast.Raise, ast.Assert, ast.JoinedStr)):
            return True
        if isinstance(x, ast.Call) and re.search(r"(Error|Exception|Warning)$|\blog(ger|ging)?\.|logger", ast.unparse(x.func)):
            return True
        if isinstance(x, ast.stmt):
            return False
    return False


def safe_loader(p, m, imp, ld, n, par):
    d = dotted(ld, imp) or ""
    if d.split(".")[-1] in ("SafeLoader", "CSafeLoader", "BaseLoader"):
        return True
    name = d.split(".")[-1]
    if name == "__class__":
        return True     # the class of a loader at work
    for k in ast.walk(m.tree):
        if isinstance(k, ast.ClassDef) and k.name == name and k.bases:
            return all(safe_base(p, m, imp, b) for b in k.bases)
    for mm in p.modules.values():
        for k in ast.walk(mm.tree):
            if isinstance(k, ast.ClassDef) and k.name == name and any(ast.unparse(b).split(".")[-1] in ("SafeLoader", "CSafeLoader", "BaseLoader") for b in k.bases):
                return True
    # a local that is assigned such a class
    fn = n
    while fn in par and not isinstance(fn, ast.FunctionDef):
        fn = par[fn]
    if isinstance(ld, ast.Name):
        vals = [a.value for a in ast.walk(fn) if isinstance(a, ast.Assign) and any(isinstance(t, ast.Name) and t.id == ld.id for t in a.targets)]
        return bool(vals) and all(not isinstance(v, ast.Name) or v.id != ld.id for v in vals) and all(safe_loader(p, m, imp, v, n, par) for v in vals)
    return False


def safe_base(p, m, imp, b):
    t = ast.unparse(b)
    if t.split(".")[-1] in ("SafeLoader", "CSafeLoader", "BaseLoader"):
        return True
    if isinstance(b, ast.Name) and any(isinstance(k, ast.ClassDef) and k.name == b.id and all(safe_base(p, m, imp, x) for x in k.bases) for k in ast.walk(m.tree)):
        return True
    # a loader class handed in: every class handed in within the module has to be safe
    given = [k.value for c in ast.walk(m.tree) if isinstance(c, ast.Call) for k in c.keywords if k.arg and "loader" in k.arg.lower() and k.arg != "Loader"]
    params = {a.arg for f in ast.walk(m.tree) if isinstance(f, ast.FunctionDef) for a in f.args.args + f.args.kwonlyargs if "loader" in a.arg.lower()}
    known = {k.name: k for k in ast.walk(m.tree) if isinstance(k, ast.ClassDef)}

    def ok(v):
        n = ast.unparse(v).split(".")[-1]
        return n in ("SafeLoader", "CSafeLoader", "BaseLoader", "__class__") or isinstance(v, ast.Name) and v.id in params or \
            n in known and all(ast.unparse(x).split(".")[-1] in ("SafeLoader", "CSafeLoader", "BaseLoader") for x in known[n].bases)
    return "loader" in t.lower() and bool(given) and all(ok(v) for v in given)


def mutable(v):
    if isinstance(v, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    return isinstance(v, ast.Call) and ast.unparse(v.func).split(".")[-1] in ("list", "dict", "set", "defaultdict", "OrderedDict", "deque", "Counter", "WeakValueDictionary", "WeakKeyDictionary", "LRUCache", "TTLCache")


def mutations(fn):
    """(expression mutated, node) in a function."""
    for n in ast.walk(fn):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
            yield n.func.value, n
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Delete)):
            ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target]
            for t in ts:
                for x in ast.walk(t):
                    if isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)):
                        yield x.value, n


def state(ctx, mods):
    p = ctx.p
    n_state = n_def = 0
    for m in mods:
        globs = {}
        for st in m.tree.body:
            t = st.target if isinstance(st, ast.AnnAssign) else st.targets[0] if isinstance(st, ast.Assign) and len(st.targets) == 1 else None
            if isinstance(t, ast.Name) and st.value is not None:
                globs[t.id] = mutable(st.value)
        for q, c, f in functions(m):
            params = {x.arg for x in f.args.posonlyargs + f.args.args + f.args.kwonlyargs}
            local = params | {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            declared = {x for s in ast.walk(f) if isinstance(s, ast.Global) for x in s.names}
            for d in declared:
                if any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == d for x in ast.walk(f)):
                    n_state += 1
                    ctx.require(d in SINGLETONS, "module-state", f"{m.name}.{d}", f"{where(m, f)}: {q} rebinds the module variable {d}; a later evaluation can see it")
            for e, n in mutations(f):
                if isinstance(e, ast.Name) and e.id in globs and e.id not in local:
                    n_state += 1
                    ctx.bad("module-state", f"{m.name}.{e.id}", f"{where(m, n)}: {q} modifies the module variable {e.id}; a later evaluation can see it") \
                        if f"{m.name}.{e.id}" not in MUTABLE_MODULE_STATE else ctx.ok("module-state", f"{m.name}.{e.id}")
            made = {k.name for k in ast.walk(f) if isinstance(k, ast.ClassDef)}
            for n in ast.walk(f):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("add_constructor", "add_representer", "add_implicit_resolver", "add_multi_constructor"):
                    n_state += 1
                    ctx.require(isinstance(n.func.value, ast.Name) and n.func.value.id in made, "class-state", f"{q}: {n.func.attr}",
                                f"{where(m, n)}: {ast.unparse(n.func)} registers on a class that other reads share")
            # memoisation outside the cache service
            for d in f.decorator_list:
                dn = ast.unparse(d.func if isinstance(d, ast.Call) else d).split(".")[-1]
                if dn in ("lru_cache", "cache", "cached", "memoize"):
                    pure = not f.args.args or all(x.annotation is not None and re.match(r"^(str|int|float|bool|Unit|type)\b", ast.unparse(x.annotation)) for x in f.args.args)
                    free = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)} & {g for g, mu in globs.items() if mu}
                    ctx.require(pure and not free, "memo", q, f"{where(m, f)}: {q} remembers results between evaluations; its arguments do not determine them")
            # default arguments are created once
            a = f.args
            pos = a.posonlyargs + a.args
            for arg, dv in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(x, y) for x, y in zip(a.kwonlyargs, a.kw_defaults) if y is not None]:
                if mutable(dv):
                    n_def += 1
                    touched = [n for e, n in mutations(f) if isinstance(e, ast.Name) and e.id == arg.arg]
                    kept = [n for n in ast.walk(f) if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id == arg.arg and any(isinstance(t, ast.Attribute) for t in n.targets)]
                    kept += [n for n in ast.walk(f) if isinstance(n, ast.Return) and isinstance(n.value, ast.Name) and n.value.id == arg.arg]
                    aug = [n for n in ast.walk(f) if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == arg.arg]
                    ctx.require(not (touched or kept or aug), "default-argument", f"{q}({arg.arg})", f"{where(m, f)}: the mutable default of {arg.arg} is shared between calls and is modified or kept")
        # class-level containers are shared between instances
        for k in ast.walk(m.tree):
            if not isinstance(k, ast.ClassDef):
                continue
            deco = " ".join(ast.unparse(d) for d in k.decorator_list) + " " + " ".join(ast.unparse(b) for b in k.bases)
            shared = set()
            for st in k.body:
                t = st.target if isinstance(st, ast.AnnAssign) else st.targets[0] if isinstance(st, ast.Assign) and len(st.targets) == 1 else None
                if isinstance(t, ast.Name) and getattr(st, "value", None) is not None and mutable(st.value):
                    if "Model" in deco or "dataclass" in deco or "Enum" in deco:
                        if not (isinstance(st, ast.AnnAssign) and "ClassVar" in ast.unparse(st.annotation)) and isinstance(st, ast.AnnAssign):
                            continue
                    shared.add(t.id)
            own = {ast.unparse(t) for f in k.body if isinstance(f, ast.FunctionDef) and f.name in ("__init__", "__post_init__") for s in ast.walk(f)
                   if isinstance(s, (ast.Assign, ast.AnnAssign)) for t in (s.targets if isinstance(s, ast.Assign) else [s.target])}
            for f in ast.walk(k):
                if not isinstance(f, ast.FunctionDef):
                    continue
                for e, n in mutations(f):
                    t = ast.unparse(e)
                    mm = re.match(r"^(self|cls|%s)\.(\w+)$" % re.escape(k.name), t)
                    if mm and mm.group(2) in shared and f"self.{mm.group(2)}" not in own:
                        n_state += 1
                        ctx.require(f"{m.name}.{k.name}.{mm.group(2)}" in MUTABLE_MODULE_STATE, "class-state", f"{m.name}.{k.name}.{mm.group(2)}",
                                    f"{where(m, n)}: {f.name} modifies {t}, which all instances of {k.name} share")
    ctx.counts["module and class state"] = n_state
    ctx.counts["mutable default arguments"] = n_def
