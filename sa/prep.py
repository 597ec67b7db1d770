"""Syntactic preparation of every function before it is interpreted.

* An alias `d = place` (attribute or element of something, single assignment) that is modified through the alias is replaced by the
  place itself, so that a change through the alias is a change of the place.
* A generator, map, zip, filter or iterator held in a variable and read more than once is marked: it is exhausted after the first use.
* A name that only ever holds values created in the function is marked: modifying it is not visible outside.
* A lambda created in a loop, kept beyond the iteration, that reads a variable of the loop is marked: it sees the last value.
"""
import ast
import copy

MUT = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "update", "add", "discard", "setdefault", "popitem"}
LAZY = {"map", "zip", "filter", "iter", "reversed", "enumerate"}
COPIES = {"list", "dict", "set", "tuple", "sorted", "frozenset", "deepcopy", "copy", "array", "zeros", "ones", "full", "zeros_like", "ones_like",
          "full_like", "empty", "defaultdict", "OrderedDict", "flatten", "astype", "tolist", "concatenate", "where", "arange", "linspace",
          "stack", "vstack", "hstack", "cumsum", "interp", "fromiter", "int", "float", "str", "bool", "len", "sum", "min", "max", "abs", "round"}
FUNC = (ast.FunctionDef, ast.AsyncFunctionDef)
COMP = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def prepare(tree):
    for f in ast.walk(tree):
        if isinstance(f, FUNC):
            function(f)


def function(f):
    counters(f)
    par = {}
    stores, loads = {}, {}
    for n in ast.walk(f):
        for c in ast.iter_child_nodes(n):
            par[c] = n
        if isinstance(n, ast.Name):
            (loads if isinstance(n.ctx, ast.Load) else stores).setdefault(n.id, []).append(n)
    params = {a.arg for a in ast.walk(f.args) if isinstance(a, ast.arg)}
    outer = {x for n in ast.walk(f) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}

    def bindings(name):
        """Value expressions bound to a name, None for one that is not a plain assignment."""
        out = []
        for s in stores.get(name, ()):
            p = par.get(s)
            if isinstance(p, ast.Assign) and s in p.targets or isinstance(p, ast.AnnAssign) and p.target is s:
                out.append(p.value)
            elif isinstance(p, ast.NamedExpr) and p.target is s:
                out.append(p.value)
            elif isinstance(p, ast.AugAssign):
                continue
            else:
                out.append(None)
        return out

    def owner(n):
        while n in par and not isinstance(n, FUNC + (ast.Lambda,)):
            n = par[n]
        return n
    # ---- names that only hold values made here
    fresh = set()
    for name in stores:
        if name in params or name in outer:
            continue
        bs = bindings(name)
        if bs and all(b is not None and makes(b) for b in bs):
            fresh.add(name)
    for name in fresh:
        for s in stores[name] + loads.get(name, []):
            s.made_here = True
    # ---- one-shot iterators read more than once
    for name in list(stores):
        if name in params or name in outer:
            continue
        bs = bindings(name)
        if not bs or not any(b is not None and lazy(b) for b in bs):
            continue
        ls = loads.get(name, [])
        site = stores[name][0]
        if len(ls) > 1 or ls and context(ls[0], par, f) != context(site, par, f):
            if exclusive(ls, par) and all(context(x, par, f) == context(site, par, f) for x in ls):
                continue
            for x in ls:
                x.one_shot = True
    # ---- lambdas kept beyond an iteration
    for n in ast.walk(f):
        if not isinstance(n, (ast.For, ast.While)):
            continue
        varying = {x.id for b in ([n.target] if isinstance(n, ast.For) else []) + n.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        for b in n.body:
            for x in ast.walk(b):
                if isinstance(x, ast.Lambda) and kept(x, par):
                    own = {a.arg for a in ast.walk(x.args) if isinstance(a, ast.arg)}
                    if any(isinstance(y, ast.Name) and isinstance(y.ctx, ast.Load) and y.id in varying - own for y in ast.walk(x.body)):
                        x.sees_last = True
    # ---- aliases that are modified
    for name in list(stores):
        if name in params or name in outer or len(stores[name]) != 1:
            continue
        s = stores[name][0]
        a = par.get(s)
        if isinstance(a, ast.Assign) and len(a.targets) == 1 and a.targets[0] is s or isinstance(a, ast.AnnAssign) and a.target is s and a.value is not None:
            v = a.value
        else:
            continue
        if not place(v) or owner(a) is not f and owner(a) in par:
            continue
        ls = loads.get(name, [])
        if not ls or not any(modified(x, par) for x in ls) or any(owner(x) is not owner(a) for x in ls):
            continue
        last = max(x.lineno for x in ls)
        loop = enclosing_loop(a, par)
        if loop is not None:
            if any(not inside(x, loop, par) for x in ls):
                continue
            last = max(last, getattr(loop, "end_lineno", last))
        ok = True
        for y in ast.walk(v):
            if isinstance(y, ast.Name):
                for z in stores.get(y.id, ()):
                    if a.lineno < z.lineno <= last and not (loop is not None and inside_target(z, loop, par)):
                        ok = False
            elif isinstance(y, ast.Attribute):
                for z in ast.walk(f):
                    if isinstance(z, ast.Attribute) and isinstance(z.ctx, ast.Store) and z.attr == y.attr and a.lineno < z.lineno <= last:
                        ok = False
        if not ok or first_use_before(a, ls):
            continue
        for x in ls:
            sub = copy.deepcopy(v)
            for k in ast.walk(sub):
                if hasattr(k, "lineno"):
                    k.lineno, k.end_lineno = x.lineno, x.lineno
            replace(par[x], x, sub)
            par[sub] = par[x]
        replace(par[a], a, ast.copy_location(ast.Pass(), a))


def makes(e):
    if isinstance(e, COMP + (ast.List, ast.Dict, ast.Set, ast.Tuple, ast.BinOp, ast.UnaryOp, ast.Compare, ast.Constant, ast.JoinedStr)):
        return True
    if isinstance(e, ast.Call):
        n = e.func.attr if isinstance(e.func, ast.Attribute) else e.func.id if isinstance(e.func, ast.Name) else ""
        return n in COPIES
    if isinstance(e, ast.IfExp):
        return makes(e.body) and makes(e.orelse)
    return False


def lazy(e):
    if isinstance(e, ast.GeneratorExp):
        return True
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
        return e.func.id in LAZY
    return False


def context(n, par, f):
    """The loops, comprehensions and functions around a node that may evaluate it again."""
    out = []
    while n in par and n is not f:
        p = par[n]
        if isinstance(p, ast.For) and n is not p.iter and n not in p.orelse or isinstance(p, ast.While):
            out.append(p)
        elif isinstance(p, COMP):
            if not (p.generators and n is p.generators[0]):
                out.append(p)
        elif isinstance(p, ast.comprehension):
            if n is not p.iter:
                out.append(p)
        elif isinstance(p, FUNC + (ast.Lambda,)) and p is not f:
            out.append(p)
        n = p
    return out


def exclusive(ls, par):
    """No two of the nodes are evaluated in the same run."""
    def branches(n):
        out = {}
        while n in par:
            p = par[n]
            if isinstance(p, ast.If) and n is not p.test:
                out[p] = n in p.body
            elif isinstance(p, ast.IfExp) and n is not p.test:
                out[p] = n is p.body
            n = p
        return out
    bs = [branches(x) for x in ls]
    return all(any(k in b and b[k] != v for k, v in a.items()) for i, a in enumerate(bs) for b in bs[i + 1:])


def kept(x, par):
    p = par.get(x)
    if isinstance(p, ast.Call) and isinstance(p.func, ast.Attribute) and p.func.attr in MUT and x in p.args:
        return not (p.func.attr == "sort")
    if isinstance(p, ast.Assign) and p.value is x:
        return any(isinstance(t, (ast.Subscript, ast.Attribute)) for t in p.targets)
    return isinstance(p, (ast.List, ast.Dict, ast.Tuple)) and kept(p, par) if isinstance(p, ast.AST) else False


def place(v):
    if isinstance(v, ast.Call):
        return isinstance(v.func, ast.Attribute) and v.func.attr == "setdefault" and root(v.func.value) and len(v.args) == 2 and not v.keywords and \
            simple(v.args[0])
    return isinstance(v, (ast.Attribute, ast.Subscript)) and root(v)


def root(v):
    while True:
        if isinstance(v, ast.Name):
            return True
        if isinstance(v, ast.Attribute):
            v = v.value
        elif isinstance(v, ast.Subscript) and simple(v.slice):
            v = v.value
        else:
            return False


def simple(i):
    if isinstance(i, (ast.Constant, ast.Name)):
        return True
    if isinstance(i, ast.UnaryOp):
        return simple(i.operand)
    if isinstance(i, ast.Attribute):
        return simple(i.value)
    return isinstance(i, ast.Tuple) and all(simple(x) for x in i.elts)


def modified(x, par):
    p = par.get(x)
    if isinstance(p, ast.Attribute) and p.value is x and p.attr in MUT:
        c = par.get(p)
        return isinstance(c, ast.Call) and c.func is p
    if isinstance(p, ast.Subscript) and p.value is x:
        while isinstance(p, ast.Subscript):
            if isinstance(p.ctx, (ast.Store, ast.Del)):
                return True
            p = par.get(p)
    return False


def enclosing_loop(n, par):
    while n in par:
        n = par[n]
        if isinstance(n, (ast.For, ast.While)):
            return n
        if isinstance(n, FUNC):
            return None
    return None


def inside(x, loop, par):
    while x in par:
        if x is loop:
            return True
        x = par[x]
    return False


def inside_target(z, loop, par):
    """The store is the loop's own target."""
    if not isinstance(loop, ast.For):
        return False
    return any(y is z for y in ast.walk(loop.target))


def first_use_before(a, ls):
    return any(x.lineno < a.lineno for x in ls)


def replace(parent, old, new):
    for k, v in ast.iter_fields(parent):
        if v is old:
            setattr(parent, k, new)
            return
        if isinstance(v, list):
            for i, y in enumerate(v):
                if y is old:
                    v[i] = new
                    return


def counters(f):
    """while i < bound: ...; i += 1   is   for i in range(i, bound): ..."""
    for n in ast.walk(f):
        for fld in ("body", "orelse", "finalbody"):
            b = getattr(n, fld, None)
            if isinstance(b, list):
                for i, w in enumerate(b):
                    if isinstance(w, ast.While) and not w.orelse:
                        r = counted(w, f)
                        if r is not None:
                            b[i] = r


def counted(w, f):
    t = w.test
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and w.body):
        return None
    if isinstance(t.ops[0], ast.Lt) and isinstance(t.left, ast.Name):
        i, bound = t.left.id, t.comparators[0]
    elif isinstance(t.ops[0], ast.Gt) and isinstance(t.comparators[0], ast.Name):
        i, bound = t.comparators[0].id, t.left
    else:
        return None
    inc = w.body[-1]
    if not (isinstance(inc, ast.AugAssign) and isinstance(inc.op, ast.Add) and isinstance(inc.target, ast.Name) and inc.target.id == i and
            isinstance(inc.value, ast.Constant) and inc.value.value == 1 and type(inc.value.value) is int):
        return None
    rest = w.body[:-1]
    names = {y.id for y in ast.walk(bound) if isinstance(y, ast.Name)}
    if any(isinstance(y, ast.Call) and not (isinstance(y.func, ast.Name) and y.func.id == "len") for y in ast.walk(bound)):
        return None
    attrs = {y.attr for y in ast.walk(bound) if isinstance(y, ast.Attribute)}
    for b in rest:
        for y in ast.walk(b):
            if isinstance(y, ast.Name) and isinstance(y.ctx, (ast.Store, ast.Del)) and (y.id == i or y.id in names):
                return None
            if isinstance(y, (ast.Continue,) + FUNC):
                return None
            if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store) and y.attr in attrs:
                return None
            if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr in MUT and \
                    any(isinstance(z, ast.Name) and z.id in names or isinstance(z, ast.Attribute) and z.attr in attrs for z in ast.walk(y.func.value)):
                return None
    end = w.end_lineno
    for y in ast.walk(f):
        if isinstance(y, ast.Name) and y.id == i and isinstance(y.ctx, ast.Load) and y.lineno > end:
            first = min((z.lineno for z in ast.walk(f) if isinstance(z, ast.Name) and z.id == i and isinstance(z.ctx, ast.Store) and z.lineno > end), default=None)
            if first is None or y.lineno <= first:
                return None
    new = ast.For(target=ast.Name(id=i, ctx=ast.Store()), iter=ast.Call(func=ast.Name(id="range", ctx=ast.Load()),
                  args=[ast.Name(id=i, ctx=ast.Load()), bound], keywords=[]), body=rest or [ast.Pass()], orelse=[], type_comment=None)
    ast.copy_location(new, w)
    ast.fix_missing_locations(new)
    new.end_lineno = w.end_lineno
    return new
