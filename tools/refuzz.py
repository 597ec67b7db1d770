"""Development aid: behaviour-preserving rewrites of /repo/src, applied to a scratch copy, on which all checks must stay quiet.
usage: refuzz.py OUTDIR KIND [SEED] [FRACTION] [MODULE-REGEX]"""
import ast, copy, os, random, re, shutil, sys

OUT, KIND = sys.argv[1], sys.argv[2]
SEED = int(sys.argv[3]) if len(sys.argv) > 3 else 0
FRAC = float(sys.argv[4]) if len(sys.argv) > 4 else 1.0
MODRX = sys.argv[5] if len(sys.argv) > 5 else "."
rnd = random.Random(SEED)


def names(n, ctx=None):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and (ctx is None or isinstance(x.ctx, ctx))}


def has(n, *ts):
    return any(isinstance(x, ts) for x in ast.walk(n))


def terminates(body):
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def neg(t):
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return t.operand
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        m = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}
        k = m.get(type(t.ops[0]))
        if k:
            return ast.Compare(t.left, [k()], t.comparators)
    return ast.UnaryOp(ast.Not(), t)


class Blocks(ast.NodeTransformer):
    """Visit every statement list of a function."""

    def __init__(self):
        self.n = 0

    def go(self):
        return rnd.random() < FRAC

    def fresh(self, base="value"):
        self.n += 1
        return f"{base}_{self.n}_"

    def stmts(self, body):
        return body

    def generic_visit(self, node):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(node, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                nb = []
                for s in b:
                    r = self.visit(s)
                    if r is None:
                        continue
                    nb += r if isinstance(r, list) else [r]
                setattr(node, f, self.stmts(nb))
        for h in getattr(node, "handlers", []) or []:
            self.generic_visit(h)
        for c in getattr(node, "cases", []) or []:
            self.generic_visit(c)
        return node

    def visit_FunctionDef(self, n):
        return n

    def visit_ClassDef(self, n):
        return n


class Invert(Blocks):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)) and self.go():
            n.test, n.body, n.orelse = neg(n.test), n.orelse, n.body
        return n


class EarlyToElse(Blocks):
    def stmts(self, body):
        for i, s in enumerate(body):
            if isinstance(s, ast.If) and not s.orelse and terminates(s.body) and body[i + 1:] and self.go():
                s.orelse = self.stmts(body[i + 1:])
                return body[:i + 1]
        return body


class ElseToEarly(Blocks):
    def stmts(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.If) and s.orelse and terminates(s.body) and self.go():
                rest = s.orelse
                s.orelse = []
                out.append(s)
                out += self.stmts(rest)
            else:
                out.append(s)
        return out


class Temp(Blocks):
    def visit_Return(self, n):
        if n.value is not None and not isinstance(n.value, (ast.Name, ast.Constant)) and self.go():
            t = self.fresh("result")
            return [ast.Assign([ast.Name(t, ast.Store())], n.value), ast.Return(ast.Name(t, ast.Load()))]
        return n

    def visit_If(self, n):
        self.generic_visit(n)
        if not has(n.test, ast.NamedExpr) and self.go() and not getattr(n, "elif_", False):
            for x in n.orelse:
                if isinstance(x, ast.If):
                    x.elif_ = True
            t = self.fresh("condition")
            test, n.test = n.test, ast.Name(t, ast.Load())
            return [ast.Assign([ast.Name(t, ast.Store())], test), n]
        return n


class TempArgs(Blocks):
    """First call argument that is itself a call or operation gets a name (arguments before it must be plain)."""

    def visit_Assign(self, n):
        return self.simple(n)

    def visit_Return(self, n):
        return self.simple(n)

    def simple(self, n):
        v = n.value
        if isinstance(v, ast.Call) and self.go():
            pre = []
            plain = isinstance(v.func, (ast.Name, ast.Attribute)) and not has(v.func, ast.Call)
            for i, a in enumerate(v.args):
                if isinstance(a, ast.Starred) or not plain:
                    return pre + [n]
                if isinstance(a, (ast.Call, ast.BinOp, ast.ListComp, ast.IfExp)):
                    t = self.fresh("arg")
                    pre.append(ast.Assign([ast.Name(t, ast.Store())], a))
                    v.args[i] = ast.Name(t, ast.Load())
            for k in v.keywords:
                if k.arg and plain and isinstance(k.value, (ast.Call, ast.BinOp, ast.ListComp, ast.IfExp)):
                    t = self.fresh(k.arg)
                    pre.append(ast.Assign([ast.Name(t, ast.Store())], k.value))
                    k.value = ast.Name(t, ast.Load())
            return pre + [n]
        return n


class CompToLoop(Blocks):
    def conv(self, n, comp, wrap):
        if len(comp.generators) != 1 or comp.generators[0].is_async or has(comp.elt, ast.Lambda, ast.NamedExpr, ast.Await):
            return n
        g = comp.generators[0]
        t = self.fresh("items")
        body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(t, ast.Load()), "append", ast.Load()), [comp.elt], []))]
        for c in reversed(g.ifs):
            body = [ast.If(c, body, [])]
        return [ast.Assign([ast.Name(t, ast.Store())], ast.List([], ast.Load())), ast.For(g.target, g.iter, body, []), wrap(ast.Name(t, ast.Load()))]

    def ok(self, comp, fn):
        # the loop variables must not shadow other names of the function
        tn = names(comp.generators[0].target)
        return not (tn & self.others(comp))

    def others(self, comp):
        inner = {id(x) for x in ast.walk(comp)}
        return {x.id for x in ast.walk(self.fn) if isinstance(x, ast.Name) and id(x) not in inner} | {a.arg for x in ast.walk(self.fn) if isinstance(x, ast.arguments) for a in x.args + x.kwonlyargs}

    def visit_Return(self, n):
        if isinstance(n.value, ast.ListComp) and self.go() and self.ok(n.value, self.fn):
            return self.conv(n, n.value, lambda v: ast.Return(v))
        return n

    def visit_Assign(self, n):
        if isinstance(n.value, ast.ListComp) and len(n.targets) == 1 and self.go() and self.ok(n.value, self.fn):
            return self.conv(n, n.value, lambda v: ast.Assign(n.targets, v))
        return n


class DictCompToLoop(CompToLoop):
    def conv2(self, comp, wrap, n):
        if len(comp.generators) != 1 or has(comp, ast.Lambda, ast.NamedExpr):
            return n
        g = comp.generators[0]
        t = self.fresh("mapping")
        body = [ast.Assign([ast.Subscript(ast.Name(t, ast.Load()), comp.key, ast.Store())], comp.value)]
        for c in reversed(g.ifs):
            body = [ast.If(c, body, [])]
        return [ast.Assign([ast.Name(t, ast.Store())], ast.Dict([], [])), ast.For(g.target, g.iter, body, []), wrap(ast.Name(t, ast.Load()))]

    def visit_Return(self, n):
        if isinstance(n.value, ast.DictComp) and self.go() and self.ok(n.value, self.fn):
            return self.conv2(n.value, lambda v: ast.Return(v), n)
        return n

    def visit_Assign(self, n):
        if isinstance(n.value, ast.DictComp) and len(n.targets) == 1 and self.go() and self.ok(n.value, self.fn):
            return self.conv2(n.value, lambda v: ast.Assign(n.targets, v), n)
        return n


class AnyAllSum(CompToLoop):
    def stmts(self, body):
        out = []
        for s in body:
            v = getattr(s, "value", None) if isinstance(s, (ast.Return, ast.Assign)) else None
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("any", "all", "sum") and len(v.args) == 1 and isinstance(v.args[0], ast.GeneratorExp) \
                    and len(v.args[0].generators) == 1 and self.ok(v.args[0], self.fn) and not has(v.args[0], ast.NamedExpr, ast.Lambda) and self.go() and \
                    not any(isinstance(x, (ast.For, ast.While)) and s in ast.walk(x) for x in []):
                c = v.args[0]
                g = c.generators[0]
                t = self.fresh("total" if v.func.id == "sum" else "found")
                if v.func.id == "sum":
                    init = ast.Constant(0)
                    b = [ast.AugAssign(ast.Name(t, ast.Store()), ast.Add(), c.elt)]
                else:
                    init = ast.Constant(v.func.id == "all")
                    test = c.elt if v.func.id == "any" else ast.UnaryOp(ast.Not(), c.elt)
                    b = [ast.If(test, [ast.Assign([ast.Name(t, ast.Store())], ast.Constant(v.func.id == "any")), ast.Break()], [])]
                for q in reversed(g.ifs):
                    b = [ast.If(q, b, [])]
                out += [ast.Assign([ast.Name(t, ast.Store())], init), ast.For(g.target, g.iter, b, [])]
                s.value = ast.Name(t, ast.Load())
            out.append(s)
        return out


class IfExpToIf(Blocks):
    def visit_Return(self, n):
        if isinstance(n.value, ast.IfExp) and self.go():
            return ast.If(n.value.test, [ast.Return(n.value.body)], [ast.Return(n.value.orelse)])
        return n

    def visit_Assign(self, n):
        if isinstance(n.value, ast.IfExp) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and self.go():
            return ast.If(n.value.test, [ast.Assign(n.targets, n.value.body)], [ast.Assign(copy.deepcopy(n.targets), n.value.orelse)])
        return n


class LoopToComp(Blocks):
    def stmts(self, body):
        out = []
        i = 0
        while i < len(body):
            s = body[i]
            nx = body[i + 1] if i + 1 < len(body) else None
            if isinstance(s, (ast.Assign, ast.AnnAssign)) and isinstance(s.value, ast.List) and not s.value.elts and isinstance(nx, ast.For) and not nx.orelse and len(nx.body) == 1 and self.go():
                t = s.targets[0] if isinstance(s, ast.Assign) else s.target
                b, ifs = nx.body[0], []
                while isinstance(b, ast.If) and not b.orelse and len(b.body) == 1:
                    ifs.append(b.test)
                    b = b.body[0]
                if isinstance(t, ast.Name) and isinstance(b, ast.Expr) and isinstance(b.value, ast.Call) and isinstance(b.value.func, ast.Attribute) and b.value.func.attr == "append" and \
                        isinstance(b.value.func.value, ast.Name) and b.value.func.value.id == t.id and t.id not in names(nx.iter) | names(b.value.args[0]):
                    out.append(ast.Assign([t], ast.ListComp(b.value.args[0], [ast.comprehension(nx.target, nx.iter, ifs, 0)])))
                    i += 2
                    continue
            out.append(s)
            i += 1
        return out


class EnumToRange(Blocks):
    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, ast.Call) and ast.unparse(n.iter.func) == "enumerate" and len(n.iter.args) == 1 and isinstance(n.target, ast.Tuple) and len(n.target.elts) == 2 and \
                isinstance(n.target.elts[0], ast.Name) and isinstance(n.iter.args[0], ast.Name) and self.go():
            xs = n.iter.args[0]
            return ast.For(n.target.elts[0], ast.Call(ast.Name("range", ast.Load()), [ast.Call(ast.Name("len", ast.Load()), [xs], [])], []),
                           [ast.Assign([n.target.elts[1]], ast.Subscript(xs, ast.Name(n.target.elts[0].id, ast.Load()), ast.Load()))] + n.body, n.orelse)
        return n


class ContinueToIf(Blocks):
    """for x: if c: continue; rest -> for x: if not c: rest"""

    def visit_For(self, n):
        self.generic_visit(n)
        for i, s in enumerate(n.body):
            if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.Continue) and n.body[i + 1:] and self.go():
                n.body = n.body[:i] + [ast.If(neg(s.test), n.body[i + 1:], [])]
                break
        return n


class Reorder(Blocks):
    """Swap adjacent simple assignments that do not depend on each other and call nothing with effects."""

    def stmts(self, body):
        i = 0
        while i + 1 < len(body):
            a, b = body[i], body[i + 1]
            if all(isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and not has(s.value, ast.Call, ast.Await, ast.Yield, ast.NamedExpr, ast.Subscript, ast.BinOp) for s in (a, b)):
                if not (names(a, ast.Store) & names(b) or names(b, ast.Store) & names(a)) and self.go():
                    body[i], body[i + 1] = b, a
                    i += 1
            i += 1
        return body


class KwReorder(ast.NodeTransformer):
    def visit_Call(self, n):
        self.generic_visit(n)
        if len(n.keywords) > 1 and all(k.arg for k in n.keywords) and not any(has(k.value, ast.Call) for k in n.keywords) and rnd.random() < FRAC:
            n.keywords = n.keywords[::-1]
        return n


class FlipCompare(ast.NodeTransformer):
    def visit_Compare(self, n):
        self.generic_visit(n)
        m = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
        if len(n.ops) == 1 and type(n.ops[0]) in m and rnd.random() < FRAC:
            return ast.Compare(n.comparators[0], [m[type(n.ops[0])]()], [n.left])
        return n


class DeMorgan(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.BoolOp) and rnd.random() < FRAC:
            other = ast.Or() if isinstance(n.test.op, ast.And) else ast.And()
            n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(other, [neg(v) for v in n.test.values]))
        return n


class AndToNested(Blocks):
    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and not n.orelse and self.go():
            b = n.body
            for v in reversed(n.test.values):
                b = [ast.If(v, b, [])]
            return b[0]
        return n


class AugToPlain(Blocks):
    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name) and isinstance(n.op, (ast.Add, ast.Sub, ast.Mult)) and not isinstance(n.value, (ast.List, ast.ListComp)) and self.go():
            return ast.Assign([n.target], ast.BinOp(ast.Name(n.target.id, ast.Load()), n.op, n.value))
        return n


class InlineTemp(Blocks):
    """x = e; return f(x) with x used once, directly after."""

    def stmts(self, body):
        i = 0
        while i + 1 < len(body):
            a, b = body[i], body[i + 1]
            if isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name) and isinstance(b, (ast.Return, ast.Assign)) and b.value is not None and not has(a.value, ast.NamedExpr, ast.Yield):
                x = a.targets[0].id
                uses = [n for n in ast.walk(self.fn) if isinstance(n, ast.Name) and n.id == x]
                inb = [n for n in ast.walk(b.value) if isinstance(n, ast.Name) and n.id == x]
                first = next((n for n in ast.walk(b.value) if isinstance(n, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp, ast.IfExp, ast.BoolOp))), None)
                calls = [n for n in ast.walk(b.value) if isinstance(n, ast.Call)]
                if len(uses) == 2 and len(inb) == 1 and first is None and len(calls) <= 1 and self.go():
                    tgt = inb[0]

                    class R(ast.NodeTransformer):
                        def visit_Name(s, n):
                            return a.value if n is tgt else n
                    b.value = R().visit(b.value)
                    del body[i]
                    continue
            i += 1
        return body


class MatchToIf(Blocks):
    def visit_Match(self, n):
        self.generic_visit(n)
        subj = ast.unparse(n.subject)
        if not isinstance(n.subject, (ast.Name, ast.Attribute)) or not self.go():
            return n
        chain = []
        for c in n.cases:
            p = c.pattern
            if c.guard is not None:
                return n
            if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
                t = ast.Call(ast.Name("isinstance", ast.Load()), [copy.deepcopy(n.subject), p.cls], [])
            elif isinstance(p, ast.MatchValue):
                t = ast.Compare(copy.deepcopy(n.subject), [ast.Eq()], [p.value])
            elif isinstance(p, ast.MatchAs) and p.pattern is None and p.name is None:
                t = None
            else:
                return n
            chain.append((t, c.body))
        out = []
        for t, b in reversed(chain):
            out = b if t is None else [ast.If(t, b, out)]
        return out


def rename_locals(fn):
    a = fn.args
    params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | ({a.vararg.arg} if a.vararg else set()) | ({a.kwarg.arg} if a.kwarg else set())
    if has(fn, ast.Global, ast.Nonlocal, ast.MatchAs, ast.MatchStar, ast.ClassDef) or any(isinstance(x, (ast.FunctionDef, ast.Lambda)) for x in ast.walk(fn) if x is not fn):
        return fn
    stores = names(fn, ast.Store) - params
    if not stores or any(isinstance(x, ast.Call) and ast.unparse(x.func) in ("locals", "vars", "eval") for x in ast.walk(fn)):
        return fn
    m = {s: f"{s}_renamed" for s in stores}
    for x in ast.walk(fn):
        if isinstance(x, ast.Name) and x.id in m:
            x.id = m[x.id]
        elif isinstance(x, ast.ExceptHandler) and x.name in m:
            x.name = m[x.name]
    for x in ast.walk(fn):
        if isinstance(x, ast.ExceptHandler) and x.name and f"{x.name}_renamed" in m.values():
            pass
    return fn


def helper(fn, cls):
    """Move the body into a new private function."""
    a = fn.args
    ds = [ast.unparse(d).split("(")[0].split(".")[-1] for d in fn.decorator_list]
    if a.vararg or a.kwarg or has(fn, ast.Yield, ast.YieldFrom, ast.Nonlocal, ast.Global, ast.AsyncFunctionDef) or "super()" in ast.unparse(fn) or fn.name.startswith("__"):
        return None
    if set(ds) - {"staticmethod", "classmethod", "property", "cached_property", "computed_field", "override"}:
        return None
    body = fn.body
    doc = []
    if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
        doc, body = body[:1], body[1:]
    if not body or isinstance(body[0], ast.Pass) or len(body) == 1 and isinstance(body[0], (ast.Raise, ast.Expr)):
        return None
    if "abstractmethod" in ds or "overload" in ds:
        return None
    allargs = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    if any(x.startswith("__") for x in allargs):
        return None
    nm = f"_h{fn.name}_impl"
    new = copy.deepcopy(fn)
    new.name = nm
    new.body = copy.deepcopy(body)
    new.args.defaults, new.args.kw_defaults = [], [None] * len(a.kwonlyargs)
    new.decorator_list = [d for d in fn.decorator_list if ast.unparse(d) in ("staticmethod", "classmethod")]
    static = "staticmethod" in ds
    if cls is None:
        call = ast.Name(nm, ast.Load())
        rest = allargs
    elif static:
        call = ast.Attribute(ast.Name(cls.name, ast.Load()), nm, ast.Load())
        rest = allargs
    else:
        call = ast.Attribute(ast.Name(allargs[0], ast.Load()), nm, ast.Load())
        rest = allargs[1:]
    nk = len(a.kwonlyargs)
    pos, kwo = (rest[:-nk], rest[-nk:]) if nk else (rest, [])
    fn.body = doc + [ast.Return(ast.Call(call, [ast.Name(x, ast.Load()) for x in pos], [ast.keyword(x, ast.Name(x, ast.Load())) for x in kwo]))]
    return new


def tailhelper(fn, cls, k):
    """Move the statements after position k into a new private method/function taking the live locals."""
    a = fn.args
    ds = [ast.unparse(d).split("(")[0].split(".")[-1] for d in fn.decorator_list]
    if a.vararg or a.kwarg or has(fn, ast.Yield, ast.YieldFrom, ast.Nonlocal, ast.Global, ast.ClassDef) or "super()" in ast.unparse(fn) or (fn.name.startswith("__") and fn.name != "__init__"):
        return None
    if set(ds) - {"property", "cached_property", "override", "staticmethod", "classmethod"}:
        return None
    if len(fn.body) < 3:
        return None
    cut = max(1, len(fn.body) // 2)
    if isinstance(fn.body[0], ast.Expr) and cut < 2:
        cut = 2
    head, tail = fn.body[:cut], fn.body[cut:]
    if not tail or any(isinstance(x, ast.FunctionDef) for s in head for x in ast.walk(s)):
        return None
    allargs = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    defs = set(allargs) | {x.id for s in head for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    comp = {x.id for s in head for c in ast.walk(s) if isinstance(c, ast.comprehension) for x in ast.walk(c.target) if isinstance(x, ast.Name)}
    used = {x.id for s in tail for x in ast.walk(s) if isinstance(x, ast.Name)}
    live = sorted((defs - comp) & used)
    # conditionally defined in the head
    sure = set(allargs)
    for s in head:
        if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            sure |= names(s, ast.Store)
    if not set(live) <= sure:
        return None
    selfn = allargs[0] if cls is not None and "staticmethod" not in ds and allargs else None
    params = ([selfn] if selfn else []) + [x for x in live if x != selfn]
    nm = f"_{fn.name.strip(chr(95))}_rest{fn.lineno}"
    new = ast.FunctionDef(name=nm, args=ast.arguments([], [ast.arg(x) for x in params], None, [], [], None, []), body=copy.deepcopy(tail),
                          decorator_list=[ast.Name(d, ast.Load()) for d in ds if d in ("staticmethod", "classmethod")], returns=None, type_params=[])
    if cls is None:
        call = ast.Name(nm, ast.Load())
    elif selfn is None:
        call = ast.Attribute(ast.Name(cls.name, ast.Load()), nm, ast.Load())
    else:
        call = ast.Attribute(ast.Name(selfn, ast.Load()), nm, ast.Load())
    c = ast.Call(call, [], [ast.keyword(x, ast.Name(x, ast.Load())) for x in params if x != selfn])
    fn.body = head + ([ast.Expr(c)] if fn.name == "__init__" else [ast.Return(c)])
    return new


def const_names(tree):
    """Numeric literals inside functions become module constants."""
    found = {}
    for fn in ast.walk(tree):
        if isinstance(fn, ast.FunctionDef):
            for n in ast.walk(ast.Module(fn.body, [])):
                for f, v in ast.iter_fields(n):
                    if isinstance(n, (ast.BinOp, ast.Compare, ast.Call, ast.Return, ast.keyword)) and isinstance(v, ast.Constant) and type(v.value) in (int, float) and rnd.random() < FRAC:
                        c = f"_CONSTANT_{re.sub(r'[^0-9a-z]', '_', repr(v.value))}"
                        found[c] = v.value
                        setattr(n, f, ast.Name(c, ast.Load()))
    pos = 0
    for i, s in enumerate(tree.body):
        if isinstance(s, (ast.Import, ast.ImportFrom)) or isinstance(s, ast.Expr) and i == 0:
            pos = i + 1
    for k, v in found.items():
        tree.body.insert(pos, ast.Assign([ast.Name(k, ast.Store())], ast.Constant(v)))


def rename_private(tree, src):
    """Private methods/functions used only in this module get another name."""
    priv = {f.name for f in ast.walk(tree) if isinstance(f, ast.FunctionDef) and re.match(r"^_[a-z]", f.name) and f.name not in USED_ELSEWHERE(src)}
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef) and n.name in priv:
            n.name += "_new"
        elif isinstance(n, ast.Attribute) and n.attr in priv:
            n.attr += "_new"
        elif isinstance(n, ast.Name) and n.id in priv:
            n.id += "_new"


ALLSRC = {}


def USED_ELSEWHERE(path):
    out = set()
    for p, s in ALLSRC.items():
        if p != path:
            out |= set(re.findall(r"\b_[a-z]\w*", s))
    return out


KINDS = {"invert": Invert, "earlyelse": EarlyToElse, "elseearly": ElseToEarly, "temp": Temp, "tempargs": TempArgs, "comploop": CompToLoop, "dictloop": DictCompToLoop, "anyloop": AnyAllSum,
         "ifexp": IfExpToIf, "loopcomp": LoopToComp, "enumrange": EnumToRange, "continueif": ContinueToIf, "reorder": Reorder, "andnest": AndToNested, "aug": AugToPlain,
         "inline": InlineTemp, "matchif": MatchToIf}
EXPR = {"kw": KwReorder, "flip": FlipCompare, "demorgan": DeMorgan}


def main():
    if os.path.exists(OUT):
        shutil.rmtree(OUT)
    os.makedirs(OUT)
    shutil.copytree(os.environ.get("REFUZZ_SRC", "/repo") + "/src", OUT + "/src", ignore=shutil.ignore_patterns("__pycache__", "*.jar", "tests", "*.json"))
    base = os.environ.get("REFUZZ_SRC", "/repo") + "/src"
    files = [os.path.join(d, f) for d, _, fs in os.walk(base) for f in fs if f.endswith(".py") and "/tests/" not in d and "/fixtures" not in d]
    if KIND in ("private",):
        for f in files:
            ALLSRC[f] = open(f).read()
    for f in files:
        mod = os.path.relpath(f, base)[:-3].replace("/", ".")
        if not re.search(MODRX, mod):
            continue
        tree = ast.parse(open(f).read())
        if KIND == "const":
            const_names(tree)
        elif KIND == "private":
            rename_private(tree, f)
        elif KIND in EXPR:
            EXPR[KIND]().visit(tree)
        else:
            def walk(body, cls):
                add = []
                for n in body:
                    if isinstance(n, ast.ClassDef):
                        bases = [ast.unparse(b) for b in n.bases]
                        walk(n.body, n)
                    elif isinstance(n, ast.FunctionDef):
                        if KIND == "rename":
                            if rnd.random() < FRAC:
                                rename_locals(n)
                        elif KIND in ("helper", "tail"):
                            if rnd.random() < FRAC:
                                h = helper(n, cls) if KIND == "helper" else tailhelper(n, cls, 0)
                                if h is not None and not any(isinstance(x, ast.FunctionDef) and x.name == h.name for x in body + [y for _, y in add]):
                                    add.append((n, h))
                        else:
                            k = KINDS[KIND]()
                            k.fn = n
                            k.generic_visit(n)
                for n, h in add:
                    body.insert(body.index(n) + 1, h)
            walk(tree.body, None)
        ast.fix_missing_locations(tree)
        out = ast.unparse(tree)
        compile(out, f, "exec")
        open(os.path.join(OUT, "src", os.path.relpath(f, base)), "w").write(out)


main()
