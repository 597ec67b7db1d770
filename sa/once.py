"""One-shot iterators: values of generator expressions, generator functions, map, zip, filter, enumerate and reversed give
their elements once. A forward dataflow over every function counts how often such a value is gone through on some path
(interprocedurally: parameters carry a use count, functions that return such a value create one at each call), and reports
those that are gone through again, tested for emptiness, compared, measured or kept in an attribute that others read."""
from __future__ import annotations

import ast

MAKERS = {"map", "filter", "zip", "enumerate", "reversed"}
EXTERNAL = {"networkx.topological_sort", "networkx.all_simple_paths", "networkx.bfs_edges", "networkx.dfs_edges", "networkx.topological_generations", "re.finditer", "glob.iglob",
            "os.walk", "os.scandir", "csv.reader", "csv.DictReader"}
INERT = {"id", "callable", "print", "type", "repr", "hasattr", "cast"}
BUILTIN_METHODS = set(dir(list)) | set(dir(dict)) | set(dir(set)) | set(dir(str))


class _State:
    def __init__(self, env=None, cnt=None):
        self.env, self.cnt = env if env is not None else {}, cnt if cnt is not None else {}

    def copy(self):
        return _State(dict(self.env), dict(self.cnt))


def _merge(states):
    states = [s for s in states if s is not None]
    if not states:
        return None
    if len(states) == 1:
        return states[0]
    o = states[0].copy()
    for s in states[1:]:
        for k, v in s.env.items():
            o.env[k] = o.env.get(k, frozenset()) | v
        for k, v in s.cnt.items():
            o.cnt[k] = max(o.cnt.get(k, 0), v)
    return o


class Once:
    def __init__(self, program):
        self.p = program
        self.nodes: dict = {}   # qualified name -> the function as written
        self.tops: dict = {}
        self.reads: dict = {}   # attribute name -> functions that read it
        for m in program.modules.values():
            if m.name.startswith("spec."):
                continue
            self._collect(ast.parse(m.source), m.name)
        self.faults: dict = {}  # qualified name -> [(line, message)]
        self._uses: dict = {}
        self._ret: dict = {}
        for q in self.nodes:
            f = program.functions.get(q)
            if f is not None:
                _Flow(self, f, None).run()
                r = ast.unparse(self.nodes[q].returns) if self.nodes[q].returns is not None else ""
                if r.strip("'\"").split("[")[0].split(".")[-1] in ("list", "List", "tuple", "Tuple", "set", "Set", "Sequence", "MutableSequence", "Collection") \
                        and self.returns(f):
                    self.fault(q, self.nodes[q].lineno, f"a one-shot iterator is handed out where {r} is declared")

    def _collect(self, node, prefix):
        for x in node.body if hasattr(node, "body") else ():
            self._coll(x, prefix)

    def _coll(self, x, prefix):
        if isinstance(x, ast.ClassDef):
            for y in x.body:
                self._coll(y, f"{prefix}.{x.name}")
        elif isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
            q = f"{prefix}.{x.name}"
            self.nodes[q] = x
            for y in ast.walk(x):
                if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Load):
                    own = isinstance(y.value, ast.Name) and y.value.id in ("self", "cls")
                    self.reads.setdefault(y.attr, set()).add((q, own))
        elif isinstance(x, (ast.If, ast.Try, ast.With)):
            for y in ast.iter_child_nodes(x):
                self._coll(y, prefix)

    def fault(self, q, line, msg):
        l = self.faults.setdefault(q, [])
        if (line, msg) not in l:
            l.append((line, msg))

    def read_elsewhere(self, attr, f):
        cls = f.cls.qual if f.cls is not None else None
        for q, own in self.reads.get(attr, ()):
            if q == f.qual:
                continue
            if not own or cls is None or q.rpartition(".")[0] == cls or self.p.is_subclass(q.rpartition(".")[0], cls) or self.p.is_subclass(cls, q.rpartition(".")[0]):
                return q
        return None

    def uses(self, f, param):
        """How often the function goes through the value of a parameter (2: more than once, or needs more than an iterator)."""
        k = (f.qual, param)
        if k not in self._uses:
            self._uses[k] = 1
            if f.qual not in self.nodes:
                return 1
            fl = _Flow(self, f, param)
            fl.run()
            self._uses[k] = fl.max_param
        return self._uses[k]

    def returns(self, f):
        """The function hands out a fresh one-shot iterator."""
        if f.qual not in self._ret:
            self._ret[f.qual] = False
            if f.qual in self.nodes and f.node.name not in ("__iter__", "__next__") and not any(
                    d.split("(")[0].split(".")[-1] in ("contextmanager", "asynccontextmanager", "fixture", "field_validator", "model_validator", "wraps") for d in f.decorators):
                if f.is_generator():
                    self._ret[f.qual] = True
                else:
                    fl = _Flow(self, f, None, quiet=True)
                    fl.run()
                    self._ret[f.qual] = fl.returned
        return self._ret[f.qual]


class _Flow:
    def __init__(self, once, f, param, quiet=False):
        self.o, self.f, self.param, self.quiet = once, f, param, quiet or param is not None
        self.node = once.nodes.get(f.qual)
        self.max_param, self.returned = 0, False
        self.origin: dict = {}  # token -> function that returned it
        self.exempt = set()
        a = self.node.args
        self.params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
        self.locals = {n.id for n in ast.walk(self.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | self.params

    def run(self):
        s = _State()
        if self.param:
            s.env[self.param] = frozenset({"param"})
            s.cnt["param"] = 0
        self.brk, self.cont = [], []
        self.block(self.node.body, s)

    # -------------------------------------------------------------- tokens
    def new(self, node, s, by=None):
        t = node
        s.cnt[t] = 0
        if by is not None:
            self.origin[t] = by
        return frozenset({t})

    def report(self, t, node, what):
        if t in self.exempt:
            return
        if t == "param":
            self.max_param = 2
        elif not self.quiet:
            made = t.lineno
            self.o.fault(self.f.qual, node.lineno, f"the one-shot iterator made in line {made} is {what}")
            g = self.origin.get(t)
            if g is not None:
                self.o.fault(g.qual, g.node.lineno, f"hands out a one-shot iterator that {self.f.qual} (line {node.lineno}) finds {what}")

    def consume(self, ts, s, node, n=1):
        for t in ts:
            s.cnt[t] = min(2, s.cnt.get(t, 0) + n)
            if t == "param":
                self.max_param = max(self.max_param, s.cnt[t])
            elif s.cnt[t] >= 2:
                self.report(t, node, "gone through more than once")

    def truth(self, e, s):
        for t in self.ev(e, s):
            self.report(t, e, "tested for emptiness, though it is always true")

    # -------------------------------------------------------------- expressions
    def ev(self, e, s):
        E = frozenset()
        if e is None:
            return E
        if isinstance(e, ast.Name):
            return s.env.get(e.id, E) if isinstance(e.ctx, ast.Load) else E
        if isinstance(e, (ast.GeneratorExp, ast.ListComp, ast.SetComp, ast.DictComp)):
            gens = e.generators
            self.consume(self.ev(gens[0].iter, s), s, gens[0].iter)
            bound = {n.id for g in gens for n in ast.walk(g.target) if isinstance(n, ast.Name)}
            saved = {b: s.env.pop(b) for b in bound if b in s.env}
            inner = [x for g in gens for x in g.ifs] + [g.iter for g in gens[1:]] + ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt])
            iters = {id(g.iter) for g in gens[1:]}
            tests = {id(x) for g in gens for x in g.ifs}
            for _ in range(2):
                for x in inner:
                    if id(x) in tests:
                        self.truth(x, s)
                    elif id(x) in iters:
                        self.consume(self.ev(x, s), s, x)
                    else:
                        self.ev(x, s)
            s.env.update(saved)
            return self.new(e, s) if isinstance(e, ast.GeneratorExp) else E
        if isinstance(e, ast.Call):
            return self.call(e, s)
        if isinstance(e, ast.Starred):
            self.consume(self.ev(e.value, s), s, e)
            return E
        if isinstance(e, ast.IfExp):
            self.truth(e.test, s)
            a, b = s.copy(), s.copy()
            r = self.ev(e.body, a) | self.ev(e.orelse, b)
            m = _merge([a, b])
            s.env, s.cnt = m.env, m.cnt
            return r
        if isinstance(e, ast.BoolOp):
            r = E
            for i, v in enumerate(e.values):
                t = self.ev(v, s)
                if i < len(e.values) - 1:
                    for x in t:
                        self.report(x, v, "tested for emptiness, though it is always true")
                r |= t
            return r
        if isinstance(e, ast.UnaryOp):
            if isinstance(e.op, ast.Not):
                self.truth(e.operand, s)
            else:
                self.ev(e.operand, s)
            return E
        if isinstance(e, ast.Compare):
            sides = [e.left, *e.comparators]
            vals = [self.ev(x, s) for x in sides]
            for i, op in enumerate(e.ops):
                if isinstance(op, (ast.In, ast.NotIn)):
                    self.consume(vals[i + 1], s, e)
                elif isinstance(op, (ast.Eq, ast.NotEq)):
                    for t in vals[i] | vals[i + 1]:
                        if t != "param":
                            self.report(t, e, "compared")
            return E
        if isinstance(e, ast.Subscript):
            for t in self.ev(e.value, s):
                self.report(t, e, "subscripted")
            self.ev(e.slice, s)
            return E
        if isinstance(e, ast.NamedExpr):
            t = self.ev(e.value, s)
            s.env[e.target.id] = t
            return t
        if isinstance(e, ast.YieldFrom):
            self.consume(self.ev(e.value, s), s, e)
            return E
        if isinstance(e, ast.Attribute):
            self.ev(e.value, s)
            if isinstance(e.ctx, ast.Load):
                c = [g for g in self.methods(e) if g.prop]
                if c and all(self.o.returns(g) for g in c):
                    return self.new(e, s, c[0])
            return E
        if isinstance(e, ast.Lambda):
            return E
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                self.ev(x, s)
        return E

    def methods(self, e):
        """Functions of the program that an attribute can be."""
        p, f = self.o.p, self.f
        if isinstance(e.value, ast.Name) and e.value.id in ("self", "cls") and f.cls is not None:
            g = f.cls.find_method(e.attr)
            return [g] if g is not None and not g.abstract else [h for h in p.methods_named(e.attr) if not h.abstract and h.cls is not None and p.is_subclass(h.cls.qual, f.cls.qual)]
        if isinstance(e.value, ast.Name) and e.value.id in self.locals or not isinstance(e.value, ast.Name):
            if e.attr in BUILTIN_METHODS:
                return []
            return [h for h in p.methods_named(e.attr) if not h.abstract and h.cls is not None and not h.cls.is_protocol]
        r = p.resolve_expr(f.module, e.value)
        if r is not None and r[0] == "class":
            g = r[1].find_method(e.attr)
            return [g] if g is not None else []
        if r is not None and r[0] == "module":
            r = p.resolve_in(r[1], e.attr)
            return [r[1]] if r is not None and r[0] == "func" else []
        return []

    def call(self, e, s):
        E = frozenset()
        fn = e.func
        args = [(i, None, a) for i, a in enumerate(e.args)] + [(None, k.arg, k.value) for k in e.keywords]
        name = fn.id if isinstance(fn, ast.Name) and fn.id not in self.locals else None
        targets, cls = [], None
        if name is not None:
            r = self.o.p.resolve(self.f.module, name)
            if r is None:
                if name in MAKERS:
                    for _, _, a in args:
                        self.consume(self.ev(a, s), s, a)
                    return self.new(e, s)
                vals = [self.ev(a, s) for _, _, a in args]
                if name in ("next", "iter", "isinstance", "issubclass"):
                    for t in vals[0] if vals else ():
                        self.exempt.add(t)
                    return vals[0] if name == "iter" and vals else E
                if name in ("bool", "len"):
                    for t in vals[0] if vals else ():
                        self.report(t, e, "tested for emptiness, though it is always true" if name == "bool" else "asked for its length")
                    return E
                if name in INERT:
                    return E
                for v in vals:
                    self.consume(v, s, e)
                return E
            if r[0] == "func":
                targets = [r[1]]
            elif r[0] == "class":
                cls = r[1]
        elif isinstance(fn, ast.Attribute):
            self.ev(fn.value, s)
            r = self.o.p.resolve_expr(self.f.module, fn) if not (isinstance(fn.value, ast.Name) and fn.value.id in self.locals) else None
            if r is not None and r[0] == "class":
                cls = r[1]
            else:
                targets = [g for g in self.methods(fn) if not g.prop]
        else:
            self.ev(fn, s)
        ext = self.o.p.resolve_expr(self.f.module, fn) if isinstance(fn, (ast.Name, ast.Attribute)) else None
        if ext is not None and ext[0] == "ext" and ext[1] in EXTERNAL | {f"itertools.{x}" for x in ("chain", "islice", "takewhile", "dropwhile", "accumulate", "product", "pairwise",
                                                                                                "combinations", "permutations", "starmap", "zip_longest", "groupby", "chain.from_iterable")}:
            for _, _, a in args:
                self.consume(self.ev(a, s), s, a)
            return self.new(e, s)
        for i, k, a in args:
            ts = self.ev(a, s)
            if not ts:
                continue
            if isinstance(fn, ast.Attribute) and not targets and cls is None and fn.attr in ("append", "add", "insert", "setdefault", "put"):
                continue  # handed on
            if cls is not None:
                self.into(cls, i, k, ts, s, e)
            elif targets:
                n = min(self.param_uses(g, i, k, fn) for g in targets)
                self.consume(ts, s, e, n)
            else:
                self.consume(ts, s, e)
        if cls is None and targets and all(self.o.returns(g) for g in targets):
            return self.new(e, s, targets[0])
        return E

    def param_uses(self, g, i, k, fn):
        pos, var, kwo, kwv = g.params()
        if i is not None:
            bound = g.cls is not None and not g.static
            if bound and isinstance(fn, ast.Attribute):
                i += 1
            if i >= len(pos):
                return 0
            return self.o.uses(g, pos[i])
        if k in pos or k in kwo:
            return self.o.uses(g, k)
        return 0

    def into(self, cls, i, k, ts, s, e):
        init = cls.find_method("__init__")
        if init is not None:
            pos, _, kwo, _ = init.params()
            n = pos[i + 1] if i is not None and i + 1 < len(pos) else k if k in pos or k in kwo else None
            self.consume(ts, s, e, self.o.uses(init, n) if n else 0)
        elif cls.is_dataclass or cls.is_namedtuple:
            fs = [x[0] for x in cls.all_fields()]
            n = fs[i] if i is not None and i < len(fs) else k
            reader = next((q for q, own in sorted(self.o.reads.get(n, ())) if q != self.f.qual), None)
            if reader:
                for t in ts:
                    self.report(t, e, f"kept in {cls.name}.{n}, which {reader} reads")
            else:
                self.consume(ts, s, e)
        else:
            self.consume(ts, s, e)

    # -------------------------------------------------------------- statements
    def block(self, body, s):
        for st in body:
            if s is None:
                return None
            s = self.stmt(st, s)
        return s

    def loop(self, st, s):
        outer = self.brk, self.cont
        outs = [s]
        cur = s
        brks = []
        for _ in range(2):
            self.brk, self.cont = [], []
            cur = cur.copy()
            if isinstance(st, ast.While):
                self.truth(st.test, cur)
            else:
                self.bind(st.target, frozenset(), cur)
            end = self.block(st.body, cur)
            cur = _merge([end, *self.cont])
            brks += self.brk
            if cur is None:
                break
            outs.append(cur)
        self.brk, self.cont = outer
        norm = self.block(st.orelse, _merge(outs).copy()) if st.orelse else _merge(outs)
        return _merge([norm, *brks])

    def bind(self, t, ts, s, node=None):
        if isinstance(t, ast.Name):
            s.env[t.id] = ts
        elif isinstance(t, (ast.Tuple, ast.List)):
            if ts:
                self.consume(ts, s, node or t)
            for x in t.elts:
                self.bind(x.value if isinstance(x, ast.Starred) else x, frozenset(), s)
        elif isinstance(t, ast.Attribute):
            self.ev(t.value, s)
            if ts:
                r = self.o.read_elsewhere(t.attr, self.f)
                if r:
                    for x in ts:
                        self.report(x, t, f"kept in .{t.attr}, which {r} reads")
        elif isinstance(t, ast.Subscript):
            self.ev(t.value, s)

    def stmt(self, st, s):
        if isinstance(st, ast.Assign):
            if isinstance(st.value, (ast.Tuple, ast.List)) and len(st.targets) == 1 and isinstance(st.targets[0], (ast.Tuple, ast.List)) and \
                    len(st.value.elts) == len(st.targets[0].elts) and not any(isinstance(x, ast.Starred) for x in st.value.elts + st.targets[0].elts):
                vals = [self.ev(x, s) for x in st.value.elts]
                for t, v in zip(st.targets[0].elts, vals):
                    self.bind(t, v, s)
                return s
            v = self.ev(st.value, s)
            for t in st.targets:
                self.bind(t, v, s, st)
            return s
        if isinstance(st, ast.AnnAssign):
            if st.value is not None:
                self.bind(st.target, self.ev(st.value, s), s, st)
            return s
        if isinstance(st, ast.AugAssign):
            self.consume(self.ev(st.value, s), s, st)
            return s
        if isinstance(st, ast.Expr):
            ts = self.ev(st.value, s)
            if isinstance(st.value, (ast.GeneratorExp, ast.Call)):
                for t in ts:
                    if t is st.value and (isinstance(t, ast.Call) or any(isinstance(x, ast.Call) for x in ast.walk(t.elt))):
                        self.report(t, st, "never gone through, so what it stands for does not happen")
            return s
        if isinstance(st, ast.Return):
            ts = self.ev(st.value, s)
            if any(t != "param" for t in ts):
                self.returned = True
                if any(d.split("(")[0].split(".")[-1] in ("cached_property", "lru_cache", "cache") for d in self.f.decorators):
                    for t in ts:
                        self.report(t, st, "remembered for every later reader")
            return None
        if isinstance(st, ast.Raise):
            self.ev(st.exc, s)
            return None
        if isinstance(st, ast.If):
            self.truth(st.test, s)
            return _merge([self.block(st.body, s.copy()), self.block(st.orelse, s.copy())])
        if isinstance(st, (ast.For, ast.AsyncFor)):
            self.consume(self.ev(st.iter, s), s, st)
            return self.loop(st, s)
        if isinstance(st, ast.While):
            return self.loop(st, s)
        if isinstance(st, ast.Break):
            self.brk.append(s)
            return None
        if isinstance(st, ast.Continue):
            self.cont.append(s)
            return None
        if isinstance(st, (ast.Try, getattr(ast, "TryStar", ast.Try))):
            start = s.copy()
            end = self.block(st.body, s)
            h0 = _merge([start, end])
            if end is not None and st.orelse:
                end = self.block(st.orelse, end)
            outs = [end] + [self.block(h.body, h0.copy()) for h in st.handlers]
            r = _merge(outs)
            if st.finalbody:
                r2 = self.block(st.finalbody, (r or h0).copy())
                return r2 if r is not None else None
            return r
        if isinstance(st, (ast.With, ast.AsyncWith)):
            for i in st.items:
                self.ev(i.context_expr, s)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, frozenset(), s)
            return self.block(st.body, s)
        if isinstance(st, ast.Match):
            self.ev(st.subject, s)
            return _merge([s, *[self.block(c.body, s.copy()) for c in st.cases]])
        if isinstance(st, ast.Assert):
            self.truth(st.test, s)
            return s
        return s
