"""Ownership: what a function modifies in place that its caller or its object handed to it.

A forward alias dataflow over every function follows which parameters (and which of their attributes) a local name may
stand for - as the object itself or as a copy that shares its elements - through assignments, loops, comprehensions, copies
and calls (callee effects and results are mapped back to the arguments). An effect is (parameter, attribute, kind): an item
or element of the container changed in place, or an attribute set. The effects of a function must be among those required
of it (spec/effects.json)."""
from __future__ import annotations

import ast
import json
import os

INPLACE = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "update", "add", "discard", "setdefault", "popitem", "fill", "resize", "put",
           "itemset", "appendleft", "popleft", "move_to_end", "difference_update", "intersection_update", "symmetric_difference_update"}
SAME = {"asarray", "atleast_1d", "atleast_2d", "ravel", "squeeze", "asanyarray", "cast", "reshape", "transpose"}
DEEP = {"deepcopy", "array", "copy_deep", "tolist", "astype", "isel"}
SHALLOW = {"list", "tuple", "set", "dict", "sorted", "frozenset", "reversed", "iter", "copy", "model_copy", "values", "items", "replace", "filter", "defaultdict", "OrderedDict", "deque", "chain"}
ELEM = {"next", "get", "min", "max"}
CONT = ("list", "dict", "set", "NDArray", "ndarray", "List", "Dict", "Set", "Series", "DataFrame", "deque")
E = frozenset()


def load(v, attr=None):
    out = set()
    for (root, a, deep), sh, arr in v:
        if attr is not None and not a and not deep:
            out.add(((root, attr, False), 0, False))
        else:
            out.add(((root, a, True), 0, False))
    return frozenset(out)


def shallow(v):
    return frozenset((p, 1, arr) for p, sh, arr in v)


class Own:
    def __init__(self, once):
        self.once, self.p = once, once.p
        self._eff: dict = {}
        self._ret: dict = {}

    def effects(self, f):
        self._do(f)
        return self._eff[f.qual]

    def result(self, f):
        self._do(f)
        return self._ret[f.qual]

    def _do(self, f):
        if f.qual in self._eff:
            return
        self._eff[f.qual], self._ret[f.qual] = {}, E
        if f.qual in self.once.nodes and not f.abstract:
            fl = _Alias(self, f)
            fl.run()
            self._eff[f.qual], self._ret[f.qual] = fl.eff, frozenset(fl.ret)

    def table(self):
        out = {}
        for q in sorted(self.once.nodes):
            f = self.p.functions.get(q)
            if f is not None:
                out[q] = {"params": [x for x in _params(f)], "effects": sorted({"|".join((r, a, k)) for (r, a, deep, k) in self.effects(f)})}
        return out


def _params(f):
    pos, var, kwo, kwv = f.params()
    return pos + ([var] if var else []) + kwo + ([kwv] if kwv else [])


class _Alias:
    def __init__(self, own, f):
        self.own, self.f, self.once = own, f, own.once
        self.node = own.once.nodes[f.qual]
        self.eff: dict = {}
        self.ret: set = set()
        a = self.node.args
        self.locals = {n.id for n in ast.walk(self.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | set(_params(f))
        self.env = {}
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            ann = ast.unparse(x.annotation) if x.annotation is not None else ""
            arr = any(c in ann for c in CONT)
            self.env[x.arg] = frozenset({((x.arg, "", False), 0, arr)})
        if f.classm and a.args:
            self.env[a.args[0].arg] = E

    def run(self):
        for _ in range(2):  # loops may bring aliases round
            self.block(self.node.body)

    def effect(self, v, kind, line, deep=False):
        for (root, a, d), sh, arr in v:
            if not sh:
                self.eff.setdefault((root, a, d or deep, kind), line)

    # -------------------------------------------------------------- values
    def ev(self, e):
        if e is None:
            return E
        if isinstance(e, ast.Name):
            return self.env.get(e.id, E)
        if isinstance(e, ast.Attribute):
            v = self.ev(e.value)
            c = [g for g in self.meths(e) if g.prop] if v else []
            if c:
                out = set()
                for g in c:
                    ps = _params(g)
                    out |= self.mapped(self.own.result(g), {ps[0]: v} if ps else {})
                return frozenset(out)
            if e.attr in ("T", "flat", "loc", "iloc", "at", "iat"):
                return v
            return load(v, e.attr)
        if isinstance(e, ast.Subscript):
            v = self.ev(e.value)
            self.ev(e.slice)
            return shallow(v) if isinstance(e.slice, ast.Slice) else load(v)
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            out = E
            for x in e.elts:
                out |= shallow(self.ev(x.value) if isinstance(x, ast.Starred) else self.ev(x))
            return out
        if isinstance(e, ast.Dict):
            out = E
            for k, x in zip(e.keys, e.values):
                out |= shallow(self.ev(x))
            return out
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            saved = dict(self.env)
            for g in e.generators:
                self.iterate(g.target, g.iter)
                for x in g.ifs:
                    self.ev(x)
            v = shallow(self.ev(e.value if isinstance(e, ast.DictComp) else e.elt))
            for k in [k for k in self.env if k not in saved]:
                del self.env[k]
            self.env.update(saved)
            return v
        if isinstance(e, ast.IfExp):
            self.ev(e.test)
            return self.ev(e.body) | self.ev(e.orelse)
        if isinstance(e, ast.BoolOp):
            out = E
            for x in e.values:
                out |= self.ev(x)
            return out
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value)
            self.env[e.target.id] = v
            return v
        if isinstance(e, ast.BinOp):
            a, b = self.ev(e.left), self.ev(e.right)
            return shallow(a | b) if isinstance(e.op, (ast.Add, ast.BitOr)) else E
        if isinstance(e, ast.Call):
            return self.call(e)
        if isinstance(e, ast.Lambda):
            return E
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                self.ev(x)
        return E

    def meths(self, e):
        p, f = self.own.p, self.f
        if isinstance(e.value, ast.Name) and e.value.id in ("self", "cls") and f.cls is not None:
            g = f.cls.find_method(e.attr)
            return [g] if g is not None and not g.abstract else []
        if isinstance(e.value, ast.Name) and e.value.id not in self.locals:
            r = p.resolve_expr(f.module, e.value)
            if r is not None and r[0] == "class":
                g = r[1].find_method(e.attr)
                return [g] if g is not None else []
            if r is not None and r[0] == "module":
                r = p.resolve_in(r[1], e.attr)
                return [r[1]] if r is not None and r[0] == "func" else []
            return []
        if e.attr in self.once_builtin():
            return []
        c = [h for h in p.methods_named(e.attr) if not h.abstract and h.cls is not None and not h.cls.is_protocol]
        return c if len(c) <= 6 else []

    def once_builtin(self):
        from .once import BUILTIN_METHODS
        return BUILTIN_METHODS

    def mapped(self, vals, args):
        out = set()
        for (root, a, deep), sh, arr in vals:
            for (r2, a2, d2), sh2, arr2 in args.get(root, ()):
                if sh2 and not a and not deep:
                    out.add(((r2, a2, d2), 1, arr2))
                elif not a2 and not d2:
                    out.add(((r2, a, deep), sh, arr))
                else:
                    out.add(((r2, a2, True if a or deep else d2), sh, arr))
        return out

    def apply(self, g, amap, line):
        for (root, a, deep, kind) in list(self.own.effects(g)):
            for (r2, a2, d2), sh2, arr2 in amap.get(root, ()):
                if sh2 and not deep and (kind == "set" or not a):
                    continue
                if not a2 and not d2:
                    self.eff.setdefault((r2, a, deep, kind), line)
                else:
                    self.eff.setdefault((r2, a2, True, kind), line)
        return frozenset(self.mapped(self.own.result(g), amap))

    def call(self, e):
        fn = e.func
        vals = [self.ev(a.value) if isinstance(a, ast.Starred) else self.ev(a) for a in e.args]
        kws = {k.arg: self.ev(k.value) for k in e.keywords}
        for k in e.keywords:
            if k.arg == "out":
                self.effect(kws["out"], "item", e.lineno)
        if isinstance(fn, ast.Name):
            if fn.id in self.locals:
                return E
            r = self.own.p.resolve(self.f.module, fn.id)
            if r is not None and r[0] == "func":
                return self.apply(r[1], self.amap(r[1], None, vals, kws), e.lineno)
            if r is not None and r[0] == "class":
                init = r[1].find_method("__init__")
                if init is not None:
                    self.apply(init, self.amap(init, E, vals, kws), e.lineno)
                return E
            name = fn.id
            if name == "setattr" and vals:
                a = e.args[1]
                self.setto(vals[0], a.value if isinstance(a, ast.Constant) else "*", e.lineno)
                return E
            allv = frozenset().union(*vals, *kws.values()) if vals or kws else E
            if name in ("zip", "enumerate", "map"):
                return shallow(allv)
            if name in SHALLOW:
                return shallow(allv)
            if name in ELEM:
                return load(allv) if len(vals) == 1 else allv
            if name in SAME:
                return frozenset((p, sh, True) for v in vals[-1:] for p, sh, arr in v)
            return E
        if not isinstance(fn, ast.Attribute):
            self.ev(fn)
            return E
        name = fn.attr
        r = self.own.p.resolve_expr(self.f.module, fn) if not self.localchain(fn) else None
        if r is not None and r[0] == "class":
            init = r[1].find_method("__init__")
            if init is not None:
                self.apply(init, self.amap(init, E, vals, kws), e.lineno)
            return E
        if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super":
            return E
        recv = self.ev(fn.value)
        if r is not None and r[0] == "ext":
            if name in ("copyto", "shuffle", "heappush", "heappop", "heapify", "fill_diagonal", "put", "place"):
                self.effect(vals[0] if vals else E, "item", e.lineno)
            if name in SAME:
                if e.args and self.listy(e.args[0]):
                    return E  # an array of its own
                return frozenset((p, 0, True) for p, sh, arr in (vals[0] if vals else E))
            if name in ("copy", "replace", "chain"):
                return shallow(frozenset().union(*vals)) if vals else E
            return E
        if name == "__setattr__":
            tgt, key = (recv, e.args[0]) if len(e.args) == 2 else (vals[0] if vals else E, e.args[1] if len(e.args) > 1 else None)
            self.setto(tgt, key.value if isinstance(key, ast.Constant) else "*", e.lineno)
            return E
        c = [g for g in self.meths(fn) if not g.prop]
        if c:
            out = E
            for g in c:
                own_ = not (isinstance(fn.value, ast.Name) and fn.value.id not in self.locals and not g.classm)
                out |= self.apply(g, self.amap(g, recv if own_ else None, vals, kws), e.lineno)
            return out
        if name in INPLACE and recv:
            self.effect(recv, "item", e.lineno)
            return load(recv) if name in ("pop", "setdefault", "popleft") else E
        if any(k.arg == "inplace" and isinstance(k.value, ast.Constant) and k.value.value is True for k in e.keywords):
            self.effect(recv, "item", e.lineno)
            return E
        if name in ("append", "extend", "insert", "add", "update"):
            for v in vals:
                self.hold(fn.value, v if name == "extend" else shallow(v))
            return E
        if name in DEEP:
            return E
        if name in SHALLOW:
            return shallow(recv)
        if name in ELEM:
            return load(recv)
        if name in SAME:
            return recv
        return E

    def listy(self, x):
        """Declared to be a list, which an array never shares."""
        if isinstance(x, (ast.List, ast.Tuple, ast.ListComp)):
            return True
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
            c = [g for g in self.meths(x.func) if not g.prop]
            return bool(c) and all(g.node.returns is not None and ast.unparse(g.node.returns).strip("'\"").split("[")[0] in ("list", "List", "tuple") for g in c)
        if isinstance(x, ast.Name):
            a = self.node.args
            return any(y.arg == x.id and y.annotation is not None and ast.unparse(y.annotation).strip("'\"").split("[")[0] in ("list", "List") for y in a.args + a.kwonlyargs)
        return False

    def hold(self, tgt, v):
        """What is put into a container that the function made is shared with it."""
        while isinstance(tgt, (ast.Subscript, ast.Attribute)):
            tgt = tgt.value
        if isinstance(tgt, ast.Name) and tgt.id in self.env and tgt.id not in _params(self.f):
            self.env[tgt.id] |= shallow(v)

    def localchain(self, fn):
        x = fn
        while isinstance(x, ast.Attribute):
            x = x.value
        return not isinstance(x, ast.Name) or x.id in self.locals

    def amap(self, g, recv, vals, kws):
        pos = _params(g)[:len(g.params()[0])]
        m = {}
        i = 0
        if recv is not None and g.cls is not None and not g.static and pos:
            m[pos[0]] = recv if not g.classm else E
            i = 1
        for v in vals:
            if i < len(pos):
                m[pos[i]] = v
            i += 1
        for k, v in kws.items():
            if k:
                m[k] = v
        return m

    # -------------------------------------------------------------- statements
    def setto(self, v, attr, line):
        for (root, a, deep), sh, arr in v:
            if not sh:
                self.eff.setdefault((root, a or attr, deep or bool(a), "set"), line)

    def bind(self, t, v, weak=False):
        if isinstance(t, ast.Name):
            self.env[t.id] = v | (self.env.get(t.id, E) if weak else E)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.bind(x.value if isinstance(x, ast.Starred) else x, load(v), weak)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value)
            self.ev(t.slice)
            self.effect(b, "item", t.lineno)
            self.hold(t.value, v)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value)
            self.setto(b, t.attr, t.lineno)

    def iterate(self, t, it):
        parts = None
        if isinstance(t, (ast.Tuple, ast.List)) and isinstance(it, ast.Call):
            if isinstance(it.func, ast.Name) and it.func.id == "zip" and len(it.args) == len(t.elts) and not any(isinstance(a, ast.Starred) for a in it.args):
                parts = [load(self.ev(a)) for a in it.args]
            elif isinstance(it.func, ast.Name) and it.func.id == "enumerate" and len(t.elts) == 2 and it.args:
                if isinstance(t.elts[1], (ast.Tuple, ast.List)):
                    self.bind(t.elts[0], E)
                    self.iterate(t.elts[1], it.args[0])
                    return
                parts = [E, load(self.ev(it.args[0]))]
            elif isinstance(it.func, ast.Attribute) and it.func.attr == "items" and len(t.elts) == 2:
                parts = [E, load(self.ev(it.func.value))]
        if parts is not None:
            for x, v in zip(t.elts, parts):
                self.bind(x, v)
            return
        self.bind(t, load(self.ev(it)))

    def branch(self, *bodies):
        """Names may stand for what they stand for after any of the bodies."""
        start = dict(self.env)
        outs = []
        for b in bodies:
            self.env = dict(start)
            self.block(b)
            if not (b and isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))) or any(isinstance(b[-1], k) for k in (ast.Continue, ast.Break)):
                outs.append(self.env)
        env = {}
        for o in outs or [start]:
            for k, v in o.items():
                env[k] = env.get(k, E) | v
        self.env = env

    def block(self, body):
        for st in body:
            self.stmt(st)

    def stmt(self, st):
        if isinstance(st, ast.Assign):
            if isinstance(st.value, ast.Tuple) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Tuple) and len(st.value.elts) == len(st.targets[0].elts):
                for t, v in zip(st.targets[0].elts, [self.ev(x) for x in st.value.elts]):
                    self.bind(t, v)
                return
            v = self.ev(st.value)
            for t in st.targets:
                self.bind(t, v)
        elif isinstance(st, ast.AnnAssign):
            if st.value is not None:
                self.bind(st.target, self.ev(st.value))
        elif isinstance(st, ast.AugAssign):
            r = self.ev(st.value)
            t = st.target
            if isinstance(t, ast.Name):
                v = self.env.get(t.id, E)
                self.effect(frozenset(x for x in v if x[2]), "item", st.lineno)
            elif isinstance(t, ast.Subscript):
                v = self.ev(t.value)
                self.effect(v, "item", st.lineno)
                self.ev(t.slice)
                for (root, a, d), sh, arr in v:
                    if sh and arr:
                        self.eff.setdefault((root, a, True, "item"), st.lineno)
            elif isinstance(t, ast.Attribute):
                self.setto(self.ev(t.value), t.attr, st.lineno)
        elif isinstance(st, ast.Delete):
            for t in st.targets:
                if isinstance(t, ast.Subscript):
                    self.effect(self.ev(t.value), "item", st.lineno)
                elif isinstance(t, ast.Attribute):
                    self.setto(self.ev(t.value), t.attr, st.lineno)
        elif isinstance(st, (ast.Expr, ast.Await)):
            if isinstance(st.value, (ast.Yield, ast.YieldFrom)):
                v = self.ev(st.value.value)
                self.ret |= shallow(v)
            else:
                self.ev(st.value)
        elif isinstance(st, ast.Return):
            self.ret |= self.ev(st.value)
        elif isinstance(st, ast.If):
            self.ev(st.test)
            self.branch(st.body, st.orelse)
        elif isinstance(st, (ast.For, ast.AsyncFor)):
            self.iterate(st.target, st.iter)
            self.branch(st.body * 1, [])
            self.branch(st.body, [])
            self.block(st.orelse)
        elif isinstance(st, ast.While):
            self.ev(st.test)
            self.branch(st.body, [])
            self.branch(st.body, [])
            self.block(st.orelse)
        elif isinstance(st, ast.Try):
            self.branch(st.body + st.orelse, *[h.body for h in st.handlers])
            self.block(st.finalbody)
        elif isinstance(st, (ast.With, ast.AsyncWith)):
            for i in st.items:
                v = self.ev(i.context_expr)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, v)
            self.block(st.body)
        elif isinstance(st, ast.Match):
            self.ev(st.subject)
            self.branch(*[c.body for c in st.cases], [])
        elif isinstance(st, (ast.Raise, ast.Assert)):
            for x in ast.iter_child_nodes(st):
                if isinstance(x, ast.expr):
                    self.ev(x)


def check(own, table, attrs, q):
    """Effects of a function that are not required of it: [(line, text)]."""
    f, t = own.p.functions[q], table.get(q)
    if t is None:
        return []
    ps, old = _params(f), t["params"]
    name = dict(zip(ps, old)) if len(ps) == len(old) else {x: x for x in ps if x in old}
    init = f.name in ("__init__", "__post_init__", "__new__", "__setattr__", "__init_subclass__", "__enter__", "__exit__")
    out = []
    for (r, a, deep, kind), line in own.effects(f).items():
        if r not in name or name[r] == "self" and init:
            continue
        if a and a != "*" and a not in attrs:
            continue
        if "|".join((name[r], a, kind)) in t["effects"] or any(x.split("|")[0] == name[r] and x.split("|")[1] == a for x in t["effects"]):
            continue
        what = f"{name[r]}.{a}" if a else name[r]
        out.append((line, f"{what} is modified in place, which belongs to {'the object' if name[r] == 'self' else 'the caller'}" if kind == "item"
                    else f"{what} is set, which belongs to {'the object' if name[r] == 'self' else 'the caller'}"))
    return out


def main():
    from .once import Once
    from .program import Program
    root = os.environ.get("VERIF_REPO", "/repo")
    p = Program(os.path.join(root, "src"))
    o = Own(Once(p))
    attrs = sorted({n.attr for m in p.modules.values() for n in ast.walk(m.tree) if isinstance(n, ast.Attribute)} |
                   {x[0] for c in p.classes.values() for x in c.all_fields()})
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "effects.json"), "w") as f:
        json.dump({"functions": o.table(), "attributes": attrs}, f, indent=0, sort_keys=True)


if __name__ == "__main__":
    main()
