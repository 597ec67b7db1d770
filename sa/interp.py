"""Abstract interpreter over the AST: computes, for a function, the normalised value-flow
terms of its result, the conditions under which it raises, its stores and its effects.

Control flow is merged with gated joins (one pass, no path enumeration); loops are summarised
as folds / comprehensions; helpers are analysed in place at their call sites.  Nothing of the
analysed program is ever executed.
"""
from __future__ import annotations

import ast
import builtins

from . import terms as tm
from .program import ClassInfo, FuncInfo, Module, Program, union
from .terms import (FALSE, NONE, ONE, TRUE, UNDEF, ZERO, T, as_cond, mk, mk_and, mk_eq, mk_ite, mk_not, mk_or, num, string)

RAISE = "raise"


def mk_text(*parts) -> T:
    """The concatenation of texts and of values written out as text."""
    out = []
    for x in parts:
        for y in (x.args if x.op == "fstr" else (x,)):
            if y.op == "call" and y.args[0] == "builtins.str" and len(y.args) == 2:
                y = y.args[1]
            if y.op == "str" and out and out[-1].op == "str":
                out[-1] = string(out[-1].args[0] + y.args[0])
            elif not (y.op == "str" and not y.args[0]):
                out.append(y)
    n = 1
    for y in out:
        if y.op == "ite":
            n *= len(list(tm.leaves(y)))
    if 1 < n <= 6:
        i = next(i for i, y in enumerate(out) if y.op == "ite")
        return tm.map_leaves(out[i], lambda l: mk_text(*out[:i], l, *out[i + 1:]) if l.op != "raise" else l)
    if not out:
        return string("")
    return out[0] if len(out) == 1 and out[0].op == "str" else mk("fstr", *out)
import datetime as _dt
_COMMON = set(dir(str)) | set(dir(list)) | set(dir(dict)) | set(dir(_dt.datetime)) | set(dir(set)) | {
    "sum", "min", "max", "mean", "any", "all", "tolist", "astype", "reshape", "flatten", "cumsum", "fill"}


class Budget(Exception):
    pass


class Policy:
    """What is analysed in place and what stays an opaque operation."""

    def __init__(self, home=(), opaque=(), inline=(), inventory=frozenset(), deep=False, max_depth=10, inline_props=(),
                 subclass_exact=()):
        self.home = set(home)
        self.opaque = set(opaque)
        self.inline = set(inline)
        self.inventory = inventory
        self.deep = deep
        self.max_depth = max_depth
        self.modular = frozenset()

    def want(self, f: FuncInfo) -> bool:
        q = f.qual
        if q in self.modular:
            return False
        for o in self.opaque:
            if q == o or q.endswith("." + o):
                return False
        if self.deep:
            return True
        for o in self.inline:
            if q == o or q.endswith("." + o) or q.startswith(o + "."):
                return True
        if f.module.name in self.home:
            return True
        if q not in self.inventory:
            return True
        if f.name.startswith("_") and not f.name.startswith("__"):
            return False
        return False


class Env(dict):
    """Scope with optional parent (closures)."""
    __slots__ = ("parent",)

    def __init__(self, *a, parent=None):
        super().__init__(*a)
        self.parent = parent

    def lookup(self, k):
        e = self
        while e is not None:
            if k in e:
                return e[k]
            e = e.parent
        return None

    def copy(self):
        return Env(self, parent=self.parent)


class State:
    def __init__(self, module, cls=None, env=None, heap=None, depth=0, stack=(), self_exact=None):
        self.module: Module = module
        self.cls: ClassInfo | None = cls
        self.env = env if env is not None else Env()
        self.heap: dict = heap if heap is not None else {}
        self.live = TRUE
        self.base = TRUE          # condition under which this body is entered
        self.rets: list = []      # (guard, value, heap)
        self.raises: list = []    # (guard, exc term, lineno)
        self.effects: list = []   # (guard, effect term)
        self.calls: list = []
        self.depth = depth
        self.stack = stack
        self.loopctl: list = []   # (kind, guard, env, heap) for break/continue of the innermost loop
        self.excvars: list = []
        self.nonlocals: set = set()


class Summary:
    def __init__(self, func, ret, raises, effects, heap, heap0, types):
        self.func, self.ret, self.raises, self.effects, self.heap, self.heap0 = func, ret, raises, effects, heap, heap0

    def outcome(self) -> T:
        r = self.ret
        for g, e, _ in reversed(self.raises):
            r = mk_ite(g, e, r)
        return r

    def stores(self):
        return {k: v for k, v in self.heap.items() if self.heap0.get(k) is not v}


MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "update", "add", "discard",
            "popitem", "appendleft", "popleft", "setdefault", "move_to_end"}
DROP_RECEIVERS = {"logger", "logging", "log", "warnings", "_logger", "LOGGER"}
PURE_BUILTINS = {"len", "isinstance", "str", "int", "float", "bool", "list", "tuple", "dict", "set", "id", "hash", "repr", "type", "abs", "min",
                 "max", "sum", "sorted", "range", "zip", "enumerate", "print", "callable", "round", "any", "all", "object", "frozenset", "iter", "hasattr", "getattr"}

_FLOATS = (mk("glob", "numpy.float64"), mk("glob", "builtins.float"), tm.const("float"), tm.const("float64"), NONE, mk("glob", "builtins.object"),
           mk("glob", "numpy.floating"), mk("glob", "numpy.float_"), mk("glob", "numpy.double"))
_STR, _FLOAT, _INT = ("c", "builtins.str"), ("c", "builtins.float"), ("c", "builtins.int")
NP_IDENT = {"numpy.asarray", "numpy.array", "numpy.atleast_1d", "numpy.float64", "numpy.asfarray", "numpy.copy"}
_OPERATORS = {"operator.add": ast.Add, "operator.sub": ast.Sub, "operator.mul": ast.Mult, "operator.truediv": ast.Div, "operator.pow": ast.Pow}
_BINOPS = {ast.Add: "__add__", ast.Sub: "__sub__", ast.Mult: "__mul__", ast.Div: "__truediv__", ast.Pow: "__pow__",
           ast.FloorDiv: "__floordiv__", ast.Mod: "__mod__", ast.MatMult: "__matmul__", ast.BitAnd: "__and__", ast.BitOr: "__or__"}
_CMPS = {ast.Lt: "__lt__", ast.LtE: "__le__", ast.Gt: "__gt__", ast.GtE: "__ge__"}


class Interp:
    def __init__(self, program: Program, policy: Policy, budget=400000):
        self.p = program
        self.policy = policy
        self.symtypes: dict = {}
        self.rettypes: dict = {}
        self.exact: set = set()      # terms whose dynamic class is exactly their static class
        self.nonnull: set = set()
        self.closures: list = []
        self.steps = budget
        self.before_raise: dict = {}  # stores on objects of others that a refusal leaves behind
        self.analysed: set = set()
        self.unknown: list = []
        self._constmemo: dict = {}
        self._alive: list = []
        self._constbusy: set = set()
        self._typememo: dict = {}
        self._initmemo: dict = {}
        self._lamdepth = 0
        self.zips = []  # sequences iterated together, and whether unequal lengths are refused
        self.open_closures = False  # a function that is returned is compared by its body
        self._carry = 0
        tm.set_class_oracle(program.is_subclass, self._disjoint)
        tm._assume_memo.clear(); tm._ite_memo.clear(); tm._lift_memo.clear()

    def _disjoint(self, a, b):
        ca, cb = self.p.classes.get(a), self.p.classes.get(b)
        simple = ("builtins.", "datetime.", "numpy.", "pandas.")
        def known(q, c):
            return c is not None or q.startswith(simple)
        if not (known(a, ca) and known(b, cb)):
            return False
        if self.p.is_subclass(a, b) or self.p.is_subclass(b, a):
            return False
        for c in (ca, cb):
            if c is not None and c.is_protocol:
                return False
        if ca is not None and cb is not None:
            for s in ca.subclasses():
                if self.p.is_subclass(s.qual, b):
                    return False
        numeric = {"builtins.int", "builtins.float", "numpy.float64", "numbers.Number", "builtins.bool"}
        if a in numeric and b in numeric:
            return False
        return True

    def tick(self, n=1):
        self.steps -= n
        if self.steps < 0:
            raise Budget("analysis budget exhausted")

    # ================================================================ entry
    def run(self, f: FuncInfo, args: dict | None = None, cls: ClassInfo | None = None, names=None) -> Summary:
        """Analyse function f with symbolic parameters (optionally renamed by position through `names`)."""
        cls = cls or f.cls
        env = Env()
        pos, var, kwo, kwv = f.params()
        allp = pos + ([var] if var else []) + kwo + ([kwv] if kwv else [])
        st = State(f.module, f.cls, env, {}, 0, (f.qual,))
        for i, pn in enumerate(allp):
            if args and pn in args:
                env[pn] = args[pn]
                continue
            nm = names[i] if names and i < len(names) else pn
            if i == 0 and f.cls is not None and not f.static and not f.classm and f.name != "__new__":
                s = tm.sym("self")
                self.symtypes[s] = ("c", cls.qual)
                self.exact.add(s)
            elif i == 0 and f.classm:
                s = mk("glob", cls.qual)
            else:
                s = tm.sym(nm)
                ann = self._ann(f, pn)
                if ann is not None:
                    ty = self.p.parse_type(f.module, ann, f.cls)
                    if pn == var:
                        ty = ("list", ty)
                    elif pn == kwv:
                        ty = ("dict", ("c", "builtins.str"), ty)
                    if ty is not None:
                        self.symtypes[s] = ty
                        if _ann_nonnull(ann) and self._default_of(f, pn) is not NONE:
                            self.nonnull.add(s)
            env[pn] = s
        self._runbody(f, st)
        return self._summary(f, st)

    def _ann(self, f, pn):
        a = f.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else []):
            if x.arg == pn:
                return x.annotation
        return None

    def _runbody(self, f, st):
        self.analysed.add(f.qual)
        if f.is_generator():
            st.env["$yield"] = tm.mk_seq(())
        self.block(f.node.body, st)

    def _summary(self, f, st) -> Summary:
        rets = list(st.rets)
        if st.live is not FALSE:
            v = st.env.get("$yield") if f.is_generator() else NONE
            rets.append((st.live, v, st.heap))
        elif f.is_generator():
            pass
        if not rets:
            ret = mk("never")
            heap = st.heap
        else:
            ret = rets[-1][1]
            heap = dict(rets[-1][2])
            for g, v, h in reversed(rets[:-1]):
                ret = mk_ite(g, v, ret)
                keys = set(h) | set(heap)
                heap = {k: mk_ite(g, h.get(k, self._heap0(k)), heap.get(k, self._heap0(k))) for k in keys}
        if ret.op == "clo" and self.open_closures:
            ret = self.leak(ret, State(f.module, f.cls, st.env, dict(heap), 0, st.stack))
        return Summary(f, ret, list(st.raises), list(st.effects), heap, {k: self._heap0(k) for k in heap}, None)

    def _heap0(self, key):
        o, a = key
        return mk("attr", o, a)

    # ================================================================ types
    def typeof(self, t: T):
        r = self._typememo.get(t, 0)
        if r != 0:
            return r
        if t in self.symtypes:
            return self.symtypes[t]
        if t in self.rettypes:
            return self.rettypes[t]
        self._typememo[t] = None
        r = self._typeof(t)
        if r is None:
            del self._typememo[t]
        else:
            self._typememo[t] = r
        return r

    def _typeof(self, t: T):
        op, a = t.op, t.args
        if op == "attr":
            return self.attr_type(self.typeof(a[0]), a[1])
        if op == "new":
            return ("c", a[0])
        if op == "enum":
            return ("c", a[0].rsplit(".", 1)[0])
        if op == "num":
            return ("c", "builtins.float")
        if op in ("str", "fstr", "fmt", "fmtcall", "join"):
            return ("c", "builtins.str")
        if op == "bool":
            return ("c", "builtins.bool")
        if op == "none":
            return ("none",)
        if op == "len":
            return ("c", "builtins.int")
        if op == "elem":
            return self.elem_type(self.typeof(a[0]))
        if op == "index":
            ty = self.typeof(a[0])
            if ty and ty[0] == "tuple" and a[1].op == "num":
                i = int(a[1].args[0])
                if -len(ty[1]) <= i < len(ty[1]):
                    return ty[1][i]
            if ty and ty[0] == "dict":
                return ty[2]
            if ty and ty[0] == "list":
                return ty[1]
            return None
        if op == "keys":
            ty = self.typeof(a[0])
            return ("list", ty[1]) if ty and ty[0] == "dict" else None
        if op == "values":
            ty = self.typeof(a[0])
            return ("list", ty[2]) if ty and ty[0] == "dict" else None
        if op == "map":
            return ("list", self.typeof(a[2]))
        if op == "flatmap":
            return self.typeof(a[2])
        if op == "dmap":
            return ("dict", self.typeof(a[2]), self.typeof(a[3]))
        if op == "dict":
            if a:
                return ("dict", self.typeof(a[0][0]), self.typeof(a[0][1]))
            return ("dict", None, None)
        if op == "dset":
            ty = self.typeof(a[0])
            if ty and ty[0] == "dict" and (ty[1] or ty[2]):
                return ty
            if ty and ty[0] == "dict":
                return ("dict", self.typeof(a[1]), self.typeof(a[2]))
            return ty
        if op == "seq":
            ts = [self.typeof(x) for x in a]
            return ("list", union(ts) if ts else None)
        if op == "concat":
            for x in a:
                ty = self.typeof(x)
                if ty and ty[0] == "list" and ty[1]:
                    return ty
            return ("list", None)
        if op in ("sorted", "reversed", "set", "slice", "copy", "replace", "popped"):
            return self.typeof(a[0])
        if op == "ite":
            ts = [self.typeof(l) for l in tm.leaves(t) if l.op != "raise" and l is not NONE]
            if ts and all(x is not None for x in ts):
                return union(ts)
            return None
        if op in ("sum", "poly", "max", "min", "smax", "smin"):
            return None
        if op == "first":
            return self.typeof(a[2])
        if op == "carry":
            return self.rettypes.get(t)
        return None

    def elem_type(self, ty):
        if ty is None:
            return None
        if ty[0] == "list":
            return ty[1]
        if ty[0] == "dict":
            return ty[1]
        if ty[0] == "c":
            c = self.p.classes.get(ty[1])
            if c is not None:
                m = c.find_method("__iter__")
                if m is not None and m.node.returns is not None:
                    return self.elem_type(self.p.parse_type(m.module, m.node.returns, c))
        return None

    def classes_of(self, ty):
        if ty is None:
            return []
        if ty[0] == "c":
            c = self.p.classes.get(ty[1])
            return [c] if c else []
        if ty[0] == "union":
            out = []
            for x in ty[1]:
                out += self.classes_of(x)
            return out
        return []

    def attr_type(self, ty, name):
        if ty is None:
            return None
        if ty[0] == "union":
            ts = [self.attr_type(x, name) for x in ty[1]]
            ts = [x for x in ts if x is not None]
            return union(ts) if ts else None
        if ty[0] != "c":
            return None
        c = self.p.classes.get(ty[1])
        if c is None:
            return None
        for k in c.mro():
            for n, ann, _ in k.fields:
                if n == name:
                    return self.p.parse_type(k.module, ann, k)
            m = k.methods.get(name)
            if m is not None and m.prop:
                return self.p.parse_type(m.module, m.node.returns, c) if m.node.returns is not None else None
            init = k.methods.get("__init__")
            if init is not None:
                for n in ast.walk(init.node):
                    if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Attribute) and n.target.attr == name \
                            and isinstance(n.target.value, ast.Name) and n.target.value.id == "self":
                        return self.p.parse_type(k.module, n.annotation, k)
                    if isinstance(n, ast.Assign):
                        for t in n.targets:
                            if isinstance(t, ast.Attribute) and t.attr == name and isinstance(t.value, ast.Name) and t.value.id == "self":
                                return self._static_type(k, init, n.value)
        return None

    def _static_type(self, k, init, v):
        if isinstance(v, ast.Name):
            ann = self._ann(init, v.id)
            return self.p.parse_type(k.module, ann, k) if ann is not None else None
        if isinstance(v, ast.Call):
            r = self.p.resolve_expr(k.module, v.func)
            if r and r[0] == "class":
                return ("c", r[1].qual)
            if r and r[0] == "func" and r[1].node.returns is not None:
                return self.p.parse_type(r[1].module, r[1].node.returns)
        if isinstance(v, ast.BoolOp):
            ts = [self._static_type(k, init, x) for x in v.values]
            ts = [x for x in ts if x]
            return ts[0] if ts else None
        if isinstance(v, ast.IfExp):
            return self._static_type(k, init, v.body) or self._static_type(k, init, v.orelse)
        if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name):
            ann = self._ann(init, v.value.id)
            if ann is not None:
                return self.attr_type(self.p.parse_type(k.module, ann, k), v.attr)
        return None

    # ================================================================ statements
    def block(self, body, st: State):
        for s in body:
            if st.live is FALSE:
                return
            self.tick()
            self.stmt(s, st)

    def stmt(self, s, st: State):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.unknown.append((st.module.relpath, s.lineno, type(s).__name__))
            st.effects.append((st.live, mk("unknown", type(s).__name__)))
            return
        m(s, st)

    def s_Pass(self, s, st):
        pass

    def s_Import(self, s, st):
        for a in s.names:
            st.env[a.asname or a.name.split(".")[0]] = mk("glob", a.name if a.asname else a.name.split(".")[0])

    def s_ImportFrom(self, s, st):
        mod = st.module.abs_module(s)
        for a in s.names:
            r = self.p.resolve_in(mod, a.name)
            st.env[a.asname or a.name] = self._entity(r) if r else mk("glob", f"{mod}.{a.name}")

    def s_Global(self, s, st):
        st.effects.append((st.live, mk("global", *sorted(s.names))))

    def s_Nonlocal(self, s, st):
        st.nonlocals |= set(s.names)

    def s_Expr(self, s, st):
        v = s.value
        if isinstance(v, ast.Constant):
            return
        if isinstance(v, (ast.Yield, ast.YieldFrom)):
            self._yield(v, st)
            return
        if isinstance(v, ast.Call) and self._dropped_call(v, st):
            return
        n0 = len(st.effects)
        live = st.live
        t = self.ev(v, st)
        self._effect_value(t, live, st)

    def _effect_value(self, t, live, st):
        """An opaque call in statement position is an effect."""
        for l in tm.leaves(t):
            if l.op in ("call", "mcall"):
                if l.op == "call" and l.args[0].op == "glob" and l.args[0].args[0].startswith("builtins.") and \
                        l.args[0].args[0][9:] in PURE_BUILTINS:
                    continue
                g = tm.map_leaves(t, lambda x: TRUE if x is l else FALSE)
                st.effects.append((mk_and(live, g), l))

    def _dropped_call(self, v, st):
        f = v.func
        if isinstance(f, ast.Attribute):
            b = f.value
            if isinstance(b, ast.Name) and b.id in DROP_RECEIVERS:
                return True
            if isinstance(b, ast.Attribute) and b.attr in DROP_RECEIVERS:
                return True
        if isinstance(f, ast.Name) and f.id in ("print",):
            return True
        return False

    def _yield(self, v, st):
        st.env = st.env.copy()
        if isinstance(v, ast.YieldFrom):
            x = self.iterable(self.ev(v.value, st), st)
            st.env["$yield"] = tm.mk_concat([st.env["$yield"], x])
        else:
            x = self.ev(v.value, st) if v.value is not None else NONE
            st.env["$yield"] = tm.mk_concat([st.env["$yield"], tm.mk_seq((x,))])

    def s_Assign(self, s, st):
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            self._yield(s.value, st)
            return
        v = self.ev(s.value, st)
        for t in s.targets:
            self.assign(t, v, st)

    def s_AnnAssign(self, s, st):
        if s.value is None:
            return
        v = self.ev(s.value, st)
        ty = self.p.parse_type(st.module, s.annotation, st.cls)
        if ty is not None and self.typeof(v) is None and v.op in ("sym", "attr", "index", "elem", "call", "mcall"):
            self.rettypes.setdefault(v, ty)
        self.assign(s.target, v, st)

    def s_AugAssign(self, s, st):
        cur = self.ev(_load(s.target), st)
        r = self.ev(s.value, st)
        v = self.binop(type(s.op), cur, r, st)
        if isinstance(s.target, ast.Name) and not getattr(s.target, "made_here", False) and not _fresh(cur) and self._container(cur):
            st.effects.append((st.live, mk("mutate", cur, type(s.op).__name__, r)))  # in place: whoever holds the object sees it
        self.assign(s.target, v, st)

    def _container(self, t):
        ty = self.typeof(t)
        return ty is not None and (ty[0] in ("list", "dict", "set") or ty[0] == "c" and ty[1] in ("numpy.ndarray", "numpy.typing.NDArray", "builtins.list", "builtins.dict", "builtins.set",
                                                                                               "pandas.Series", "pandas.DataFrame"))

    def s_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else NONE
        if st.live is FALSE:
            return
        if "$yield" in st.env:
            v = st.env["$yield"]
        st.rets.append((st.live, v, dict(st.heap)))
        st.live = FALSE

    _SAFE = {"str", "len", "isinstance", "list", "dict", "tuple", "set", "bool", "enumerate", "zip", "range", "repr", "print", "hasattr",
             "type", "any", "all", "id", "frozenset", "reversed", "issubclass", "iter"}
    _SAFE_M = {"append", "items", "keys", "values", "get", "lower", "upper", "strip", "format", "join", "extend", "add", "setdefault", "copy",
               "startswith", "endswith", "tolist"}

    def _callee(self, t):
        """What a call inside a try block can fail in: the function called (not its arguments)."""
        if t.op == "call":
            fn = t.args[0]
            if fn.op == "glob":
                q = fn.args[0]
                if q.startswith("builtins.") and q[9:] in self._SAFE or q in ("pathlib.Path",):
                    return None
                return q
            return "()"
        if t.op == "mcall":
            return None if t.args[1] in self._SAFE_M else "." + t.args[1]
        if t.op == "new":
            c = self.p.classes.get(t.args[0])
            if c is not None and (c.is_enum or c.find_method("__post_init__") is None and c.find_method("__init__") is None and not getattr(c, "is_pydantic", False)):
                return None
            return "new " + t.args[0]
        return t.op

    def s_Raise(self, s, st):
        n_c = len(st.calls)
        self._s_Raise(s, st)
        del st.calls[n_c:]  # composing the message cannot fail

    def _s_Raise(self, s, st):
        if s.exc is None:
            exc = mk(RAISE, "reraise" if not st.excvars else "reraise:" + st.excvars[-1])
        else:
            exc = self.exc_of(s.exc, st)
        if st.live is FALSE:
            return
        st.raises.append((st.live, exc, s.lineno))
        if len(st.stack) == 1:
            for k, v in st.heap.items():
                if k[0].op in ("sym", "glob", "attr") and k not in self.before_raise:
                    h0 = self._heap0(k)
                    if v is not h0 and mk_ite(st.live, v, h0) is not h0:
                        self.before_raise[k] = s.lineno
        st.live = FALSE

    # what an exception tells about the place or the values that caused it, apart from its wording
    _WORDS = ("message", "title", "reason", "details", "operation", "error_type", "problem", "args")

    def _exc(self, v: T) -> T:
        """The exception a value denotes, with the values it carries."""
        if v.op == "new":
            kw = tuple((k, self._tells(x)) for k, x in sorted(v.args[1]) if k not in self._WORDS)
            c = self.p.classes.get(v.args[0])
            return mk(RAISE, v.args[0], kw) if kw and c is not None else mk(RAISE, v.args[0])
        ty = self.typeof(v)
        if ty and ty[0] == "c" and ty[1] in self.p.classes:
            return mk(RAISE, ty[1], (("of", self._tells(v)),)) if v.op in ("mcall", "call") else mk(RAISE, ty[1])
        return mk(RAISE, ty[1] if ty and ty[0] == "c" else "?")

    def _tells(self, x: T) -> T:
        m = {y: mk("excvar", "*") for y in tm.subterms(x) if y.op == "excvar"}
        m.update({y: mk("sym", "a message") for y in tm.subterms(x) if y.op in ("fstr", "fmtcall", "join")})
        return tm.subst(x, m) if m else x

    def _exc_out(self, e: T, bv=None, carried=None) -> T:
        """An exception raised in a loop, seen from outside of it."""
        if len(e.args) < 2:
            return e
        if carried is not None and carried(e):
            return mk(RAISE, e.args[0])
        if bv is not None and bv in tm.bvs(e):
            return tm.subst(e, {bv: mk("sym", "the element concerned")})
        return e

    def exc_of(self, node, st) -> T:
        target = node.func if isinstance(node, ast.Call) else node
        if isinstance(target, ast.Name) and st.env.lookup(target.id) is not None:
            v = st.env.lookup(target.id)
            if v.op == "glob":
                if isinstance(node, ast.Call):
                    return self._exc(self.ev(node, st))
                return mk(RAISE, v.args[0])
            if v.op == "excvar":
                return mk(RAISE, "reraise:" + v.args[0])
            return self._exc(v)
        q = self.p.resolve_dotted(st.module, target)
        if q is None or isinstance(node, ast.Call) and (q in self.p.functions or q in self.p.classes):
            r = self._exc(self.ev(node, st))
            return mk(RAISE, q) if r.args[0] == "?" and q in self.p.classes else r
        return mk(RAISE, q)

    def s_Assert(self, s, st):
        if isinstance(s.test, ast.Constant) and s.test.value is False:
            st.raises.append((st.live, mk(RAISE, "builtins.AssertionError"), s.lineno))
            st.live = FALSE

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env[t.id] = UNDEF
            elif isinstance(t, ast.Subscript):
                o, k = self.ev(_load(t.value), st), self.ev(t.slice, st)
                self._store_back(t.value, mk("ddel", o, k), o, st, ("ddel", k))

    def s_FunctionDef(self, s, st):
        idx = len(self.closures)
        self.closures.append((s, st.env, st.module, st.cls))
        for d in s.decorator_list:
            # overloads registered on another local function (functools.singledispatch)
            if isinstance(d, ast.Call) and isinstance(d.func, ast.Attribute) and d.func.attr == "register" and len(d.args) == 1:
                st.effects.append((st.live, mk("register", self.ev(d.func.value, st), self.ev(d.args[0], st), mk("clo", idx))))
        st.env[s.name] = mk("clo", idx)

    def s_ClassDef(self, s, st):
        members = []
        for b in s.body:
            if isinstance(b, ast.FunctionDef):
                idx = len(self.closures)
                self.closures.append((b, st.env, st.module, st.cls))
                members.append((b.name, mk("tuple", *[self.ev(d, st) for d in b.decorator_list], self.leak(mk("clo", idx), st))))
            elif isinstance(b, (ast.Assign, ast.AnnAssign)) and b.value is not None:
                members.append((ast.unparse(b.targets[0] if isinstance(b, ast.Assign) else b.target), self.ev(b.value, st)))
            elif not (isinstance(b, ast.Pass) or isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant)):
                members.append(("?", mk("unknown", ast.unparse(b))))
        st.env[s.name] = mk("localclass", tuple(self.ev(b, st) for b in s.bases), tuple(sorted(members, key=lambda m: m[0])))

    # ---------------------------------------------------------------- branches
    def s_If(self, s, st):
        c = self.cond(s.test, st)
        if st.live is FALSE:
            return
        self.branch(c, lambda a: self.block(s.body, a), lambda b: self.block(s.orelse, b), st)

    def branch(self, c, fa, fb, st):
        if c is TRUE:
            fa(st)
            return
        if c is FALSE:
            fb(st)
            return
        env0, heap0, live0 = st.env, st.heap, st.live
        ga, gb = mk_and(live0, c), mk_and(live0, mk_not(c))
        # a branch that is infeasible under the path so far (the caller's included) is not analysed
        if st.base is not TRUE:
            if ga is not FALSE and mk_and(st.base, ga) is FALSE:
                ga = FALSE
            elif gb is not FALSE and mk_and(st.base, gb) is FALSE:
                gb = FALSE
        st.env, st.heap, st.live = env0.copy(), dict(heap0), ga
        if ga is not FALSE:
            fa(st)
        ea, ha, la = st.env, st.heap, st.live
        st.env, st.heap, st.live = env0.copy(), dict(heap0), gb
        if gb is not FALSE:
            fb(st)
        eb, hb, lb = st.env, st.heap, st.live
        self._merge(c, (ea, ha, la), (eb, hb, lb), env0, st)

    def _merge(self, c, A, B, env0, st):
        ea, ha, la = A
        eb, hb, lb = B
        if la is FALSE and lb is FALSE:
            st.env, st.heap, st.live = eb, hb, FALSE
        elif la is FALSE:
            st.env, st.heap, st.live = eb, hb, lb
        elif lb is FALSE:
            st.env, st.heap, st.live = ea, ha, la
        else:
            env = Env(parent=env0.parent)
            for k in list(dict.fromkeys(list(ea) + list(eb))):
                x, y = ea.get(k), eb.get(k)
                if x is None:
                    x = (env0.parent.lookup(k) if env0.parent is not None else None) or UNDEF
                if y is None:
                    y = (env0.parent.lookup(k) if env0.parent is not None else None) or UNDEF
                if x is UNDEF:
                    v = y
                elif y is UNDEF:
                    v = x
                else:
                    v = mk_ite(c, x, y)
                env[k] = v
            heap = {}
            for k in list(dict.fromkeys(list(ha) + list(hb))):
                x = ha.get(k) if k in ha else self._heap0(k)
                y = hb.get(k) if k in hb else self._heap0(k)
                heap[k] = mk_ite(c, x, y)
            st.env, st.heap, st.live = env, heap, mk_or(la, lb)
        # keep the caller's Env object identity irrelevant: closures captured env0 keep working
        # through the defining scope snapshot

    def s_Match(self, s, st):
        subj = self.ev(s.subject, st)

        def go(cases, st2):
            if not cases:
                return
            case = cases[0]
            binds: dict = {}
            c = self.pattern(case.pattern, subj, binds, st2)

            def body(a):
                for k, v in binds.items():
                    a.env[k] = v
                if case.guard is not None:
                    g = self.cond(case.guard, a)
                    self.branch(g, lambda x: self.block(case.body, x), lambda y: go(cases[1:], y), a)
                else:
                    self.block(case.body, a)

            self.branch(c, body, lambda b: go(cases[1:], b), st2)

        go(list(s.cases), st)

    def pattern(self, p, subj, binds, st) -> T:
        if isinstance(p, ast.MatchValue):
            return mk_eq(subj, self.ev(p.value, st))
        if isinstance(p, ast.MatchSingleton):
            return mk_eq(subj, tm.const(p.value))
        if isinstance(p, ast.MatchOr):
            return mk_or(*[self.pattern(q, subj, binds, st) for q in p.patterns])
        if isinstance(p, ast.MatchAs):
            c = TRUE if p.pattern is None else self.pattern(p.pattern, subj, binds, st)
            if p.name:
                binds[p.name] = subj
            return c
        if isinstance(p, ast.MatchClass):
            q = self._class_qual(p.cls, st)
            c = self.isinst(subj, q)
            for n, sp in zip(p.kwd_attrs, p.kwd_patterns):
                c = mk_and(c, self.pattern(sp, self.getattr(subj, n, st), binds, st))
            for sp in p.patterns:
                c = mk_and(c, self.pattern(sp, mk("posattr", subj), binds, st))
            return c
        if isinstance(p, ast.MatchSequence):
            c = TRUE
            for i, sp in enumerate(p.patterns):
                c = mk_and(c, self.pattern(sp, tm.mk_index(subj, num(i)), binds, st))
            return c
        return tm._atom_cond(mk("atom", "pattern", ast.dump(p)))

    # ---------------------------------------------------------------- exceptions
    def s_Try(self, s, st):
        n_r, n_c = len(st.raises), len(st.calls)
        env0, heap0, live0 = st.env.copy(), dict(st.heap), st.live
        self.block(s.body, st)
        body_raises = st.raises[n_r:]
        st.raises = st.raises[:n_r]
        calls = tuple(sorted({d for d in map(self._callee, st.calls[n_c:]) if d}))
        envb, heapb, liveb = st.env, st.heap, st.live
        # else-block
        if s.orelse:
            self.block(s.orelse, st)
            envb, heapb, liveb = st.env, st.heap, st.live
        outs = []  # (guard, env, heap, live)
        uncaught = []
        handled: dict = {}
        for g, e, ln in body_raises:
            h = self._matching(s.handlers, e.args[0], st)
            if h is None:
                uncaught.append((g, e, ln))
            else:
                handled[h] = mk_or(handled.get(h, FALSE), g)
        implicit = FALSE
        if calls:
            for i, h in enumerate(s.handlers):
                names = self._handler_names(h, st)
                at = tm._atom_cond(mk("exc", tuple(sorted(names)), calls))
                g = mk_and(live0, at, mk_not(implicit))
                for gg, _, _ in body_raises:
                    g = mk_and(g, mk_not(gg))
                handled[i] = mk_or(handled.get(i, FALSE), g)
                implicit = mk_or(implicit, g)
        st.raises += uncaught
        any_handled = mk_or(*handled.values()) if handled else FALSE
        # returns recorded in the body are only taken when no exception intervened
        if implicit is not FALSE:
            st.rets = [(mk_and(g, mk_not(implicit)) if i >= 0 else g, v, h) for i, (g, v, h) in enumerate(st.rets)] \
                if body_rets_touched(st, live0) else st.rets
        cur = (envb, heapb, mk_and(liveb, mk_not(any_handled)))
        for i, h in enumerate(s.handlers):
            g = handled.get(i, FALSE)
            if g is FALSE:
                continue
            st.env, st.heap, st.live = env0.copy(), dict(heap0), g
            names = sorted(self._handler_names(h, st))
            if h.name:
                st.env[h.name] = mk("excvar", "|".join(names))
            st.excvars.append("|".join(names))
            self.block(h.body, st)
            st.excvars.pop()
            hcur = (st.env, st.heap, st.live)
            st.env = cur[0]
            self._merge(g, hcur, cur, env0, st)
            cur = (st.env, st.heap, st.live)
        st.env, st.heap, st.live = cur
        if s.finalbody:
            live = st.live
            st.live = TRUE if live is FALSE else live
            saved = st.live
            self.block(s.finalbody, st)
            st.live = live if st.live is saved else mk_and(live, st.live)

    s_TryStar = s_Try

    def _handler_names(self, h, st):
        if h.type is None:
            return ["builtins.BaseException"]
        nodes = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for n in nodes:
            out.append(self._class_qual(n, st) or ast.unparse(n))
        return out

    def _matching(self, handlers, exc, st):
        for i, h in enumerate(handlers):
            for n in self._handler_names(h, st):
                if exc == n or self.p.is_subclass(exc, n) or n in ("builtins.BaseException",) or \
                        (n == "builtins.Exception"):
                    return i
        return None

    def s_With(self, s, st):
        for it in s.items:
            v = self.ev(it.context_expr, st)
            st.effects.append((st.live, mk("enter", v)))
            if it.optional_vars is not None:
                r = mk("entered", v)
                ty = self.typeof(v)
                if ty is not None:
                    for c in self.classes_of(ty):
                        m = c.find_method("__enter__")
                        if m is not None and m.node.returns is not None:
                            t2 = self.p.parse_type(m.module, m.node.returns, c)
                            if t2:
                                self.rettypes[r] = t2
                self.assign(it.optional_vars, r, st)
        live = st.live
        self.block(s.body, st)
        for it in s.items:
            st.effects.append((live, mk("exit")))

    # ---------------------------------------------------------------- loops
    def s_Break(self, s, st):
        st.loopctl.append(("break", st.live, st.env, st.heap))
        st.live = FALSE

    def s_Continue(self, s, st):
        st.loopctl.append(("continue", st.live, st.env, st.heap))
        st.live = FALSE

    def s_For(self, s, st):
        it = self.ev(s.iter, st)
        if st.live is FALSE:
            return
        it = self.iterable(it, st)
        self._for(it, s, st)

    def _for(self, it, s, st):
        if it.op == "seq" and len(it.args) <= 12 and not any(x.op == "star" for x in it.args):
            env0, outer, breaks = st.env.copy(), st.loopctl, []

            def joined(paths):
                for g, e, h in reversed(paths):
                    s2 = State(st.module)
                    self._merge(g, (e, h, g), (st.env, st.heap, st.live), env0, s2)
                    st.env, st.heap, st.live = s2.env, s2.heap, s2.live

            for x in it.args:
                if st.live is FALSE:
                    break
                st.loopctl = []
                self.assign(s.target, x, st)
                self.block(s.body, st)
                ctl, st.loopctl = st.loopctl, outer
                joined([c[1:] for c in ctl if c[0] == "continue"])
                breaks += [c[1:] for c in ctl if c[0] == "break"]
            if st.live is not FALSE:
                self.block(s.orelse, st)
            joined(breaks)
            return
        sp = self._split_source(it)
        if sp:
            # different sequences under different conditions
            c, hi, lo = sp
            self.branch(c, lambda a: self._for(hi, s, a), lambda b: self._for(lo, s, b), st)
            return
        self.loop(it, s.target, None, s.body, s.orelse, st, s.lineno)

    @staticmethod
    def _split_source(it, depth=0):
        """An iteration over one sequence or another, by a condition -> (condition, first, second)."""
        if it.op == "ite":
            if sum(1 for _ in tm.leaves(it)) == 2 and not any(x.op == "ite" for x in it.args[1:]):
                return tm._atom_cond(it.args[0]), it.args[1], it.args[2]
            return None
        if it.op in ("zip", "enumerate", "items", "keys", "values", "range", "reversed") and depth < 3:
            for i, a in enumerate(it.args):
                if isinstance(a, T) and (a.op == "ite" or a.op in ("zip", "enumerate", "items", "range")):
                    sp = Interp._split_source(a, depth + 1)
                    if sp:
                        c, hi, lo = sp
                        return c, tm.construct(it.op, it.args[:i] + (hi,) + it.args[i + 1:]), tm.construct(it.op, it.args[:i] + (lo,) + it.args[i + 1:])
        return None

    def s_While(self, s, st):
        self.loop(None, None, s.test, s.body, s.orelse, st, s.lineno)

    def loop(self, it, target, test, body, orelse, st, lineno):
        bv = tm.fresh_bv()
        if it is not None:
            iters, item, icond = self.iteration(it, bv, st)
        else:
            iters, item, icond = (), None, TRUE
        env0, heap0, live0 = st.env, st.heap, st.live
        self._carry += 1
        cid = self._carry
        carried: dict = {}
        for attempt in range(5):
            env, heap = env0.copy(), dict(heap0)
            for k in carried:
                ph = mk("carry", cid, k if isinstance(k, str) else k[1], "" if isinstance(k, str) else k[0])
                init = env0.get(k) if isinstance(k, str) else heap0.get(k, self._heap0(k))
                if init is not None:
                    ty = self.typeof(init)
                    if ty is not None:
                        self.rettypes[ph] = ty
                if isinstance(k, str):
                    env[k] = ph
                else:
                    heap[k] = ph
            sub = State(st.module, st.cls, env.copy(), dict(heap), st.depth, st.stack)
            sub.base = mk_and(st.base, st.live)
            sub.excvars = list(st.excvars)
            sub.nonlocals = st.nonlocals
            if target is not None:
                self.assign(target, item, sub)
                sub.live = icond
                exitc = FALSE
            else:
                c = self.cond(test, sub)
                sub.live = mk_and(sub.live, c)
                exitc = mk_not(c)
            env_in = {k: v for k, v in sub.env.items()}
            self.block(body, sub)
            # merge continue paths
            endenv, endheap, endlive = sub.env, sub.heap, sub.live
            for kind, g, e, h in reversed(sub.loopctl):
                if kind == "continue":
                    s2 = State(st.module)
                    self._merge(g, (e, h, g), (endenv, endheap, endlive), env0, s2)
                    endenv, endheap, endlive = s2.env, s2.heap, s2.live
            changed = set(carried)
            tnames = _target_names(target) if target is not None else set()
            breaks0 = [(g, e, h) for kind, g, e, h in sub.loopctl if kind == "break"]
            for e in [endenv] + [b[1] for b in breaks0]:
                for k, v in e.items():
                    if k in env0 and k not in tnames and v is not env.get(k):
                        changed.add(k)
            perit = {}
            for hh in [endheap] + [b[2] for b in breaks0]:
                for k, v in hh.items():
                    if v is not heap.get(k, self._heap0(k)):
                        if bv in tm.bvs(k[0]):
                            perit[k] = v
                            continue
                        changed.add(k)
            if changed == set(carried):
                break
            carried = {k: None for k in changed}
        # propagate calls
        st.calls += sub.calls
        # updates per carried variable; when the iteration's own filter is false nothing changes
        upd: dict = {}
        for k in carried:
            ph = env[k] if isinstance(k, str) and not isinstance(k, tuple) else None
            ph = mk("carry", cid, k if isinstance(k, str) else k[1], "" if isinstance(k, str) else k[0])
            if isinstance(k, str):
                u = endenv.get(k, ph)
            else:
                u = endheap.get(k, ph)
            if endlive is not FALSE or True:
                u = mk_ite(icond, u, ph) if icond is not TRUE else u
            upd[k] = (ph, u)
        def uses_carry(t):
            return tm.contains(t, lambda x: x.op == "carry" and x.args[0] == cid)

        if it is not None and icond is TRUE and upd:
            # a counter is a function of the position; a variable that holds a value of the previous iteration is that value, one back
            m = {}
            for k, (ph, u) in upd.items():
                init = env0.get(k) if isinstance(k, str) else heap0.get(k, self._heap0(k))
                if init is None or init is UNDEF or u is ph:
                    continue
                d = tm.mk_sub(u, ph) if u.op == "poly" else None
                if d is not None and d.op == "num":
                    m[ph] = tm.mk_add([init, tm.mk_mul([d, mk("idx", bv)])])
                elif not uses_carry(u) and bv in tm.bvs(u):
                    m[ph] = mk("lag", init, u)
                    if u.op == "elem" and u.args[0].op == "slice" and u.args[0].args[1:] == (ONE, NONE, NONE) and init is tm.mk_index(u.args[0].args[0], ZERO):
                        m[ph] = tm.elem(mk("slice", u.args[0].args[0], NONE, num(-1), NONE), bv)
                    ty = self.typeof(init)
                    if ty is not None:
                        self.rettypes.setdefault(m[ph], ty)
            if m:
                S = lambda t: tm.subst(t, m) if isinstance(t, T) else t
                # the final value of the variable itself keeps its own update
                upd = {k: (ph, S(u) if ph not in m else u) for k, (ph, u) in upd.items()}
                sub.effects = [(S(g), S(e)) for g, e in sub.effects]
                sub.raises = [(S(g), S(e), ln) for g, e, ln in sub.raises]
                sub.rets = [(S(g), S(v), {k: S(x) for k, x in h.items()}) for g, v, h in sub.rets]
                for _, _, e, h in sub.loopctl:
                    for k in list(e):
                        e[k] = S(e[k])
                    for k in list(h):
                        h[k] = S(h[k])
                sub.loopctl = [(kd, S(g), e, h) for kd, g, e, h in sub.loopctl]
                for k in list(endenv):
                    endenv[k] = S(endenv[k])
                perit = {k: S(v) for k, v in perit.items()}

        breaks = [(g, e, h) for kind, g, e, h in sub.loopctl if kind == "break"]
        exits = [g for g, _, _ in breaks] + [g for g, _, _ in sub.rets] + [g for g, _, _ in sub.raises]
        exit_any = mk_or(*exits) if exits else FALSE
        simple = it is not None and not any(uses_carry(g) for g in exits)

        def describe(t):
            """Canonical description of the carried variables (only those that term t and the exits depend on)."""
            names = sorted(upd, key=lambda q: _anon(upd[q][1], cid).d + _init(q).d)
            cl = 1 + max([s_.args[0] for q in names for s_ in tm.subterms(upd[q][1]) if s_.op == "carried"] +
                         [s_.args[0] for s_ in tm.subterms(mk_or(exit_any, exitc)) if s_.op == "carried"] +
                         [s_.args[0] for s_ in tm.subterms(t) if s_.op == "carried"] + [-1])
            ren = {upd[q][0]: mk("carried", cl, i) for i, q in enumerate(names)}
            desc = [(_init(q), tm.subst(upd[q][1], ren)) for q in names]
            ex, t = tm.subst(mk_or(exit_any, exitc), ren), tm.subst(t, ren)
            its = tm.norm_iters(iters, bv, *[d for _, d in desc])
            lvl, out = tm.close(bv, *([d for _, d in desc] + [ex, t]))

            def refs(x):
                return {s_.args[1] for s_ in tm.subterms(x) if s_.op == "carried" and s_.args[0] == cl}
            need, todo = set(), list(refs(out[-1]) | refs(out[-2]))
            while todo:
                i = todo.pop()
                if i not in need:
                    need.add(i)
                    todo += refs(out[i])
            keep = sorted(need)
            ren2 = {mk("carried", cl, i): mk("carried", cl, j) for j, i in enumerate(keep)}
            desc3 = tuple((desc[i][0], tm.subst(out[i], ren2)) for i in keep)
            return its, desc3, tm.subst(out[-2], ren2), tm.subst(out[-1], ren2), cl

        def generic(k):
            """Opaque but canonical description of the loop for variable k."""
            its, desc, ex, t, cl = describe(upd[k][0])
            return tm.mk_loop(its, desc, ex, t.args[1], cl)

        def canon(t):
            its, desc, ex, t, cl = describe(t)
            return tm.mk_loopexit(its, desc, t, cl)

        def _init(q):
            if isinstance(q, str):
                return env0.get(q) or UNDEF
            return heap0.get(q, self._heap0(q))

        final: dict = {}
        for k, (ph, u) in upd.items():
            init = _init(k)
            v = None
            if it is not None and not breaks and not sub.rets:
                v = self._fold(init, ph, u, iters, bv, uses_carry)
            if v is None and simple and (breaks or sub.rets) and u is ph:
                v = init
            if v is None:
                v = generic(k)
                ty = self.typeof(init)
                if ty is not None:
                    self.rettypes.setdefault(v, ty)
            final[k] = v
        # effects of the body, quantified over the iteration (a field of the current element is stored per element)
        for g, e in sub.effects + [(TRUE, mk("store", k[0], k[1], v)) for k, v in sorted(perit.items(), key=lambda kv: (kv[0][0].d, kv[0][1]))]:
            g, e = _anon(g, cid), _anon(e, cid)
            g = mk_and(icond, g)
            its = tm.norm_iters(iters, bv, g, e)
            if it is None:
                st.effects.append((live0, mk("foreach", its, *tm.close(bv, g, e)[1])))
            else:
                L, (g2, e2) = tm.close(bv, g, e)
                st.effects.append((live0, mk("foreach", its, g2, e2)))
        # exits
        st.env, st.heap = env0.copy(), dict(heap0)
        live = live0
        sub.raises = [(g, self._exc_out(e, bv, uses_carry), ln) for g, e, ln in sub.raises]
        if it is not None and simple:
            seen_exit = FALSE
            evs = [("raise", g, e, ln) for g, e, ln in sub.raises] + [("ret", g, v, h) for g, v, h in sub.rets] + \
                  [("break", g, e, h) for g, e, h in breaks]
            anyx = tm.mk_any_over(iters, bv, exit_any) if exits else FALSE
            if sub.raises and not sub.rets and not breaks:
                kinds = {e.args[0] for _, e, _ in sub.raises}
                for e in dict.fromkeys(e for _, e, _ in sub.raises):
                    g = mk_or(*[gg for gg, ee, _ in sub.raises if ee is e])
                    ga = tm.mk_any_over(iters, bv, g)
                    st.raises.append((mk_and(live, ga), e, lineno))
                    live = mk_and(live, mk_not(ga))
            elif exits:
                # first element meeting the exit condition decides
                def first(g, v):
                    if bv not in tm.bvs(v):
                        return v
                    its = tm.norm_iters(iters, bv, exit_any, v)
                    L, (c2, v2) = tm.close(bv, exit_any, v)
                    ty = self.typeof(v)
                    r = mk("first", its, c2, v2)
                    if ty is not None:
                        self.rettypes[r] = ty
                    return r

                for g, e, ln in sub.raises:
                    which = first(g, g)
                    st.raises.append((mk_and(live, anyx, as_cond(which) if g is not exit_any else TRUE), e, ln))
                retv = None
                if sub.rets:
                    retg = mk_or(*[g for g, _, _ in sub.rets])
                    val = sub.rets[-1][1]
                    for g, v, _ in reversed(sub.rets[:-1]):
                        val = mk_ite(g, v, val)
                    gg = mk_and(live, anyx) if retg is exit_any else mk_and(live, anyx, as_cond(first(retg, retg)))
                    if not uses_carry(val) and (tm.is_const(val) or bv not in tm.bvs(val)):
                        rv = val
                    elif uses_carry(val):
                        rv = canon(val)
                    else:
                        rv = first(retg, val)
                    st.rets.append((gg, rv, dict(st.heap)))
                    live_after = mk_and(live, mk_not(gg))
                else:
                    live_after = mk_and(live, mk_not(mk_or(*[r[0] for r in st.raises[-len(sub.raises):]]))) if sub.raises else live
                live = live_after
                if breaks:
                    brg = mk_or(*[g for g, _, _ in breaks])
                    bcond = anyx if brg is exit_any else mk_and(anyx, as_cond(first(brg, brg)))
                    keys = set(k for k in upd)
                    for k in keys:
                        vals = None
                        for g, e, h in reversed(breaks):
                            bvl = (e.get(k) if isinstance(k, str) else h.get(k, self._heap0(k))) or UNDEF
                            vals = bvl if vals is None else mk_ite(g, bvl, vals)
                        ph, u = upd[k]
                        if uses_carry(vals) and vals is not ph:
                            continue
                        if u is ph:
                            vv = _init(k) if vals is ph else first(brg, vals)
                            final[k] = mk_ite(bcond, vv, _init(k))
        elif exits or it is None:
            # exits depending on loop-carried state: opaque, canonical
            for g, e, ln in sub.raises:
                c = as_cond(canon(g))
                st.raises.append((mk_and(live, c), e, ln))
                live = mk_and(live, mk_not(c))
            for g, v, h in sub.rets:
                c = as_cond(canon(g))
                st.rets.append((mk_and(live, c), canon(v), dict(st.heap)))
                live = mk_and(live, mk_not(c))
            if breaks:
                for k in upd:
                    vals = None
                    for g, e, h in reversed(breaks):
                        bvl = (e.get(k) if isinstance(k, str) else h.get(k, self._heap0(k))) or UNDEF
                        vals = bvl if vals is None else mk_ite(g, bvl, vals)
                    if vals is not upd[k][1]:
                        brg = mk_or(*[g for g, _, _ in breaks])
                        final[k] = mk("loopbreak", canon(brg), canon(vals), final[k])
            if isinstance(test, ast.Constant) and test.value and not breaks:
                live = FALSE
        for k, v in final.items():
            if isinstance(k, str):
                st.env[k] = v
            else:
                st.heap[k] = v
        # variables first defined in the loop: last value
        for k, v in endenv.items():
            if k not in env0:
                if uses_carry(v):
                    st.env[k] = mk("lastof", tm.norm_iters(iters, bv, v), _anon(tm.close(bv, v)[1][0], cid))
                elif bv in tm.bvs(v):
                    st.env[k] = mk("lastof", tm.norm_iters(iters, bv, v), tm.close(bv, v)[1][0])
                else:
                    st.env[k] = v
        if breaks:
            for g, e, h in breaks:
                for k, v in e.items():
                    if k not in env0 and k not in st.env:
                        st.env[k] = v if bv not in tm.bvs(v) else mk("first", tm.norm_iters(iters, bv, v), *tm.close(bv, exit_any, v)[1])
        st.live = live
        if orelse:
            self.block(orelse, st)

    def _fold(self, init, ph, u, iters, bv, uses_carry):
        if u is ph:
            return init
        # additive: u = ph + f
        if not (u.op in ("concat", "dset", "ite") and False):
            d = tm.mk_sub(u, ph) if u.op in ("poly",) else None
            if d is not None and not uses_carry(d):
                return tm.mk_add([init, tm.mk_sum_over(iters, bv, TRUE, d)])
        if u.op == "ite":
            # additive on some paths only
            ls = list(tm.leaves(u))
            if all(l is ph or (l.op == "poly" and not uses_carry(tm.mk_sub(l, ph))) for l in ls) and not any(uses_carry(a) for a in tm.atoms(u)):
                body = tm.map_leaves(u, lambda l: ZERO if l is ph else tm.mk_sub(l, ph))
                return tm.mk_add([init, tm.mk_sum_over(iters, bv, TRUE, body)])
            # list building
            def app(l):
                if l is ph:
                    return tm.mk_seq(())
                if l.op == "concat" and l.args[0] is ph:
                    r = tm.mk_concat(l.args[1:])
                    return None if uses_carry(r) else r
                return None
            if not any(uses_carry(a) for a in tm.atoms(u)):
                parts = [app(l) for l in ls]
                if all(p is not None for p in parts):
                    body = tm.map_leaves(u, app)
                    return tm.mk_concat([init, tm.mk_flatmap(iters, bv, TRUE, body)])
                # dict building
                if all(l is ph or (l.op == "dset" and l.args[0] is ph and not uses_carry(mk("p", *l.args[1:]))) for l in ls):
                    ds = [l for l in ls if l is not ph]
                    c = tm.map_leaves(u, lambda l: FALSE if l is ph else TRUE)
                    keys = {l.args[1] for l in ds}
                    if len(keys) == 1:
                        val = tm.map_leaves(u, lambda l: UNDEF if l is ph else l.args[2])
                        val = self._drop_undef(val, c)
                        return self._dunion(init, tm.mk_dmap(iters, bv, c, ds[0].args[1], val))
            # flags:  u = c ? const : ph
            if not any(uses_carry(a) for a in tm.atoms(u)):
                consts = {l for l in ls if l is not ph}
                if len(consts) == 1:
                    k = next(iter(consts))
                    if k in (TRUE, FALSE) or (tm.is_const(k)):
                        c = tm.map_leaves(u, lambda l: TRUE if l is k else FALSE)
                        return mk_ite(tm.mk_any_over(iters, bv, c), k, init)
        # u = (ph and f) / (ph or f): ph itself is tested
        pa = mk("truthy", ph)
        if u.op == "ite" and tm.is_cond(u) and pa in tm.atoms(u) and init in (TRUE, FALSE):
            hi, lo = tm.assume(u, pa, True), tm.assume(u, pa, False)
            if lo is FALSE and not uses_carry(hi):
                return mk_and(init, mk_not(tm.mk_any_over(iters, bv, mk_not(hi))))
            if hi is TRUE and not uses_carry(lo):
                return mk_or(init, tm.mk_any_over(iters, bv, lo))
        if u.op == "concat" and u.args[0] is ph:
            r = tm.mk_concat(u.args[1:])
            if not uses_carry(r):
                return tm.mk_concat([init, tm.mk_flatmap(iters, bv, TRUE, r)])
        if u.op == "dset" and u.args[0] is ph and not uses_carry(mk("p", *u.args[1:])):
            return self._dunion(init, tm.mk_dmap(iters, bv, TRUE, u.args[1], u.args[2]))
        if u.op in ("max", "min") and ph in u.args:
            rest = [x for x in u.args if x is not ph]
            if not any(uses_carry(x) for x in rest):
                f = (tm.mk_max if u.op == "max" else tm.mk_min)(rest)
                seq = tm.mk_map(iters, bv, TRUE, f)
                return (tm.mk_max if u.op == "max" else tm.mk_min)([init, self.extremum_seq("s" + u.op, seq)])
        if u.op == "dmerge" and u.args[0] is ph and not uses_carry(mk("p", *u.args[1:])):
            its = tm.norm_iters(iters, bv, u.args[1])
            return self._dunion(init, mk("dflat", its, tm.close(bv, u.args[1])[1][0]))
        # the first value assigned
        if init is NONE and u.op == "ite" and mk("isnone", ph) in tm.atoms(u):
            na = mk("isnone", ph)
            hi, lo = tm.assume(u, na, True), tm.assume(u, na, False)
            ls = [l for l in tm.leaves(hi) if l not in (ph, NONE)]
            if lo.op in ("max", "min") and ph in lo.args and not uses_carry(hi):
                rest = [x for x in lo.args if x is not ph]
                f = (tm.mk_max if lo.op == "max" else tm.mk_min)(rest)
                if not uses_carry(f) and f is hi:
                    seq = tm.mk_map(iters, bv, TRUE, f)
                    return mk_ite(tm.mk_any_over(iters, bv, TRUE), self.extremum_seq("s" + lo.op, seq), NONE)
            if lo is ph and ls and not uses_carry(tm.map_leaves(hi, lambda l: NONE if l is ph else l)) and not any(self._maybe_none(l) for l in ls):
                c = tm.map_leaves(hi, lambda l: FALSE if l in (ph, NONE) else TRUE)
                v = tm.map_leaves(hi, lambda l: ls[0] if l in (ph, NONE) else l)
                if not any(uses_carry(a) for a in tm.atoms(c)):
                    its = tm.norm_iters(iters, bv, c, v)
                    _, (c2, v2) = tm.close(bv, c, v)
                    r = mk("first", its, c2, v2)
                    ty = self.typeof(ls[0])
                    if ty is not None:
                        self.rettypes.setdefault(r, ty)
                    return mk_ite(tm.mk_any_over(iters, bv, c), r, NONE)
        # the last value assigned
        ls = list(tm.leaves(u)) if u.op == "ite" else [u]
        if not any(l is not ph and uses_carry(l) for l in ls) and not any(uses_carry(a) for a in tm.atoms(u)):
            c = tm.map_leaves(u, lambda l: FALSE if l is ph else TRUE) if u.op == "ite" else TRUE
            vs = [l for l in ls if l is not ph]
            v = tm.map_leaves(u, lambda l: vs[0] if l is ph else l) if u.op == "ite" else u
            its = tm.norm_iters(iters, bv, c, v)
            _, (c2, v2) = tm.close(bv, c, v)
            r = mk("last", its, c2, v2)
            ty = self.typeof(vs[0])
            if ty is not None:
                self.rettypes.setdefault(r, ty)
            return mk_ite(tm.mk_any_over(iters, bv, c), r, init)
        return None

    def _maybe_none(self, t):
        if t in self.nonnull or t.op in ("num", "str", "poly", "new", "seq", "enum", "bool", "len", "idx", "map", "fstr", "fmtcall", "join"):
            return False
        ty = self.typeof(t)
        return ty is None or ty[0] not in ("c", "list", "dict", "tuple", "set")

    def _drop_undef(self, val, c):
        ls = [l for l in tm.leaves(val) if l is not UNDEF]
        if len(ls) == 1:
            return ls[0]
        return tm.map_leaves(val, lambda l: ls[0] if l is UNDEF else l)

    def _dunion(self, a, b):
        if a.op == "dict" and not a.args:
            return b
        return mk("dmerge", a, b)

    def extremum_seq(self, op, t):
        if t.op == "seq" and t.args:
            return (tm.mk_max if op == "smax" else tm.mk_min)(t.args)
        if t.op == "concat":
            return (tm.mk_max if op == "smax" else tm.mk_min)([self.extremum_seq(op, p) for p in t.args])
        return mk(op, t)

    # iteration sources -------------------------------------------------
    def iterable(self, t: T, st) -> T:
        """The sequence obtained by iterating over t."""
        if t.op in ("items", "zip", "enumerate", "range", "seq", "map"):
            return t
        if t.op in ("dict", "dmap", "dset"):
            return tm.mk_keys(t)
        if t.op == "ite":
            return tm.map_leaves(t, lambda l: self.iterable(l, st))
        ty = self.typeof(t)
        if ty is not None:
            if ty[0] == "dict":
                return tm.mk_keys(t)
            if ty[0] == "c":
                c = self.p.classes.get(ty[1])
                if c is not None:
                    if c.is_enum and t.op == "glob":
                        return t
                    m = c.find_method("__iter__")
                    if m is not None and self._unique(m, c, t, "__iter__") and st.depth < 8:
                        r = self.call_func(m, {m.params()[0][0]: t}, st)
                        return self.iterable(r, st) if r is not t else r
        if t.op == "glob" and t.args[0] in self.p.classes and self.p.classes[t.args[0]].is_enum:
            c = self.p.classes[t.args[0]]
            return tm.mk_seq(mk("enum", f"{c.qual}.{n}") for n in c.attrs if not n.startswith("_"))
        return t

    def iteration(self, t: T, bv: T, st):
        """-> (iters, item term, filter)"""
        if t.op == "zip":
            iters, items, c = (), [], TRUE
            for p in t.args:
                p = self.iterable(p, st)
                i2, it2, c2 = self.iteration(p, bv, st)
                iters += i2
                items.append(it2)
                c = mk_and(c, c2)
            return iters, tm.mk_seq(items), c
        if t.op == "enumerate":
            i2, it2, c2 = self.iteration(self.iterable(t.args[0], st), bv, st)
            return i2, tm.mk_seq((tm.mk_add([mk("idx", bv), t.args[1]]), it2)), c2
        if t.op == "items":
            k, v = tm.mk_keys(t.args[0]), tm.mk_values(t.args[0])
            return (k, v), tm.mk_seq((tm.elem(k, bv), tm.elem(v, bv))), TRUE
        if t.op == "range":
            a, b, s = t.args
            if a is ZERO and s is ONE:
                if b.op == "len":
                    return (b.args[0],), mk("idx", bv), TRUE
                p = tm.to_poly(b)
                ls = [m for m in p if len(m) == 1 and m[0][0].op == "len" and m[0][1] == 1 and p[m] == 1]
                if len(ls) == 1 and len(p) == 2 and () in p and p[()] < 0:
                    return (mk("slice", ls[0][0][0].args[0], NONE, num(p[()]), NONE),), mk("idx", bv), TRUE
            return (t,), tm.elem(t, bv), TRUE
        if t.op == "map" and len(t.args[0]) >= 1:
            iters, c, body = t.args
            lv = tm._level_of(c, body)
            top = mk("bv", "L", lv)
            return iters, tm.subst(body, {top: bv}), tm.subst(c, {top: bv})
        if t.op == "reversed" and False:
            pass
        return (t,), tm.elem(t, bv), TRUE

    # ================================================================ assignment
    def assign(self, target, v: T, st: State):
        if isinstance(target, ast.Name):
            if target.id in st.nonlocals and st.env.parent is not None:
                e = st.env.parent
                while e is not None and target.id not in e:
                    e = e.parent
                if e is not None:
                    e[target.id] = mk_ite(st.live, v, e[target.id])
                    return
            st.env[target.id] = v
        elif isinstance(target, (ast.Tuple, ast.List)):
            n = len(target.elts)
            star = [i for i, e in enumerate(target.elts) if isinstance(e, ast.Starred)]
            for i, e in enumerate(target.elts):
                if isinstance(e, ast.Starred):
                    self.assign(e.value, mk("slice", v, num(i), num(i - n + 1) if i < n - 1 else NONE, NONE), st)
                else:
                    k = i if not star or i < star[0] else i - n
                    self.assign(e, self._item(v, k), st)
        elif isinstance(target, ast.Attribute):
            o = self.ev(target.value, st)
            self.setattr(o, target.attr, v, st)
        elif isinstance(target, ast.Subscript):
            o = self.ev(_load(target.value), st)
            k = self.ev(target.slice, st)
            self._store_back(target.value, self._dset(o, k, v), o, st, ("setitem", k, v))
        elif isinstance(target, ast.Starred):
            self.assign(target.value, v, st)

    def _item(self, v, k):
        if v.op == "ite":
            return tm.map_leaves(v, lambda l: self._item(l, k))
        if v.op == "raise":
            return v
        return tm.mk_index(v, num(k))

    def _dset(self, o, k, v):
        if o.op == "dict" and tm.is_const(k) and all(tm.is_const(kk) for kk, _ in o.args):
            return mk("dict", *[(kk, vv) for kk, vv in o.args if kk is not k], (k, v))
        if tm.is_cond(k) and k not in (TRUE, FALSE):
            # boolean mask assignment on an array
            return mk_ite(k, v, o)
        if o.op == "dset" and o.args[1] is k:
            o = o.args[0]
        return mk("dset", o, k, v)

    def setattr(self, o, name, v, st):
        if o.op == "ite":
            for l in tm.leaves(o):
                g = tm.map_leaves(o, lambda x: TRUE if x is l else FALSE)
                st.heap[(l, name)] = mk_ite(g, v, st.heap.get((l, name), self._heap0((l, name))))
            return
        for c in self.classes_of(self.typeof(o)):
            s = c.find_setter(name)
            if s is not None and self.policy.want(s) and st.depth < self.policy.max_depth and s.qual not in st.stack:
                ps = s.params()[0]
                self.call_func(s, {ps[0]: o, ps[1]: v}, st)
                return
        st.heap[(o, name)] = v

    def _store_back(self, node, newval, old, st, what):
        """Write the updated container back to where it came from."""
        fresh = _fresh(old)
        if isinstance(node, ast.Name):
            if not (fresh or getattr(node, "made_here", False)):
                st.effects.append((st.live, mk("mutate", old, *what)))
            self.assign(node, newval, st)
        elif isinstance(node, ast.Attribute):
            o = self.ev(node.value, st)
            st.heap[(o, node.attr)] = newval
        elif isinstance(node, ast.Subscript):
            o = self.ev(_load(node.value), st)
            k = self.ev(node.slice, st)
            self._store_back(node.value, self._dset(o, k, newval), o, st, ("setitem", k, newval))
        elif isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr == "setdefault" and len(node.args) == 2 and not node.keywords:
            o = self.ev(_load(node.func.value), st)
            k = self.ev(node.args[0], st)
            self._store_back(node.func.value, self._dset(o, k, newval), o, st, ("setitem", k, newval))
        else:
            st.effects.append((st.live, mk("mutate", old, *what)))

    # ================================================================ expressions
    def cond(self, node, st) -> T:
        return as_cond(self.ev(node, st))

    def ev(self, node, st: State) -> T:
        self.tick()
        m = getattr(self, "e_" + type(node).__name__, None)
        if m is None:
            self.unknown.append((st.module.relpath, getattr(node, "lineno", 0), type(node).__name__))
            return mk("unknown", ast.dump(node))
        return m(node, st)

    def e_Constant(self, n, st):
        return tm.const(n.value)

    def e_Name(self, n, st):
        v = st.env.lookup(n.id)
        if v is not None:
            if getattr(n, "one_shot", False):
                return mk("iterator", v)
            return v
        r = self.p.resolve(st.module, n.id)
        if r is not None:
            return self._entity(r, f"{st.module.name}.{n.id}")
        if st.cls is not None and n.id == "__class__":
            return mk("glob", st.cls.qual)
        if not hasattr(builtins, n.id):
            return mk("unbound")  # a local that this path has not assigned; its name is of no consequence
        return mk("glob", "builtins." + n.id)

    def _entity(self, r, qual=None) -> T:
        if r[0] in ("func", "class"):
            return mk("glob", r[1].qual)
        if r[0] in ("ext", "module"):
            return self._ext_const(r[1])
        if r[0] == "const":
            return self._const(r[1], r[2], qual)
        if r[0] == "classattr":
            return self.getattr(mk("glob", r[1].qual), r[2], None)
        return mk("glob", str(r))

    def _ext_const(self, q):
        if q in ("numpy.nan", "math.nan", "numpy.NaN"):
            return mk("fconst", "nan")
        if q in ("numpy.inf", "math.inf"):
            return mk("fconst", "inf")
        return mk("glob", q)

    def _const(self, module, node, qual):
        key = id(node)
        if key in self._constmemo:
            return self._constmemo[key]
        if self.p.changes(node):
            return mk("glob", qual or "?")
        self._alive.append(node)  # the identity of a node stays unique for as long as it is a key
        if key in self._constbusy:
            return mk("glob", qual or "?")
        self._constbusy.add(key)
        q = None
        for nm, e in module.symbols.items():
            if e[0] == "const" and e[2] is node:
                q = f"{module.name}.{nm}"
        try:
            if isinstance(node, ast.Call) or any(isinstance(x, (ast.Call, ast.ListComp, ast.DictComp, ast.Lambda)) for x in ast.walk(node)):
                if _table_like(node):
                    v = self.ev(node, State(module))
                else:
                    v = mk("glob", q or qual or "?")
            elif isinstance(node, (ast.Constant, ast.Dict, ast.List, ast.Tuple, ast.Set, ast.BinOp, ast.UnaryOp, ast.Name, ast.Attribute)):
                v = self.ev(node, State(module))
            else:
                v = mk("glob", q or qual or "?")
        finally:
            self._constbusy.discard(key)
        self._constmemo[key] = v
        return v

    def e_Attribute(self, n, st):
        # static chain first
        base = n.value
        root = base
        while isinstance(root, ast.Attribute):
            root = root.value
        if isinstance(root, ast.Name) and st.env.lookup(root.id) is None:
            r = self.p.resolve_expr(st.module, n)
            if r is not None:
                if r[0] == "classattr":
                    return self.getattr(mk("glob", r[1].qual), r[2], st)
                return self._entity(r)
        o = self.ev(base, st)
        return self.getattr(o, n.attr, st)

    def getattr(self, o: T, name: str, st) -> T:
        if o.op == "ite":
            return tm.map_leaves(o, lambda l: self.getattr(l, name, st))
        if o.op == "raise" or o is UNDEF:
            return o
        if st is not None and (o, name) in st.heap:
            return st.heap[(o, name)]
        if o.op == "glob":
            q = o.args[0]
            c = self.p.classes.get(q)
            if c is not None:
                if c.is_enum and name in c.attrs:
                    return mk("enum", f"{c.qual}.{name}")
                for k in c.mro():
                    if name in k.nested:
                        return mk("glob", k.nested[name].qual)
                a = c.find_attr(name)
                if a is not None and c.find_method(name) is None:
                    k, node = a
                    if self.p.class_attr_changes(k, name):
                        return mk("attr", mk("glob", k.qual), name)
                    if isinstance(node, (ast.Constant, ast.BinOp, ast.UnaryOp, ast.Dict, ast.List, ast.Tuple, ast.Set, ast.Name, ast.Attribute)):
                        key = (k.qual, name)
                        if key not in self._constmemo:
                            s2 = State(k.module, k)
                            # class-level names see sibling attributes
                            for nm, vn in k.attrs.items():
                                if nm != name and isinstance(vn, (ast.Constant, ast.BinOp, ast.UnaryOp)) :
                                    pass
                            s2.env = _ClassEnv(self, k)
                            self._constmemo[key] = self.ev(node, s2)
                        return self._constmemo[key]
                if name == "__name__":
                    return string(c.name)
                return mk("attr", o, name)
            if q in self.p.modules:
                r = self.p.resolve_in(q, name)
                if r is not None:
                    return self._entity(r, f"{q}.{name}")
            return self._ext_const(f"{q}.{name}")
        if o.op == "enum":
            q, _, mem = o.args[0].rpartition(".")
            c = self.p.classes.get(q)
            if c is not None:
                if name == "value" and mem in c.attrs:
                    if isinstance(c.attrs[mem], ast.Constant):
                        return tm.const(c.attrs[mem].value)
                    if isinstance(c.attrs[mem], ast.Call):
                        return mk("attr", o, name)
                    return self.ev(c.attrs[mem], State(c.module, c))
                if name == "name":
                    return string(mem)
        if o.op == "new":
            q, kw = o.args
            for k, v in kw:
                if k == name:
                    return v
            c = self.p.classes.get(q)
            if c is not None and c.find_method(name) is None:
                if c.is_dataclass or c.is_pydantic or c.is_namedtuple:
                    for fn, ann, dv, k in c.all_fields():
                        if fn == name and dv is not None:
                            d = _field_default(dv)
                            if d is not None:
                                return self.ev(d, State(k.module, k))
                elif c.find_method("__init__") is not None:
                    a = self.init_attrs(c)
                    if a is not None and name in a:
                        m = {}
                        t = a[name]
                        init = c.find_method("__init__")
                        for k, v in kw:
                            m[mk("sym", "init:" + k)] = v
                        for s in tm.subterms(t):
                            if s.op == "sym" and s.args[0].startswith("init:") and s not in m:
                                pn = s.args[0][5:]
                                d = self._default_of(init, pn)
                                if d is None:
                                    break
                                m[s] = d
                        else:
                            if not tm.contains(t, lambda x: x.op == "sym" and x.args[0] == "init-self"):
                                return tm.subst(t, m)
        if o.op == "replace":
            base, kw = o.args
            for k, v in kw:
                if k == name:
                    return v
            return self.getattr(base, name, st)
        if name == "__class__":
            ty = self.typeof(o)
            if ty and ty[0] == "c" and ty[1] in self.p.classes:
                return mk("glob", ty[1])
        # properties
        if st is not None:
            cl = self.classes_of(self.typeof(o))
            if len(cl) == 1:
                m = cl[0].find_method(name)
                if m is not None and m.prop:
                    if self._inlinable(m, cl[0], o, name, st) and not self.p.remembers(m):
                        return self.call_func(m, {m.params()[0][0]: o}, st)
                elif m is None and not cl[0].is_enum:
                    a = cl[0].find_attr(name)
                    if a is not None and not any(f[0] == name for f in cl[0].all_fields()) and isinstance(a[1], ast.Constant) and \
                            not self.p.class_attr_changes(*a[:1], name) and not any(name in s.attrs for s in cl[0].subclasses()):
                        return tm.const(a[1].value)
        return mk("attr", o, name)

    def init_attrs(self, c: ClassInfo):
        if c.qual in self._initmemo:
            return self._initmemo[c.qual]
        self._initmemo[c.qual] = None
        init = c.find_method("__init__")
        if init is None:
            return None
        pos, var, kwo, kwv = init.params()
        env = Env()
        selft = mk("sym", "init-self")
        self.symtypes[selft] = ("c", c.qual)
        for i, p in enumerate(pos + ([var] if var else []) + kwo + ([kwv] if kwv else [])):
            if i == 0:
                env[p] = selft
            else:
                s = mk("sym", "init:" + p)
                ann = self._ann(init, p)
                if ann is not None:
                    ty = self.p.parse_type(init.module, ann, c)
                    if ty:
                        self.symtypes[s] = ty
                env[p] = s
        st = State(init.module, init.cls, env, {}, 4, (init.qual,))
        try:
            self.block(init.node.body, st)
        except Budget:
            return None
        res = {k[1]: v for k, v in st.heap.items() if k[0] is selft}
        self._initmemo[c.qual] = res
        return res

    def _default_of(self, f, pn):
        a = f.node.args
        allp = a.posonlyargs + a.args
        nd = len(a.defaults)
        for i, x in enumerate(allp):
            if x.arg == pn:
                j = i - (len(allp) - nd)
                if j >= 0:
                    if self.p.default_changes(f.node, pn):
                        return mk("glob", f"{f.qual}.{pn} (shared default)")
                    return self.ev(a.defaults[j], State(f.module, f.cls))
                return None
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg == pn:
                if self.p.default_changes(f.node, pn):
                    return mk("glob", f"{f.qual}.{pn} (shared default)")
                return self.ev(d, State(f.module, f.cls)) if d is not None else None
        return None

    def e_BinOp(self, n, st):
        l = self.ev(n.left, st)
        r = self.ev(n.right, st)
        return self.binop(type(n.op), l, r, st)

    def _list_field(self, t):
        """A field that validation makes a list."""
        if t.op != "attr" or not isinstance(t.args[1], str):
            return False
        cl = self.classes_of(self.typeof(t.args[0]))
        return bool(cl) and all(c.is_pydantic and any(x[0] == t.args[1] and x[1] is not None and ast.unparse(x[1]).strip("'\"").startswith(("list[", "List[")) for x in c.all_fields()) for c in cl)

    def binop(self, op, l, r, st) -> T:
        dunder = _BINOPS.get(op)
        if dunder and l.op != "ite":
            cl = self.classes_of(self.typeof(l))
            if len(cl) == 1 and not cl[0].is_enum:
                m = cl[0].find_method(dunder)
                if m is not None:
                    return self.call_method(l, dunder, [r], {}, st)
        if op is ast.Add:
            for a, b, left in ((l, r, True), (r, l, False)):
                if a.op == "ite" and b.op in ("seq", "concat", "map", "flatmap", "ite") and \
                        any(x.op in ("seq", "concat", "flatmap", "map") for x in tm.leaves(a)):
                    return tm.map_leaves(a, lambda x: self.binop(op, x, b, st) if left else self.binop(op, b, x, st))
            if l.op in ("seq", "concat", "map", "flatmap") or r.op in ("seq", "concat", "flatmap"):
                return tm.mk_concat([l, r])
            tl = self.typeof(l)
            if l.op in ("str", "fstr") or r.op in ("str", "fstr") or (tl and tl == ("c", "builtins.str")):
                return mk_text(l, r)
            tr = self.typeof(r)
            if self._list_field(l) and self._list_field(r):
                return tm.mk_concat([l, r])
            if tl and tr and tl[0] == "list" and tr[0] == "list" and tl[1] not in (("c", "numpy.float64"), ) and not _ndarray(tl) and not _ndarray(tr) and tl[1] is not None and tl[1][0] == "c" and not tl[1][1].startswith("numpy"):
                if tl[1] != ("c", "builtins.float"):
                    return tm.mk_concat([l, r])
            return tm.mk_add([l, r])
        if op is ast.Sub:
            return tm.mk_sub(l, r)
        if op is ast.Mult:
            if l.op == "seq" or r.op == "seq":
                s, k = (l, r) if l.op == "seq" else (r, l)
                if k.op == "num" and k.args[0].denominator == 1 and 0 <= k.args[0] <= 16:
                    return tm.mk_seq(s.args * int(k.args[0]))
                return mk("repeat", s, k)
            return tm.mk_mul([l, r])
        if op is ast.Div:
            return tm.mk_div(l, r)
        if op is ast.Pow:
            return tm.mk_pow(l, r)
        if op is ast.BitAnd:
            return mk_and(l, r) if (tm.is_cond(l) or tm.is_cond(r)) else mk("bitand", *sorted((l, r), key=lambda x: x.d))
        if op is ast.BitOr:
            if tm.is_cond(l) or tm.is_cond(r):
                return mk_or(l, r)
            tl = self.typeof(l)
            if (tl and tl[0] == "dict") or l.op in ("dict", "dmap", "dmerge", "dset"):
                return mk("dmerge", l, r)
            return mk("bitor", l, r)
        return mk("binop", op.__name__, l, r)

    def e_UnaryOp(self, n, st):
        v = self.ev(n.operand, st)
        if isinstance(n.op, ast.Not):
            return mk_not(as_cond(v))
        if isinstance(n.op, ast.USub):
            cl = self.classes_of(self.typeof(v))
            if len(cl) == 1 and cl[0].find_method("__neg__"):
                return self.call_method(v, "__neg__", [], {}, st)
            if v.op == "fconst":
                return mk("fconst", "-" + v.args[0])
            return tm.mk_neg(v)
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(n.op, ast.Invert):
            return mk_not(as_cond(v))
        return mk("unop", type(n.op).__name__, v)

    def e_BoolOp(self, n, st):
        vals = n.values
        isand = isinstance(n.op, ast.And)

        def go(i, s):
            v = self.ev(vals[i], s)
            if i == len(vals) - 1:
                return v
            c = as_cond(v)
            if isand and c is FALSE:
                return v
            if not isand and c is TRUE:
                return v
            live0 = s.live
            g = c if isand else mk_not(c)
            nr, ne = len(s.raises), len(s.effects)
            s.live = mk_and(live0, g)
            rest = go(i + 1, s)
            # raises of the right operand only happen when it is evaluated (guards carry s.live)
            dead = FALSE
            for gg, _, _ in s.raises[nr:]:
                dead = mk_or(dead, gg)
            s.live = mk_and(live0, mk_not(dead)) if dead is not FALSE else live0
            return mk_ite(c, rest, v) if isand else mk_ite(c, v, rest)

        return go(0, st)

    def e_IfExp(self, n, st):
        c = self.cond(n.test, st)
        if c is TRUE:
            return self.ev(n.body, st)
        if c is FALSE:
            return self.ev(n.orelse, st)
        live0 = st.live
        nr = len(st.raises)
        st.live = mk_and(live0, c)
        a = self.ev(n.body, st)
        st.live = mk_and(live0, mk_not(c))
        b = self.ev(n.orelse, st)
        dead = FALSE
        for g, _, _ in st.raises[nr:]:
            dead = mk_or(dead, g)
        st.live = live0 if dead is FALSE else mk_and(live0, mk_not(dead))
        return mk_ite(c, a, b)

    def e_Compare(self, n, st):
        l = self.ev(n.left, st)
        out = TRUE
        for op, rn in zip(n.ops, n.comparators):
            r = self.ev(rn, st)
            out = mk_and(out, self.compare(op, l, r, st))
            l = r
        return out

    def compare(self, op, l, r, st) -> T:
        if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
            cl = self.classes_of(self.typeof(l))
            if len(cl) == 1:
                d = _CMPS[type(op)]
                m = cl[0].find_method(d)
                if m is not None and self._inlinable(m, cl[0], l, d, st):
                    return as_cond(self.call_method(l, d, [r], {}, st))
            if isinstance(op, ast.Lt):
                return tm.mk_lt(l, r)
            if isinstance(op, ast.Gt):
                return tm.mk_lt(r, l)
            if isinstance(op, ast.LtE):
                return mk_not(tm.mk_lt(r, l))
            return mk_not(tm.mk_lt(l, r))
        if isinstance(op, (ast.Is, ast.IsNot)) and not any(x.op in ("none", "bool", "enum", "glob", "attr") and self.typeof(x) not in (_STR, _FLOAT, _INT) for x in (l, r)) and \
                any(self.typeof(x) in (_STR, _FLOAT, _INT) for x in (l, r)):
            c = as_cond(mk("identical", *sorted((l, r), key=lambda t: t.d)))  # equal texts and numbers need not be the same object
            return c if isinstance(op, ast.Is) else mk_not(c)
        if isinstance(op, (ast.Eq, ast.Is)):
            return self.eq(l, r, st)
        if isinstance(op, (ast.NotEq, ast.IsNot)):
            return mk_not(self.eq(l, r, st))
        if isinstance(op, (ast.In, ast.NotIn)):
            c = self.contains(l, r, st)
            return c if isinstance(op, ast.In) else mk_not(c)
        return mk("unknown", type(op).__name__)

    def eq(self, l, r, st):
        # str-enum compared with its literal
        for a, b in ((l, r), (r, l)):
            if a.op == "enum" and b.op == "str":
                v = self.getattr(a, "value", st)
                if v.op == "str":
                    return TRUE if v is b else FALSE
            if a.op == "attr" and a.args[1] == "value" and b.op == "str":
                # x.value == "literal" for an enum-typed x
                for c in self.classes_of(self.typeof(a.args[0])):
                    if c.is_enum:
                        for nm, vn in c.attrs.items():
                            if isinstance(vn, ast.Constant) and vn.value == b.args[0]:
                                return mk_eq(a.args[0], mk("enum", f"{c.qual}.{nm}"))
            if a.op == "typeof" and b.op == "glob":
                return self.isinst(a.args[0], b.args[0])
        return mk_eq(l, r)

    def contains(self, x, s, st):
        if s.op == "ite":
            return tm.map_leaves(s, lambda l: self.contains(x, l, st))
        if s.op == "set" and s.args[0].op == "seq":
            s = s.args[0]
        cl = self.classes_of(self.typeof(s))
        if len(cl) == 1 and not cl[0].is_enum:
            m = cl[0].find_method("__contains__")
            if m is not None:
                return as_cond(self.call_method(s, "__contains__", [x], {}, st))
            if cl[0].find_method("__iter__"):
                s = self.iterable(s, st)
        if s.op == "glob":
            s = self.iterable(s, st)
        return tm.mk_in(x, s)

    def isinst(self, x, q) -> T:
        if q is None:
            return tm._atom_cond(mk("atom", "isinstance?", x))
        if x.op in ("num", "str", "bool", "seq", "dict") and q.startswith("builtins."):
            nm = q[9:]
            ok = {"num": ("float", "int"), "str": ("str",), "bool": ("bool", "int"), "seq": ("list", "tuple"), "dict": ("dict",)}[x.op]
            if nm in ok:
                return TRUE if x.op not in ("num", "seq") else tm._atom_cond(mk("isinstance", x, q))
            if nm in ("float", "int", "str", "bool", "list", "tuple", "dict", "set"):
                return FALSE
        if x.op not in ("ite", "raise") and self._nonnull(x):
            ty = self.typeof(x)
            if ty is not None:
                r = self._static_isinstance(ty, q)
                if r is not None:
                    return TRUE if r else FALSE
        return tm.mk_isinstance(x, q)

    def _nonnull(self, x):
        if x in self.nonnull or x in self.exact or x.op in ("clo", "partial", "lam"):
            return True
        if x.op == "attr":
            for c in self.classes_of(self.typeof(x.args[0]))[:1]:
                for k in c.mro():
                    for n, ann, d in k.fields:
                        if n == x.args[1]:
                            return _ann_nonnull(ann)
        if x.op == "elem" or x.op == "index":
            return self.typeof(x) is not None and x.args[0].op == "attr" and self._nonnull(x.args[0])
        return False

    def _static_isinstance(self, ty, q):
        if ty[0] == "c":
            if self.p.is_subclass(ty[1], q):
                return True
            if self._disjoint(ty[1], q) and ty[1] in self.p.classes or (ty[1].startswith("datetime.") and self._disjoint(ty[1], q)):
                return False
            return None
        if ty[0] == "union":
            rs = {self._static_isinstance(t, q) for t in ty[1]}
            return rs.pop() if len(rs) == 1 else None
        return None

    def _class_qual(self, node, st):
        v = None
        if isinstance(node, ast.Name):
            v = st.env.lookup(node.id)
        if v is not None and v.op == "glob":
            return v.args[0]
        return self.p.resolve_dotted(st.module, node)

    def e_Tuple(self, n, st):
        return self._display(n, st)

    e_List = e_Tuple

    def e_Set(self, n, st):
        return mk("set", self._display(n, st))

    def _display(self, n, st):
        parts = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                parts.append(self.iterable(self.ev(e.value, st), st))
            else:
                parts.append(tm.mk_seq((self.ev(e, st),)))
        return tm.mk_concat(parts)

    def e_Starred(self, n, st):
        return mk("star", self.ev(n.value, st))

    def e_Dict(self, n, st):
        cur = mk("dict")
        for k, v in zip(n.keys, n.values):
            if k is None:
                x = self.ev(v, st)
                if x.op == "dict" and cur.op == "dict":
                    for kk, vv in x.args:
                        cur = self._dlit(cur, kk, vv)
                elif cur.op == "dict" and not cur.args:
                    cur = x
                else:
                    cur = mk("dmerge", cur, x)
            else:
                kk, vv = self.ev(k, st), self.ev(v, st)
                cur = self._dlit(cur, kk, vv)
        return cur

    def _dlit(self, cur, kk, vv):
        if cur.op == "dict":
            return mk("dict", *[(a, b) for a, b in cur.args if a is not kk], (kk, vv))
        return self._dset(cur, kk, vv)

    def e_JoinedStr(self, n, st):
        parts = []
        for v in n.values:
            parts.append(self.e_FormattedValue(v, st) if isinstance(v, ast.FormattedValue) else self.ev(v, st))
        return mk_text(*parts)

    def e_FormattedValue(self, n, st):
        v = self.ev(n.value, st)
        if n.format_spec is not None or n.conversion not in (-1, 115):
            return mk("fmt", v, self.ev(n.format_spec, st) if n.format_spec is not None else NONE, tm.const(n.conversion))
        return mk_text(v)

    def e_NamedExpr(self, n, st):
        v = self.ev(n.value, st)
        self.assign(n.target, v, st)
        return v

    def e_Lambda(self, n, st):
        idx = len(self.closures)
        self.closures.append((n, st.env, st.module, st.cls))
        if getattr(n, "sees_last", False):
            return mk("sees-last", self.leak(mk("clo", idx), st))
        return mk("clo", idx)

    def e_Await(self, n, st):
        return self.ev(n.value, st)

    def e_Yield(self, n, st):
        self._yield(n, st)
        return NONE

    e_YieldFrom = e_Yield

    def e_Subscript(self, n, st):
        o = self.ev(n.value, st)
        if isinstance(n.slice, ast.Slice):
            return self._slice(o, n.slice, st)
        k = self.ev(n.slice, st)
        return self._lower_raise(self.index(o, k, st), st, n.lineno)

    def _lower_raise(self, v, st, lineno):
        """A value that is an exception on some paths: record the exception on those paths."""
        if v.op == "raise":
            st.raises.append((st.live, mk("raise", "builtins." + v.args[0]) if "." not in v.args[0] else v, lineno))
            st.live = FALSE
            return UNDEF
        if v.op == "ite" and st.live is not FALSE:
            es = {l for l in tm.leaves(v) if l.op == "raise"}
            for e in es:
                g = mk_and(st.live, tm.map_leaves(v, lambda l: TRUE if l is e else FALSE))
                st.raises.append((g, mk("raise", "builtins." + e.args[0]) if "." not in e.args[0] else e, lineno))
                st.live = mk_and(st.live, mk_not(g))
            if es:
                keep = [l for l in tm.leaves(v) if l.op != "raise"]
                v = tm.map_leaves(v, lambda l: UNDEF if l.op == "raise" else l)
        return v

    def _slice(self, o, s, st):
        lo = self.ev(s.lower, st) if s.lower else NONE
        hi = self.ev(s.upper, st) if s.upper else NONE
        step = self.ev(s.step, st) if s.step else NONE
        if lo is ZERO:
            lo = NONE
        if lo is NONE and hi is NONE and step is NONE:
            return o
        if step is NONE and hi.op == "poly" and tm.mk_add([hi, ONE]) is tm.mk_len(o):
            hi = num(-1)
        cl = self.classes_of(self.typeof(o))
        if len(cl) == 1:
            m = cl[0].find_method("__getitem__")
            if m is not None:
                return self.call_method(o, "__getitem__", [mk("mkslice", lo, hi, step)], {}, st)
        if o.op == "seq" and all(x is NONE or x.op == "num" for x in (lo, hi, step)) and not any(a.op == "star" for a in o.args):
            f = lambda x: None if x is NONE else int(x.args[0])
            return tm.mk_seq(o.args[slice(f(lo), f(hi), f(step))])
        return mk("slice", o, lo, hi, step)

    def e_Slice(self, n, st):
        return mk("mkslice", *[self.ev(x, st) if x else NONE for x in (n.lower, n.upper, n.step)])

    def index(self, o, k, st):
        if o.op == "ite":
            return tm.map_leaves(o, lambda l: self.index(l, k, st))
        if o.op == "glob" and o.args[0] in self.p.classes:
            c = self.p.classes[o.args[0]]
            if c.is_enum and k.op == "str":
                return mk("enum", f"{c.qual}.{k.args[0]}")
            return o  # generic alias
        cl = self.classes_of(self.typeof(o))
        if len(cl) == 1:
            m = cl[0].find_method("__getitem__")
            if m is not None:
                return self.call_method(o, "__getitem__", [k], {}, st)
        if k.op == "mkslice":
            return mk("slice", o, *k.args)
        if k.op == "poly":
            if tm.mk_add([k, ONE]) is tm.mk_len(o):
                return self.index(o, num(-1), st)  # the last element
            p = tm.to_poly(k)
            ix = [m for m in p if len(m) == 1 and m[0][0].op == "idx" and m[0][1] == 1 and p[m] == 1]
            if len(ix) == 1 and set(p) == {ix[0], ()} and p[()] > 0:
                return tm.elem(mk("slice", o, num(p[()]), NONE, NONE), ix[0][0][0].args[0])
        t = tm.mk_index(o, k)
        if t.op == "index":
            st.calls.append(t)
        return t

    # comprehensions ------------------------------------------------------
    def e_ListComp(self, n, st):
        return self._comp(n.generators, lambda s: self.ev(n.elt, s), st, "list")

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, n, st):
        return mk("set", self._comp(n.generators, lambda s: self.ev(n.elt, s), st, "list"))

    def e_DictComp(self, n, st):
        return self._comp(n.generators, lambda s: (self.ev(n.key, s), self.ev(n.value, s)), st, "dict")

    def _comp(self, gens, leaf, st, kind) -> T:
        def go(i, s):
            g = gens[i]
            return over(i, self.iterable(self.ev(g.iter, s), s), s)

        def over(i, it, s):
            g = gens[i]
            sp = self._split_source(it)
            if sp:
                out = {}

                def run(src):
                    def f(s2):
                        out[src] = over(i, src, s2)
                    return f

                c, hi, lo = sp
                self.branch(c, run(hi), run(lo), s)
                if len(out) == 2:
                    return mk_ite(c, out[hi], out[lo])
                return next(iter(out.values()), UNDEF)
            if it.op == "seq" and len(it.args) <= 64 and not any(x.op == "star" for x in it.args) and kind != "dict":
                parts = []
                for x in it.args:
                    s2 = self._substate(s)
                    self.assign(g.target, x, s2)
                    c = TRUE
                    for cn in g.ifs:
                        c = mk_and(c, self.cond(cn, s2))
                    s2.live = mk_and(s2.live, c)
                    v = go(i + 1, s2) if i + 1 < len(gens) else (tm.mk_seq((leaf(s2),)) if kind == "list" else leaf(s2))
                    self._absorb(s, s2, None, (), c)
                    if c is TRUE:
                        parts.append(v)
                    elif c is not FALSE:
                        parts.append(mk_ite(c, v, tm.mk_seq(())))
                return tm.mk_concat(parts)
            if it.op == "seq" and kind == "dict" and len(it.args) <= 64 and i == len(gens) - 1:
                cur = mk("dict")
                ok = True
                for x in it.args:
                    s2 = self._substate(s)
                    self.assign(g.target, x, s2)
                    c = TRUE
                    for cn in g.ifs:
                        c = mk_and(c, self.cond(cn, s2))
                    if c is FALSE:
                        continue
                    k, v = leaf(s2)
                    if c is not TRUE:
                        cur = mk_ite(c, self._dlit(cur, k, v), cur)
                    else:
                        cur = self._dlit(cur, k, v)
                return cur
            bv = tm.fresh_bv()
            iters, item, c = self.iteration(it, bv, s)
            s2 = self._substate(s)
            self.assign(g.target, item, s2)
            for cn in g.ifs:
                cc = self.cond(cn, s2)
                c = mk_and(c, cc)
            s2.live = mk_and(s2.live, c)
            if i + 1 < len(gens):
                inner = go(i + 1, s2)
                self._absorb(s, s2, bv, iters, c)
                if kind == "dict":
                    its = tm.norm_iters(iters, bv, c, inner)
                    return mk("dflat", its, tm.close(bv, inner)[1][0])
                return tm.mk_flatmap(iters, bv, c, inner)
            v = leaf(s2)
            self._absorb(s, s2, bv, iters, c)
            if kind == "dict":
                return tm.mk_dmap(iters, bv, c, v[0], v[1])
            return tm.mk_map(iters, bv, c, v)

        return go(0, st)

    def _substate(self, s):
        s2 = State(s.module, s.cls, Env(parent=s.env), s.heap, s.depth, s.stack)
        s2.base = mk_and(s.base, s.live)
        s2.excvars = s.excvars
        return s2

    def _absorb(self, s, s2, bv, iters, c):
        """Raises / effects inside a comprehension body."""
        s.calls += s2.calls
        s2.raises = [(g, self._exc_out(e, bv), ln) for g, e, ln in s2.raises]
        if bv is not None and len(s2.raises) > 1:
            # as for a loop: one obligation per exception, over all the places that raise it
            lines = {e: ln for _, e, ln in reversed(s2.raises)}
            for e in dict.fromkeys(e for _, e, _ in s2.raises):
                ga = tm.mk_any_over(iters, bv, mk_or(*[g for g, x, _ in s2.raises if x is e]))
                s.raises.append((mk_and(s.live, ga), e, lines[e]))
                s.live = mk_and(s.live, mk_not(ga))
        else:
            for g, e, ln in s2.raises:
                ga = tm.mk_any_over(iters, bv, g) if bv is not None else g
                s.raises.append((mk_and(s.live, ga), e, ln))
                s.live = mk_and(s.live, mk_not(ga))
        for g, e in s2.effects:
            if bv is None:
                s.effects.append((mk_and(s.live, g), e))
            else:
                s.effects.append((s.live, mk("foreach", tm.norm_iters(iters, bv, g, e), *tm.close(bv, g, e)[1])))

    # ================================================================ calls
    def e_Call(self, n, st):
        if self._dropped_call(n, st):
            return NONE
        f = n.func
        # sum/any/all over a comprehension: keep the un-lifted form so that invariants move out
        pos, kw, opaque_star = self._args(n, st)
        if st.live is FALSE:
            return UNDEF
        if isinstance(f, ast.Attribute):
            # super().method(...)
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
                return self._super_call(f.attr, pos, kw, st)
            root = f.value
            while isinstance(root, ast.Attribute):
                root = root.value
            if isinstance(root, ast.Name) and st.env.lookup(root.id) is None:
                r = self.p.resolve_expr(st.module, f)
                if r is not None:
                    if r[0] == "classattr":
                        return self.call_method(mk("glob", r[1].qual), r[2], pos, kw, st, f, opaque_star)
                    if r[0] != "const":
                        return self.call_value(self._entity(r), pos, kw, st, opaque_star)
            o = self.ev(f.value, st)
            return self.call_method(o, f.attr, pos, kw, st, f, opaque_star)
        if isinstance(f, ast.Name) and f.id == "super":
            return mk("super")
        if isinstance(f, ast.Name) and f.id in ("isinstance",) and len(n.args) == 2 and st.env.lookup(f.id) is None:
            return self._isinstance(pos[0], n.args[1], st)
        fn = self.ev(f, st)
        return self.call_value(fn, pos, kw, st, opaque_star)

    def _isinstance(self, x, cn, st):
        nodes = [cn]
        out = []
        while nodes:
            c = nodes.pop()
            if isinstance(c, ast.Tuple):
                nodes.extend(c.elts)
            elif isinstance(c, ast.BinOp):
                nodes += [c.left, c.right]
            else:
                q = self._class_qual(c, st)
                if q is None:
                    v = self.ev(c, st)
                    if v.op == "seq":
                        out += [self.isinst(x, y.args[0]) if y.op == "glob" else tm._atom_cond(mk("atom", "isinstance", x, y)) for y in v.args]
                        continue
                    q2 = v.args[0] if v.op == "glob" else None
                    out.append(self.isinst(x, q2) if q2 else tm._atom_cond(mk("atom", "isinstance", x, v)))
                else:
                    r = self.p.resolve_expr(st.module, c)
                    if r is not None and r[0] == "const" and not isinstance(r[2], (ast.Name, ast.Attribute)):
                        nodes.append(r[2])
                        continue
                    out.append(self.isinst(x, q))
        return mk_or(*out)

    def _args(self, n, st):
        pos, kw, star = [], {}, False
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.iterable(self.ev(a.value, st), st)
                if v.op == "seq" and not any(x.op == "star" for x in v.args):
                    pos.extend(v.args)
                else:
                    pos.append(mk("star", v))
                    star = True
            else:
                pos.append(self.ev(a, st))
        for k in n.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                if v.op == "dict" and all(kk.op == "str" for kk, _ in v.args):
                    for kk, vv in v.args:
                        kw[kk.args[0]] = vv
                else:
                    kw["**"] = v
                    star = True
            else:
                kw[k.arg] = v
        return pos, kw, star

    def _super_call(self, name, pos, kw, st):
        cls = st.cls
        selfname = None
        for nm in ("self", "cls"):
            if st.env.lookup(nm) is not None:
                selfname = st.env.lookup(nm)
                break
        if cls is not None:
            for k in cls.mro()[1:]:
                if name in k.methods:
                    m = k.methods[name]
                    if st.depth < self.policy.max_depth and m.qual not in st.stack and not m.abstract:
                        b = self.bind(m, pos, kw, selfname, False)
                        if b is not None:
                            return self.call_func(m, b, st)
                    break
        if name == "__init__":
            return NONE
        t = mk("mcall", mk("super", cls.qual if cls else "?"), name, tuple(self.leak(x, st) for x in pos),
               tuple(sorted((k, self.leak(v, st)) for k, v in kw.items())))
        st.calls.append(t)
        return t

    def _map_call(self, fn: T, xs: T, st, spread=False) -> T:
        """map(fn, xs); with `spread` each item is a tuple of arguments"""
        def call(item, s):
            if spread and item.op == "seq":
                return self.call_value(fn, list(item.args), {}, s)
            return self.call_value(fn, [mk("star", item) if spread else item], {}, s, spread)

        x = self.iterable(xs, st)
        if x.op == "seq":
            return tm.mk_seq(call(e, st) for e in x.args)
        bv = tm.fresh_bv()
        iters, item, c = self.iteration(x, bv, st)
        s2 = self._substate(st)
        v = call(item, s2)
        self._absorb(st, s2, bv, iters, c)
        return tm.mk_map(iters, bv, c, v)

    def call_value(self, fn: T, pos, kw, st, star=False) -> T:
        if fn.op == "ite":
            return self._call_ite(fn, lambda l, s: self.call_value(l, pos, kw, s, star), st)
        if fn.op == "raise":
            return fn
        if fn.op == "clo":
            return self.call_closure(fn, pos, kw, st)
        if fn.op == "partial":
            f0, p0, k0 = fn.args
            k2 = dict(k0)
            k2.update(kw)
            return self.call_value(f0, list(p0) + list(pos), k2, st, star)
        if fn.op == "attr":
            return self.call_method(fn.args[0], fn.args[1], pos, kw, st, None, star)
        if fn.op == "lam" and len(pos) == fn.args[0] and not kw:
            d = fn.args[1]
            m = {}
            return tm.subst(fn.args[2], {mk("lp", d, i): p for i, p in enumerate(pos)})
        if fn.op == "glob":
            q = fn.args[0]
            f = self.p.functions.get(q)
            if f is not None:
                return self.call_resolved(f, None, None, pos, kw, st, star)
            c = self.p.classes.get(q)
            if c is not None:
                return self.construct(c, pos, kw, st, star)
            # NewType
            mod, _, nm = q.rpartition(".")
            if mod in self.p.modules:
                e = self.p.modules[mod].symbols.get(nm)
                if e and e[0] == "const" and isinstance(e[2], ast.Call) and getattr(e[2].func, "id", getattr(e[2].func, "attr", "")) == "NewType" and len(pos) == 1:
                    return pos[0]
            r = self.ext_call(q, pos, kw, st, star)
            if r is not None:
                return r
            return self.opaque_call(fn, pos, kw, st)
        cl = self.classes_of(self.typeof(fn))
        if len(cl) == 1 and cl[0].find_method("__call__"):
            return self.call_method(fn, "__call__", pos, kw, st, None, star)
        return self.opaque_call(fn, pos, kw, st)

    def _call_ite(self, t, f, st):
        """Evaluate f on each leaf under its guard."""
        live0 = st.live
        out = None
        alive = FALSE
        ls = list(tm.leaves(t))
        vals = {}
        heap0 = st.heap
        heaps = []
        for l in ls:
            g = tm.map_leaves(t, lambda x: TRUE if x is l else FALSE)
            st.live = mk_and(live0, g)
            st.heap = dict(heap0)
            if st.live is FALSE or st.base is not TRUE and mk_and(st.live, st.base) is FALSE:
                vals[l] = UNDEF
                continue
            vals[l] = f(l, st)
            heaps.append((g, st.heap))
            alive = mk_or(alive, st.live)
        keys = {k for _, h in heaps for k in h}
        heap = dict(heap0)
        for k in keys:
            v = None
            for g, h in heaps:
                x = h.get(k, self._heap0(k))
                v = x if v is None else mk_ite(g, x, v)
            heap[k] = v
        st.heap = heap
        st.live = alive
        return tm.map_leaves(t, lambda l: vals[l])

    def opaque_call(self, fn, pos, kw, st, rettype=None) -> T:
        t = mk("call", self.leak(fn, st) if fn.op in ("clo",) else fn, tuple(self.leak(x, st) for x in pos),
               tuple(sorted(((k, self.leak(v, st)) for k, v in kw.items()), key=lambda kv: kv[0])))
        if any(x.op == "raise" for x in pos):
            return next(x for x in pos if x.op == "raise")
        if rettype is not None:
            self.rettypes.setdefault(t, rettype)
        st.calls.append(t)
        return t

    def leak(self, t: T, st) -> T:
        """Canonical form of a function value that escapes into an opaque operation."""
        if t.op == "clo":
            node, env, module, cls = self.closures[t.args[0]]
            a = node.args
            ps = [x.arg for x in a.posonlyargs + a.args]
            self._lamdepth += 1
            d = self._lamdepth
            if d > 6:
                self._lamdepth -= 1
                return mk("lam?", len(ps))
            sub = State(module, cls, Env(parent=env), dict(st.heap), st.depth + 1, st.stack)
            sub.base = mk_and(st.base, st.live)
            for i, p in enumerate(ps):
                ph = mk("lp", d, i)
                ann = a.args[i].annotation if i < len(a.args) else None
                if ann is not None:
                    ty = self.p.parse_type(module, ann, cls)
                    if ty:
                        self.symtypes[ph] = ty
                sub.env[p] = ph
            for x, star in ((a.vararg, "*"), (a.kwarg, "**")):
                if x is not None:
                    sub.env[x.arg] = mk("lp", d, star)
            for x, dflt in zip(a.kwonlyargs, a.kw_defaults):
                sub.env[x.arg] = self.ev(dflt, sub) if dflt is not None else mk("lp", d, x.arg)
            try:
                out = self._body_outcome(node, sub)
            finally:
                self._lamdepth -= 1
            if out.op == "call" and out.args[1] == tuple(mk("lp", d, i) for i in range(len(ps))) and not out.args[2] and \
                    not tm.contains(out.args[0], lambda x: x.op == "lp" and x.args[0] == d):
                return out.args[0]
            return mk("lam", len(ps), d, out)
        if t.op == "seq":
            if any(x.op in ("clo", "seq") for x in t.args):
                return tm.mk_seq(self.leak(x, st) for x in t.args)
        if t.op == "dict" and any(v.op in ("clo",) for _, v in t.args):
            return mk("dict", *[(k, self.leak(v, st)) for k, v in t.args])
        if t.op == "attr":
            cl = self.classes_of(self.typeof(t.args[0]))
            if len(cl) == 1:
                m = cl[0].find_method(t.args[1])
                if m is not None and not m.prop and self._inlinable(m, cl[0], t.args[0], t.args[1], st):
                    ps = m.params()[0]
                    ps = ps if m.static else ps[1:]
                    self._lamdepth += 1
                    d = self._lamdepth
                    try:
                        if d > 6:
                            return t
                        sub = State(m.module, m.cls, Env(), dict(st.heap), st.depth + 1, st.stack + (m.qual,))
                        sub.base = mk_and(st.base, st.live)
                        if not m.static:
                            sub.env[m.params()[0][0]] = t.args[0]
                        for i, p in enumerate(ps):
                            ph = mk("lp", d, i)
                            ann = self._ann(m, p)
                            ty = self.p.parse_type(m.module, ann, m.cls) if ann is not None else None
                            if ty:
                                self.symtypes[ph] = ty
                            sub.env[p] = ph
                        out = self._body_outcome(m.node, sub)
                    finally:
                        self._lamdepth -= 1
                    return mk("lam", len(ps), d, out)
        if t.op == "glob":
            f = self.p.functions.get(t.args[0])
            if f is not None and f.cls is None and self.policy.want(f) and f.qual not in st.stack and not f.unknown_decorator and st.depth < self.policy.max_depth:
                ps, var, kwo, kwv = f.params()
                if not var and not kwv and not kwo:
                    self._lamdepth += 1
                    d = self._lamdepth
                    try:
                        if d > 6:
                            return t
                        sub = State(f.module, None, Env(), dict(st.heap), st.depth + 1, st.stack + (f.qual,))
                        sub.base = mk_and(st.base, st.live)
                        for i, p in enumerate(ps):
                            ph = mk("lp", d, i)
                            ann = self._ann(f, p)
                            ty = self.p.parse_type(f.module, ann) if ann is not None else None
                            if ty:
                                self.symtypes[ph] = ty
                            sub.env[p] = ph
                        out = self._body_outcome(f.node, sub)
                    finally:
                        self._lamdepth -= 1
                    return mk("lam", len(ps), d, out)
        return t

    def _body_outcome(self, node, sub) -> T:
        if isinstance(node, ast.Lambda):
            v = self.ev(node.body, sub)
            ret = self.leak(v, sub)
        else:
            self.block(node.body, sub)
            rets = list(sub.rets)
            if sub.live is not FALSE:
                rets.append((sub.live, NONE, sub.heap))
            ret = (self.leak(rets[-1][1], sub) if rets[-1][1].op == "clo" else rets[-1][1]) if rets else mk("never")
            for g, v, _ in reversed(rets[:-1]):
                ret = mk_ite(g, self.leak(v, sub) if v.op == "clo" else v, ret)
        for g, e, _ in reversed(sub.raises):
            ret = mk_ite(g, e, ret)
        if sub.effects:
            ret = mk("do", tuple((g, e) for g, e in sub.effects), ret)
        return ret

    def call_closure(self, fn, pos, kw, st) -> T:
        node, env, module, cls = self.closures[fn.args[0]]
        a = node.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        key = f"clo{fn.args[0]}"
        if st.depth >= self.policy.max_depth or st.stack.count(key) >= 1:
            return self.opaque_call(mk("recur", getattr(node, "name", "lambda")), pos, kw, st)
        sub = State(module, cls, Env(parent=env), dict(st.heap), st.depth + 1, st.stack + (key,))
        sub.base = mk_and(st.base, st.live)
        sub.excvars = st.excvars
        nd = len(a.defaults)
        for i, p in enumerate(ps):
            if i < len(pos):
                sub.env[p] = pos[i]
            elif p in kw:
                sub.env[p] = kw[p]
            elif i >= len(ps) - nd:
                sub.env[p] = self.ev(a.defaults[i - (len(ps) - nd)], sub)
            else:
                sub.env[p] = UNDEF
        for x, dflt in zip(a.kwonlyargs, a.kw_defaults):
            sub.env[x.arg] = kw[x.arg] if x.arg in kw else (self.ev(dflt, sub) if dflt is not None else UNDEF)
        if a.vararg:
            sub.env[a.vararg.arg] = tm.mk_seq(pos[len(ps):])
        if isinstance(node, ast.Lambda):
            v = self.ev(node.body, sub)
            sub.rets.append((sub.live, v, sub.heap))
            sub.live = FALSE
            gen = False
        else:
            gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(node))
            if gen:
                sub.env["$yield"] = tm.mk_seq(())
            self.block(node.body, sub)
        return self._return_from(sub, st, gen)

    def _return_from(self, sub, st, gen) -> T:
        rets = list(sub.rets)
        if sub.live is not FALSE:
            rets.append((sub.live, sub.env.get("$yield") if gen else NONE, sub.heap))
        dead = FALSE
        for g, e, ln in sub.raises:
            st.raises.append((mk_and(st.live, g), e, ln))
            dead = mk_or(dead, g)
        for g, e in sub.effects:
            st.effects.append((mk_and(st.live, g), e))
        st.calls += sub.calls
        if not rets:
            st.live = FALSE
            return UNDEF
        ret = rets[-1][1]
        heap = dict(rets[-1][2])
        for g, v, h in reversed(rets[:-1]):
            ret = mk_ite(g, v, ret)
            for k in set(h) | set(heap):
                heap[k] = mk_ite(g, h.get(k, self._heap0(k)), heap.get(k, self._heap0(k)))
        st.heap = heap
        if dead is not FALSE:
            st.live = mk_and(st.live, mk_not(dead))
        return ret

    def call_func(self, f: FuncInfo, bound: dict, st: State) -> T:
        """Analyse f in place."""
        self.analysed.add(f.qual)
        # a helper that was extracted does not count as a level of its own
        new = f.qual not in self.policy.inventory and len(st.stack) < 40
        sub = State(f.module, f.cls, Env(), dict(st.heap), st.depth if new else st.depth + 1, st.stack + (f.qual,))
        sub.excvars = st.excvars
        for k, v in bound.items():
            sub.env[k] = v
            ann = self._ann(f, k)
            if ann is not None and self.typeof(v) is None and v.op not in ("num", "seq", "dict", "poly", "clo", "none"):
                ty = self.p.parse_type(f.module, ann, f.cls)
                if ty is not None and not (ty[0] == "c" and ty[1] not in self.p.classes):
                    self.rettypes.setdefault(v, ty)
        sub.base = mk_and(st.base, st.live)
        self._runbody(f, sub)
        r = self._return_from(sub, st, f.is_generator())
        if f.node.returns is not None and self.typeof(r) is None and r.op in ("sym", "attr", "index", "elem", "call", "mcall", "first", "loop"):
            ty = self.p.parse_type(f.module, f.node.returns, f.cls)
            if ty is not None:
                self.rettypes.setdefault(r, ty)
        return r

    def bind(self, f: FuncInfo, pos, kw, selft, star):
        if star and any(x.op == "star" for x in pos):
            # f(*xs) straight through to a vararg
            ps, var, kwo, kwv = f.params()
            n = len(ps) - (1 if selft is not None else 0)
            if var is None or any(x.op == "star" for x in pos[:n]):
                return None
        ps, var, kwo, kwv = f.params()
        b: dict = {}
        names = list(ps)
        if selft is not None and not f.static:
            if not names:
                return None
            b[names.pop(0)] = selft
        rest = list(pos)
        for nme in list(names):
            if rest and rest[0].op != "star":
                b[nme] = rest.pop(0)
                names.remove(nme)
            else:
                break
        if var is not None:
            parts = [x.args[0] if x.op == "star" else tm.mk_seq((x,)) for x in rest]
            b[var] = tm.mk_concat(parts)
        elif rest:
            return None
        extra = {}
        for k, v in kw.items():
            if k in names or k in kwo:
                b[k] = v
                if k in names:
                    names.remove(k)
            elif kwv is not None:
                extra[k] = v
            else:
                return None
        if kwv is not None:
            if "**" in extra and len(extra) == 1:
                b[kwv] = extra["**"]
            else:
                b[kwv] = mk("dict", *[(string(k), v) for k, v in sorted(extra.items())])
        for nme in names + [k for k in kwo if k not in b]:
            if nme not in b:
                d = self._default_of(f, nme)
                if d is None:
                    return None
                b[nme] = d
        return b

    def _unique(self, m: FuncInfo, c: ClassInfo, o: T, name: str) -> bool:
        if o in self.exact or o.op in ("new", "enum"):
            return True
        return not any(name in s.methods for s in c.subclasses())

    def _inlinable(self, m, c, o, name, st) -> bool:
        if m.abstract or m.unknown_decorator or m.qual in st.stack or st.depth >= self.policy.max_depth:
            return False
        if not self.policy.want(m):
            return False
        if c.is_protocol and any(name in s.methods for s in c.subclasses()):
            return False
        if _stub(m.node):
            return False
        return self._unique(m, c, o, name)

    def call_method(self, o: T, name: str, pos, kw, st, fnode=None, star=False) -> T:
        if o.op == "ite" and not (name in MUTATORS):
            return self._call_ite(o, lambda l, s: self.call_method(l, name, pos, kw, s, fnode, star), st)
        if o.op == "raise":
            return o
        if o is UNDEF:
            return UNDEF
        if st is not None and (o, name) in st.heap:
            return self.call_value(st.heap[(o, name)], pos, kw, st, star)
        if o.op == "glob":
            q = o.args[0]
            c = self.p.classes.get(q)
            if c is not None:
                m = c.find_method(name)
                if m is not None:
                    if m.classm:
                        return self.call_resolved(m, o, c, pos, kw, st, star)
                    if m.static:
                        return self.call_resolved(m, None, c, pos, kw, st, star)
                    # Class.method(obj, ...)
                    if pos:
                        return self.call_resolved(m, pos[0], c, pos[1:], kw, st, star)
                for k in c.mro():
                    if name in k.nested:
                        return self.construct(k.nested[name], pos, kw, st, star)
                a = c.find_attr(name)
                if a is not None and isinstance(a[1], ast.Lambda):
                    return self.call_value(self.ev(a[1], State(a[0].module, a[0])), pos, kw, st, star)
                if name in ("model_validate",) and len(pos) == 1:
                    pass
                return self._opaque_mcall(o, name, pos, kw, st)
            r = self.ext_call(f"{q}.{name}", pos, kw, st, star)
            if r is not None:
                return r
            return self.opaque_call(mk("glob", f"{q}.{name}"), pos, kw, st)
        ty = self.typeof(o)
        cl = self.classes_of(ty)
        if len(cl) == 1:
            c = cl[0]
            m = c.find_method(name)
            if m is not None:
                if m.prop:
                    pv = self.getattr(o, name, st)
                    if pv.op == "attr":
                        return self.opaque_call(pv, pos, kw, st)
                    return self.call_value(pv, pos, kw, st, star)
                if self._inlinable(m, c, o, name, st):
                    b = self.bind(m, pos, kw, (mk("glob", c.qual) if m.classm else (None if m.static else o)), star)
                    if b is not None:
                        return self.call_func(m, b, st)
                return self._opaque_mcall(o, name, pos, kw, st, m, c)
            # attribute holding a callable
            at = self.getattr(o, name, st)
            if at.op in ("clo", "partial", "glob", "lam"):
                return self.call_value(at, pos, kw, st, star)
            if name in ("model_copy", "copy") and c.is_pydantic:
                u = kw.get("update")
                if u is None:
                    return o if not kw or True else o
                if u.op == "dict" and all(k.op == "str" for k, _ in u.args):
                    return self._replace(o, {k.args[0]: v for k, v in u.args}, c)
            if c.is_namedtuple and name == "_replace":
                return self._replace(o, kw, c)
        if name in MUTATORS and fnode is not None and not any(c.find_method(name) for c in cl):
            r = self._mutate(o, name, pos, kw, st, fnode)
            if r is not None:
                return r
        r = self._builtin_method(o, name, pos, kw, st, ty, cl)
        if r is not None:
            return r
        return self._opaque_mcall(o, name, pos, kw, st)

    def _replace(self, o, upd, c):
        if o.op == "new":
            d = dict(o.args[1])
            d.update(upd)
            return self._mknew(c, d)
        if o.op == "replace":
            d = dict(o.args[1])
            d.update(upd)
            t = mk("replace", o.args[0], tuple(sorted(d.items())))
        else:
            t = mk("replace", o, tuple(sorted(upd.items())))
        self.rettypes.setdefault(t, ("c", c.qual))
        return t

    def _opaque_mcall(self, o, name, pos, kw, st, m=None, c=None) -> T:
        for x in list(pos) + list(kw.values()):
            if x.op == "raise":
                return x
        rettype = None
        cands = [m] if m is not None else ([f for f in self.p.methods_named(name) if f.cls is not None] if name not in _COMMON else [])
        if not cands and m is None:
            cands = []
        sig = None
        if cands:
            sigs = {tuple(f.params()[0][0 if f.static else 1:] + f.params()[2]) for f in cands}
            if len(sigs) == 1:
                sig = cands[0]
            elif m is not None:
                sig = m
        p2, k2 = list(pos), dict(kw)
        if sig is not None and not any(x.op == "star" for x in pos) and "**" not in kw:
            ps, var, kwo, kwv = sig.params()
            ps = ps if sig.static else ps[1:]
            if not var and len(p2) <= len(ps):
                for i, x in enumerate(p2):
                    k2.setdefault(ps[i], x)
                p2 = []
                for k in list(k2):
                    d = self._default_of(sig, k) if (k in ps or k in kwo) else None
                    if d is not None and d is k2[k]:
                        del k2[k]
        ci = c
        t = mk("mcall", o, name, tuple(self.leak(x, st) for x in p2), tuple(sorted(((k, self.leak(v, st)) for k, v in k2.items()), key=lambda kv: kv[0])))
        if m is None and cands:
            rts = {ast.dump(f.node.returns) if f.node.returns is not None else "" for f in cands}
            if len(rts) == 1 and not cl_known(o, self):
                m = cands[0]
        if m is not None and m.node.returns is not None:
            rettype = self.p.parse_type(m.module, m.node.returns, ci or m.cls)
            if rettype is not None:
                self.rettypes.setdefault(t, rettype)
        st.calls.append(t)
        return t

    def call_resolved(self, f: FuncInfo, selft, c, pos, kw, st, star=False) -> T:
        """Static function / classmethod / unbound method."""
        if f.name == "assert_never" :
            st.raises.append((st.live, mk(RAISE, "assert_never"), 0)); st.live = FALSE
            return UNDEF
        b = self.bind(f, pos, kw, selft, star)
        if b is not None and not f.abstract and not f.unknown_decorator and st.stack.count(f.qual) < 1 and \
                st.depth < self.policy.max_depth and self.policy.want(f) and not _stub(f.node):
            return self.call_func(f, b, st)
        if selft is not None and not f.classm:
            return self._opaque_mcall(selft, f.name, pos, kw, st, f, c)
        if f.cls is not None:
            return self._opaque_mcall(mk("glob", (c or f.cls).qual), f.name, pos, kw, st, f, c)
        k2, p2 = dict(kw), list(pos)
        ps, var, kwo, kwv = f.params()
        if not var and not any(x.op == "star" for x in pos) and len(p2) <= len(ps) and "**" not in kw:
            for i, x in enumerate(p2):
                k2.setdefault(ps[i], x)
            p2 = []
            for k in list(k2):
                if k in ps or k in kwo:
                    d = self._default_of(f, k)
                    if d is not None and d is k2[k]:
                        del k2[k]
        rt = self.p.parse_type(f.module, f.node.returns, f.cls) if f.node.returns is not None else None
        return self.opaque_call(mk("glob", f.qual), p2, k2, st, rt)

    def construct(self, c: ClassInfo, pos, kw, st, star=False) -> T:
        for x in list(pos) + list(kw.values()):
            if x.op == "raise":
                return x
        if c.is_enum:
            if len(pos) == 1:
                if pos[0].op == "enum":
                    return pos[0]
                if pos[0].op == "str":
                    for nm, vn in c.attrs.items():
                        if isinstance(vn, ast.Constant) and vn.value == pos[0].args[0]:
                            return mk("enum", f"{c.qual}.{nm}")
                t = mk("call", mk("glob", c.qual), (pos[0],), ())
                self.rettypes.setdefault(t, ("c", c.qual))
                return t
        init = c.find_method("__init__")
        d: dict | None = {}
        if star:
            d = None
        elif init is not None:
            ps, var, kwo, kwv = init.params()
            ps = ps[1:]
            if len(pos) > len(ps) and not var:
                d = None
            else:
                for n, x in zip(ps, pos):
                    d[n] = x
                if var:
                    d[var] = tm.mk_seq(pos[len(ps):])
                d.update(kw)
        elif c.is_dataclass or c.is_pydantic or c.is_namedtuple:
            names = [f[0] for f in c.all_fields()]
            if len(pos) > len(names):
                d = None
            else:
                for n, x in zip(names, pos):
                    d[n] = x
                d.update(kw)
        else:
            for i, x in enumerate(pos):
                d[f"#{i}"] = x
            d.update(kw)
        if d is None:
            t = self.opaque_call(mk("glob", c.qual), pos, kw, st)
            self.rettypes.setdefault(t, ("c", c.qual))
            return t
        d = {k: self.leak(v, st) for k, v in d.items()}
        # drop explicit defaults
        for k in list(d):
            dv = None
            if init is not None:
                dv = self._default_of(init, k)
            else:
                for fn, ann, dvn, k2 in c.all_fields():
                    if fn == k and dvn is not None:
                        dd = _field_default(dvn)
                        if dd is not None:
                            dv = self.ev(dd, State(k2.module, k2))
            if dv is not None and dv is d[k]:
                del d[k]
        t = self._mknew(c, d)
        st.calls.append(t)
        return t

    def _mknew(self, c, d):
        if any(v.op == "raise" for v in d.values()):
            return next(v for v in d.values() if v.op == "raise")
        return mk("new", c.qual, tuple(sorted(d.items(), key=lambda kv: kv[0])))

    # ---------------------------------------------------------------- mutation of containers
    def _mutate(self, o, name, pos, kw, st, fnode):
        tgt = fnode.value
        ty = self.typeof(o)
        if name == "append" and len(pos) == 1:
            self._store_back(tgt, tm.mk_concat([o, tm.mk_seq((self.leak(pos[0], st),))]), o, st, ("append", pos[0]))
            return NONE
        if name == "extend" and len(pos) == 1:
            self._store_back(tgt, tm.mk_concat([o, self.iterable(pos[0], st)]), o, st, ("extend", pos[0]))
            return NONE
        if name == "insert" and len(pos) == 2 and pos[0] is ZERO:
            self._store_back(tgt, tm.mk_concat([tm.mk_seq((pos[1],)), o]), o, st, ("insert0", pos[1]))
            return NONE
        if name == "update" and len(pos) == 1 and not kw:
            x = pos[0]
            if ty is not None and ty[0] not in ("dict", "list"):
                return None
            if x.op == "dict" and o.op == "dict":
                cur = o
                for k, v in x.args:
                    cur = self._dlit(cur, k, v)
                new = cur
            else:
                new = mk("dmerge", o, x)
            self._store_back(tgt, new, o, st, ("update", x))
            return NONE
        if name == "add" and len(pos) == 1 and (o.op in ("set", "setadd", "concat", "carry") or (ty and ty[0] == "list")):
            self._store_back(tgt, mk("setadd", o, pos[0]), o, st, ("add", pos[0]))
            return NONE
        if name == "sort":
            self._store_back(tgt, self._sorted([o], kw, st), o, st, ("sort",))
            return NONE
        if name == "reverse":
            self._store_back(tgt, mk("reversed", o), o, st, ("reverse",))
            return NONE
        if name == "setdefault" and len(pos) in (1, 2) and not kw and not (ty is not None and ty[0] == "c" and ty[1] in self.p.classes):
            d = pos[1] if len(pos) == 2 else NONE
            c = self.contains(pos[0], o, st)
            self._store_back(tgt, mk_ite(c, o, self._dset(o, pos[0], d)), o, st, (name,) + tuple(pos))
            return mk_ite(c, tm.mk_index(o, pos[0]), d)
        if name in ("pop", "popleft", "popitem", "remove", "discard", "clear", "insert", "appendleft", "setdefault", "move_to_end"):
            if ty is not None and ty[0] == "c" and ty[1] in self.p.classes:
                return None
            self._store_back(tgt, mk("popped", o, name, tuple(pos), tuple(sorted(kw.items()))), o, st, (name,) + tuple(pos))
            return mk("popval", o, name, tuple(pos))
        return None

    def _sorted(self, pos, kw, st):
        x = self.iterable(pos[0], st)
        key = self.leak(kw["key"], st) if "key" in kw else NONE
        rev = kw.get("reverse", FALSE)
        if x.op == "set":
            pass
        return mk("sorted", x, key, rev)

    def _builtin_method(self, o, name, pos, kw, st, ty, cl):
        if cl:
            return None
        isdict = (ty is not None and ty[0] == "dict") or o.op in ("dict", "dmap", "dset", "dmerge")
        if name == "items" and not pos:
            return mk("items", o)
        if name == "keys" and not pos:
            return tm.mk_keys(o)
        if name == "values" and not pos:
            return tm.mk_values(o)
        if name == "get" and len(pos) in (1, 2) and (isdict or ty is None):
            d = pos[1] if len(pos) == 2 else kw.get("default", NONE)
            if o.op == "dict":
                r = tm.mk_index(o, pos[0])
                return tm.map_leaves(r, lambda l: d if l.op == "raise" else l)
            return mk_ite(self.contains(pos[0], o, st), tm.mk_index(o, pos[0]), d)
        if name == "__iter__":
            return self.iterable(o, st)
        if name == "__contains__" and len(pos) == 1:
            return self.contains(pos[0], o, st)
        if name == "__getitem__" and len(pos) == 1 and not kw:
            return self.index(o, pos[0], st)
        if name in ("tolist",) and not pos:
            return o
        if name == "copy" and not pos:
            return o
        if name == "sum" and not pos and not kw:
            return tm.mk_sum(o)
        if name == "any" and not pos and not kw:
            return tm.mk_any(o)
        if name == "all" and not pos and not kw:
            return tm.mk_all(o)
        if name in ("max", "min") and not pos and not kw:
            return self.extremum_seq("s" + name, o)
        if name == "format" and o.op in ("str", "fstr"):
            return mk("fmtcall", o, *pos, *[mk("kw", string(k), v) for k, v in sorted(kw.items())])
        if name == "join" and o.op == "str":
            return mk("join", o, *pos)
        if name in ("index",) and len(pos) == 1 and o.op == "seq":
            pass
        return None

    # ---------------------------------------------------------------- builtins and libraries
    def ext_call(self, q, pos, kw, st, star) -> T | None:
        for x in pos:
            if x.op == "raise":
                return x
        if q.startswith("builtins."):
            return self._builtin(q[9:], pos, kw, st, star)
        if q in NP_IDENT and pos:
            x = self.iterable(pos[0], st)
            d = kw.get("dtype") or (pos[1] if len(pos) > 1 and q != "numpy.copy" else None)
            if d is not None and d not in _FLOATS:
                return mk("call", mk("glob", "numpy.asarray"), (x, d), ())
            return x
        n = len(pos)
        short = q.split(".")[-1]
        root = q.split(".")[0]
        if q in ("copy.copy",):
            return pos[0]
        if q == "typing.cast" and n == 2:
            return pos[1]
        if q in ("typing.assert_never", "typing_extensions.assert_never"):
            st.raises.append((st.live, mk(RAISE, "assert_never"), 0))
            st.live = FALSE
            return UNDEF
        if q in ("dataclasses.replace", "copy.replace") and n == 1:
            cl = self.classes_of(self.typeof(pos[0]))
            if cl:
                return self._replace(pos[0], kw, cl[0])
        if q == "functools.partial" and n >= 1:
            return mk("partial", pos[0], tuple(pos[1:]), tuple(sorted(kw.items())))
        if q == "functools.reduce" and n in (2, 3):
            return self._reduce(pos, st)
        if q == "itertools.chain" and not star:
            return tm.mk_concat([self.iterable(x, st) for x in pos])
        if q == "itertools.chain.from_iterable" and n == 1:
            return self._flatten(pos[0], st)
        if q == "itertools.pairwise" and n == 1:
            return mk("zip", mk("slice", pos[0], NONE, num(-1), NONE), mk("slice", pos[0], ONE, NONE, NONE))
        if q == "itertools.accumulate":
            return None
        if q in _OPERATORS and n == 2 and not kw and not star:
            return self.binop(_OPERATORS[q], pos[0], pos[1], st)
        if q == "operator.getitem" and n == 2 and not kw and not star:
            return self.index(pos[0], pos[1], st)
        if q == "operator.itemgetter" and n == 1 and not kw and pos[0].op in ("num", "str"):
            return mk("lam", 1, 1, mk("index", mk("lp", 1, 0), pos[0]))
        if q == "itertools.starmap" and n == 2 and not star:
            return self._map_call(pos[0], pos[1], st, True)
        if q in ("operator.attrgetter",) and n == 1 and pos[0].op == "str":
            return mk("lam", 1, 1, mk("attr", mk("lp", 1, 0), pos[0].args[0]))
        if q == "collections.OrderedDict" and n <= 1:
            return pos[0] if n else mk("dict")
        if q == "collections.defaultdict":
            return mk("dict") if n == 0 else mk("defaultdict", pos[0])
        if q == "collections.deque" and n <= 1 and not kw:
            return self.iterable(pos[0], st) if n else tm.mk_seq(())
        if root in ("numpy", "math", "np"):
            if short in ("add",) and n == 2:
                return tm.mk_add(pos)
            if short == "subtract" and n == 2:
                return tm.mk_sub(pos[0], pos[1])
            if short == "multiply" and n == 2:
                return tm.mk_mul(pos)
            if short in ("divide", "true_divide") and n == 2 and not kw:
                return tm.mk_div(pos[0], pos[1])
            if short in ("power", "pow") and n == 2:
                return tm.mk_pow(pos[0], pos[1])
            if short == "sqrt" and n == 1:
                return tm.mk_pow(pos[0], num("1/2"))
            if short in ("maximum", "fmax") and n == 2:
                return tm.mk_max(pos)
            if short in ("minimum", "fmin") and n == 2:
                return tm.mk_min(pos)
            if short == "where" and n == 3:
                return mk_ite(as_cond(pos[0]), pos[1], pos[2])
            if short == "clip" and n == 3:
                return tm.mk_min([tm.mk_max([pos[0], pos[1]]), pos[2]])
            if short in ("abs", "absolute", "fabs") and n == 1:
                return tm.mk_max([pos[0], tm.mk_neg(pos[0])])
            if short in ("sum", "fsum") and n == 1 and (not kw):
                return tm.mk_sum(pos[0])
            if short == "sum" and n == 1 and set(kw) == {"axis"} and kw["axis"] is ZERO and pos[0].op in ("seq", "map", "concat", "flatmap"):
                return tm.mk_sum(pos[0])
            if short == "any" and n == 1 and not kw:
                return tm.mk_any(pos[0])
            if short == "all" and n == 1 and not kw:
                return tm.mk_all(pos[0])
            if short in ("max", "amax", "nanmax") and n == 1 and not kw:
                return self.extremum_seq("smax" if short != "nanmax" else "snanmax", pos[0]) if short != "nanmax" else None
            if short in ("min", "amin") and n == 1 and not kw:
                return self.extremum_seq("smin", pos[0])
            if short in ("logical_and",) and n == 2:
                return mk_and(*pos)
            if short in ("logical_or",) and n == 2:
                return mk_or(*pos)
            if short in ("logical_not", "invert") and n == 1:
                return mk_not(as_cond(pos[0]))
            if short == "isnan" and n == 1:
                return tm._atom_cond(mk("isnan", pos[0]))
            if short in ("nan", "inf"):
                return mk("fconst", short)
            if short in ("negative",) and n == 1:
                return tm.mk_neg(pos[0])
        return None

    def _flatten(self, t, st):
        t = self.iterable(t, st)
        if t.op == "seq":
            return tm.mk_concat([self.iterable(x, st) for x in t.args])
        bv = tm.fresh_bv()
        iters, item, c = self.iteration(t, bv, st)
        return tm.mk_flatmap(iters, bv, c, self.iterable(item, st))

    def _reduce(self, pos, st):
        f, xs = pos[0], self.iterable(pos[1], st)
        bv = tm.fresh_bv()
        iters, item, c = self.iteration(xs, bv, st)
        self._carry += 1
        ph = mk("carry", self._carry, "acc", "")
        cid = self._carry
        ty = self.typeof(pos[2]) if len(pos) == 3 else self.typeof(item)
        if ty:
            self.rettypes[ph] = ty
        u = self.call_value(f, [ph, item], {}, st)
        if c is not TRUE:
            u = mk_ite(c, u, ph)
        if len(pos) == 3:
            r = self._fold(pos[2], ph, u, iters, bv, lambda t: tm.contains(t, lambda x: x.op == "carry" and x.args[0] == cid))
            if r is not None:
                return r
        cl = 1 + max([s_.args[0] for s_ in tm.subterms(u) if s_.op == "carried"] + [-1])
        L, (u2,) = tm.close(bv, tm.subst(u, {ph: mk("carried", cl, 0)}))
        r = mk("reduce", tm.norm_iters(iters, bv, u), u2, pos[2] if len(pos) == 3 else NONE)
        if ty:
            self.rettypes[r] = ty
        return r

    def _builtin(self, nm, pos, kw, st, star) -> T | None:
        n = len(pos)
        if star and nm not in ("zip", "max", "min", "print"):
            return None
        if nm == "len" and n == 1:
            x = pos[0]
            cl = self.classes_of(self.typeof(x))
            if len(cl) == 1 and cl[0].find_method("__len__"):
                m = cl[0].find_method("__len__")
                if self._unique(m, cl[0], x, "__len__") and m.qual not in st.stack:
                    return self.call_func(m, {m.params()[0][0]: x}, st)
            return tm.mk_len(x)
        if nm in ("list", "tuple", "iter"):
            return self.iterable(pos[0], st) if n else tm.mk_seq(())
        if nm in ("float",) and n == 1:
            if pos[0].op == "str":
                try:
                    return num(float(pos[0].args[0])) if pos[0].args[0] not in ("nan", "inf", "-inf", "NaN") else mk("fconst", pos[0].args[0].lower())
                except ValueError:
                    pass
            return pos[0]
        if nm == "bool" and n == 1:
            return as_cond(pos[0])
        if nm == "str" and n == 1 and pos[0].op == "str":
            return pos[0]
        if nm in ("set", "frozenset"):
            return mk("set", self.iterable(pos[0], st) if n else tm.mk_seq(()))
        if nm == "dict":
            cur = pos[0] if n else mk("dict")
            if cur.op == "zip" and len(cur.args) == 2:
                bv = tm.fresh_bv()
                iters, item, c = self.iteration(cur, bv, st)
                cur = tm.mk_dmap(iters, bv, c, item.args[0], item.args[1])
            for k, v in kw.items():
                if k == "**":
                    cur = mk("dmerge", cur, v)
                else:
                    cur = self._dlit(cur, string(k), v)
            return cur
        if nm == "range":
            a, b, s = (ZERO, pos[0], ONE) if n == 1 else (pos[0], pos[1], pos[2] if n == 3 else ONE)
            if all(x.op == "num" for x in (a, b, s)) and abs(b.args[0] - a.args[0]) <= 12 and s.args[0] != 0:
                return tm.mk_seq(num(i) for i in range(int(a.args[0]), int(b.args[0]), int(s.args[0])))
            return mk("range", a, b, s)
        if nm == "zip":
            ps = [self.iterable(x, st) for x in pos]
            if not star:
                self.zips.append((tuple(ps), kw.get("strict") is TRUE))
            if all(p.op == "seq" for p in ps) and ps:
                m = min(len(p.args) for p in ps)
                return tm.mk_seq(tm.mk_seq(p.args[i] for p in ps) for i in range(m))
            if star:
                return mk("zip*", *pos)
            return mk("zip", *ps)
        if nm == "enumerate":
            x = self.iterable(pos[0], st)
            start = pos[1] if n > 1 else kw.get("start", ZERO)
            if x.op == "seq" and not any(a.op == "star" for a in x.args):
                return tm.mk_seq(tm.mk_seq((tm.mk_add([num(i), start]), e)) for i, e in enumerate(x.args))
            return mk("enumerate", x, start)
        if nm == "reversed" and n == 1:
            x = self.iterable(pos[0], st)
            if x.op == "seq":
                return tm.mk_seq(x.args[::-1])
            if x.op == "reversed":
                return x.args[0]
            return mk("reversed", x)
        if nm == "sorted" and n == 1:
            return self._sorted(pos, kw, st)
        if nm == "sum":
            x = self.iterable(pos[0], st)
            s0 = pos[1] if n > 1 else kw.get("start", ZERO)
            # elements that are repo objects use their own addition
            ety = self.elem_type(self.typeof(x))
            if self.classes_of(ety) and any(c.find_method("__add__") for c in self.classes_of(ety)):
                return mk("osum", x, s0)
            return tm.mk_add([s0, tm.mk_sum(x)]) if s0.op != "seq" else self._flatten(x, st)
        if nm in ("any", "all") and n == 1:
            x = self.iterable(pos[0], st)
            return tm.mk_any(x) if nm == "any" else tm.mk_all(x)
        if nm in ("max", "min"):
            f = tm.mk_max if nm == "max" else tm.mk_min
            if "key" in kw:
                return self.opaque_call(mk("glob", "builtins." + nm), [self.iterable(p, st) for p in pos] if n == 1 else pos, kw, st)
            if n > 1 and not star:
                return f(pos)
            if n == 1 and pos[0].op == "star":
                return self.extremum_seq("s" + nm, pos[0].args[0])
            if star:
                return f([self.extremum_seq("s" + nm, p.args[0]) if p.op == "star" else p for p in pos])
            x = self.iterable(pos[0], st)
            r = self.extremum_seq("s" + nm, x)
            if "default" in kw:
                return mk_ite(as_cond(x), r, kw["default"])
            return r
        if nm == "abs" and n == 1:
            return tm.mk_max([pos[0], tm.mk_neg(pos[0])])
        if nm == "map" and n == 2:
            return self._map_call(pos[0], pos[1], st)
        if nm == "map" and n > 2 and not star:
            return self._map_call(pos[0], self._builtin("zip", pos[1:], {}, st, False), st, True)
        if nm == "filter" and n == 2:
            x = self.iterable(pos[1], st)
            bv = tm.fresh_bv()
            iters, item, c = self.iteration(x, bv, st)
            s2 = self._substate(st)
            v = item if pos[0] is NONE else self.call_value(pos[0], [item], {}, s2)
            self._absorb(st, s2, bv, iters, c)
            return tm.mk_map(iters, bv, mk_and(c, as_cond(v)), item)
        if nm == "next" and n >= 1:
            x = pos[0]
            d = pos[1] if n > 1 else mk(RAISE, "builtins.StopIteration")
            if x.op == "map":
                iters, c, body = x.args
                bv = tm.fresh_bv()
                top = mk("bv", "L", tm._level_of(c, body))
                c2, b2 = tm.subst(c, {top: bv}), tm.subst(body, {top: bv})
                anyx = tm.mk_any_over(iters, bv, c2)
                its = tm.norm_iters(iters, bv, c2, b2)
                f = mk("first", its, *tm.close(bv, c2, b2)[1]) if bv in tm.bvs(b2) else b2
                ty = self.typeof(b2)
                if ty:
                    self.rettypes[f] = ty
                if d.op == RAISE:
                    g = mk_not(anyx)
                    st.raises.append((mk_and(st.live, g), d, 0))
                    st.live = mk_and(st.live, anyx)
                    return f
                return mk_ite(anyx, f, d)
            return None
        if nm == "getattr" and n >= 2 and pos[1].op == "str":
            if n == 2:
                return self.getattr(pos[0], pos[1].args[0], st)
            return mk_ite(tm._atom_cond(mk("hasattr", pos[0], pos[1].args[0])), self.getattr(pos[0], pos[1].args[0], st), pos[2])
        if nm == "hasattr" and n == 2 and pos[1].op == "str":
            return tm._atom_cond(mk("hasattr", pos[0], pos[1].args[0]))
        if nm == "setattr" and n == 3 and pos[1].op == "str":
            self.setattr(pos[0], pos[1].args[0], pos[2], st)
            return NONE
        if nm == "type" and n == 1:
            cl = self.classes_of(self.typeof(pos[0]))
            if pos[0] in self.exact and len(cl) == 1:
                return mk("glob", cl[0].qual)
            if pos[0].op == "new":
                return mk("glob", pos[0].args[0])
            return mk("typeof", pos[0])
        if nm == "round" and n == 1:
            return None
        if nm == "slice":
            p = [NONE, pos[0], NONE] if n == 1 else [pos[0], pos[1], pos[2] if n == 3 else NONE]
            return mk("mkslice", *p)
        if nm == "isinstance" and n == 2:
            if pos[1].op == "glob":
                return self.isinst(pos[0], pos[1].args[0])
            if pos[1].op == "seq":
                return mk_or(*[self.isinst(pos[0], c.args[0]) for c in pos[1].args])
        return None


class _ClassEnv(Env):
    """Names visible in a class body."""
    __slots__ = ("it", "k")

    def __init__(self, it, k):
        super().__init__()
        self.it, self.k = it, k

    def lookup(self, n):
        if n in self.k.attrs:
            return self.it.getattr(mk("glob", self.k.qual), n, None)
        return None


def _ann_nonnull(ann):
    try:
        t = ast.unparse(ann)
    except Exception:
        return False
    return not any(w in t for w in ("None", "Optional", "Any"))


def _ndarray(t):
    return t is not None and t[0] == "c" and t[1].startswith("numpy")


def cl_known(o, it):
    return bool(it.classes_of(it.typeof(o)))


def _anon(t, cid):
    m = {}
    for s in tm.subterms(t):
        if s.op == "carry" and s.args[0] == cid:
            m[s] = mk("carried", -1, -1)
    return tm.subst(t, m)


def body_rets_touched(st, live0):
    return True


def _fresh(t):
    return t.op in ("seq", "dict", "concat", "map", "flatmap", "dmap", "dset", "dmerge", "set", "setadd", "carry", "sorted", "popped", "defaultdict", "loop", "loopbreak", "ite", "repeat", "poly", "call", "popval")


def _stub(node):
    body = [s for s in node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return not body or all(isinstance(s, ast.Pass) for s in body) and len(node.body) == 1


def _has_ctl(body):
    """break/continue belonging to this loop."""
    stack = list(body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Break, ast.Continue)):
            return True
        if isinstance(n, (ast.For, ast.While)):
            stack.extend(n.orelse)
            continue
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


def _target_names(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}


def _load(node):
    import copy as _c
    n = _c.copy(node)
    n.ctx = ast.Load()
    return n


def _table_like(node):
    """dict/list/tuple displays (possibly holding lambdas, calls to constructors) are evaluated."""
    return isinstance(node, (ast.Dict, ast.List, ast.Tuple, ast.Set))


def _field_default(node):
    """AST of the default of a dataclass/pydantic field, or None if it is computed."""
    if isinstance(node, ast.Call):
        fn = node.func
        nm = fn.id if isinstance(fn, ast.Name) else getattr(fn, "attr", "")
        if nm in ("Field", "field"):
            for k in node.keywords:
                if k.arg == "default":
                    return k.value
                if k.arg == "default_factory":
                    return ast.copy_location(ast.Call(func=k.value, args=[], keywords=[]), node)
            if nm == "Field" and node.args and not (isinstance(node.args[0], ast.Constant) and node.args[0].value is Ellipsis):
                return node.args[0]
            return None
    return node
