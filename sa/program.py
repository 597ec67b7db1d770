"""Loads /repo's current sources and resolves names, classes, methods and types."""
from __future__ import annotations

import ast
import copy
import hashlib
import os
import re

from .prep import MUT, prepare

SRC_PACKAGES = ("libecalc", "ecalc_cli", "ecalc_neqsim_wrapper")


class FuncInfo:
    def __init__(self, qual, module, node, cls=None):
        self.qual, self.module, self.node, self.cls = qual, module, node, cls
        self.name = node.name
        self.decorators = []
        for d in node.decorator_list:
            try:
                self.decorators.append(ast.unparse(d))
            except Exception:
                self.decorators.append("?")
        ds = [d.split("(")[0].split(".")[-1] for d in self.decorators]
        self.static = "staticmethod" in ds
        self.classm = "classmethod" in ds or "field_validator" in ds or "model_validator" in ds and False
        self.prop = any(d in ("property", "cached_property", "computed_field") for d in ds)
        self.setter = any(d.endswith(".setter") for d in self.decorators)
        self.abstract = "abstractmethod" in ds
        known = {"staticmethod", "classmethod", "property", "cached_property", "abstractmethod", "override", "computed_field",
                 "final", "overload", "target", "validate_call", "wraps", "lru_cache", "cache"}
        self.unknown_decorator = [d for d in ds if d not in known]
        if any(d in ("lru_cache", "cache") for d in ds) and not self.arguments_determine():
            self.unknown_decorator.append("cache")
        self.overload = "overload" in ds
        self._yields = None

    def arguments_determine(self):
        """Remembering the results by argument cannot be noticed as far as the arguments go."""
        a = self.node.args
        return all(x.annotation is not None and re.match(r"^(str|int|float|bool|Unit|type|date|datetime|Path)\b", ast.unparse(x.annotation).strip("'\""))
                   for x in a.posonlyargs + a.args + a.kwonlyargs) and not a.vararg and not a.kwarg and \
            (self.node.returns is None or not re.match(r"^(list|dict|set|List|Dict|np\.|NDArray|pd\.)", ast.unparse(self.node.returns).strip("'\"")))

    def is_generator(self):
        if self._yields is None:
            self._yields = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(self.node))
        return self._yields

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args], (a.vararg.arg if a.vararg else None), [x.arg for x in a.kwonlyargs], (a.kwarg.arg if a.kwarg else None)

    def loc(self):
        return f"{self.module.relpath}:{self.node.lineno}"

    def __repr__(self):
        return f"<func {self.qual}>"


def walk_own(node):
    """Walk a function body without descending into nested functions/classes."""
    stack = list(ast.iter_child_nodes(node))
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        stack.extend(ast.iter_child_nodes(n))


class _Inline(ast.NodeTransformer):
    """Names of the class body replaced by what they stand for there."""

    def __init__(self, attrs):
        self.attrs = attrs

    def visit_Name(self, n):
        return self.attrs.get(n.id, n) if isinstance(n.ctx, ast.Load) else n

    def visit_Lambda(self, n):
        return n

    def visit_ListComp(self, n):
        return n

    visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_ListComp


def _inline(value, attrs):
    if value is None or not any(isinstance(x, ast.Name) and x.id in attrs for x in ast.walk(value)):
        return value
    return ast.fix_missing_locations(_Inline(attrs).visit(copy.deepcopy(value)))


class ClassInfo:
    def __init__(self, qual, module, node, program):
        self.qual, self.module, self.node, self.program = qual, module, node, program
        self.name = node.name
        self.methods: dict[str, FuncInfo] = {}
        self.setters: dict[str, FuncInfo] = {}
        self.fields: list = []  # (name, annotation, default) in order, class-level annotated
        self.attrs: dict = {}  # class-level assignments
        self.nested: dict[str, ClassInfo] = {}
        self._body(node.body, qual, module, program)
        self.decorators = [ast.unparse(d) for d in node.decorator_list]
        self._mro = None

    def _body(self, body, qual, module, program):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = FuncInfo(f"{qual}.{st.name}", module, st, self)
                if f.overload:
                    continue
                if f.setter:
                    self.setters[st.name] = f
                else:
                    self.methods[st.name] = f
                    self.attrs.pop(st.name, None)
            elif isinstance(st, ast.If):
                self._body(st.body, qual, module, program)
                self._body(st.orelse, qual, module, program)
            elif isinstance(st, (ast.Try, ast.With)):
                self._body(st.body, qual, module, program)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                v = _inline(st.value, self.attrs)
                self.fields.append((st.target.id, st.annotation, v))
                if v is not None:
                    self.attrs[st.target.id] = v
            elif isinstance(st, ast.Assign):
                v = _inline(st.value, self.attrs)
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self._assigned(t.id, v)
            elif isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name) and st.target.id in self.attrs:
                o = self.attrs[st.target.id]
                self.attrs[st.target.id] = ast.copy_location(ast.Dict([None, None], [o, st.value]) if isinstance(st.op, ast.BitOr) and isinstance(o, ast.Dict)
                                                             else ast.BinOp(o, st.op, st.value), st)
            elif isinstance(st, ast.ClassDef):
                self.nested[st.name] = ClassInfo(f"{qual}.{st.name}", module, st, program)

    def _assigned(self, name, value):
        f = self.methods.get(name)
        if f is not None:
            # a method is replaced or wrapped in the class body
            if isinstance(value, ast.Name) and value.id in self.methods:
                self.methods[name] = FuncInfo(f.qual, f.module, self.methods[value.id].node, self)
                self.methods[name].name = name
                return
            f.unknown_decorator.append(ast.unparse(value)[:60])
            return
        if isinstance(value, ast.Name) and value.id in self.methods:
            g = self.methods[value.id]
            self.methods[name] = FuncInfo(f"{self.qual}.{name}", g.module, g.node, self)
            self.methods[name].name = name
            return
        self.attrs[name] = value

    @property
    def base_quals(self):
        out = []
        for b in self.node.bases:
            if isinstance(b, ast.Subscript):
                b = b.value
            q = self.program.resolve_dotted(self.module, b)
            out.append(q or ast.unparse(b))
        return out

    def mro(self):
        if self._mro is None:
            out = [self]
            for q in self.base_quals:
                c = self.program.classes.get(q)
                if c is not None and c is not self:
                    for x in c.mro():
                        if x in out:
                            out.remove(x)
                        out.append(x)
            self._mro = out
        return self._mro

    def ext_bases(self):
        s = set()
        for c in self.mro():
            for q in c.base_quals:
                if q not in self.program.classes:
                    s.add(q)
        return s

    @property
    def is_dataclass(self):
        return any("dataclass" in d or "value_object" in d for c in self.mro() for d in c.decorators)

    @property
    def is_pydantic(self):
        return any(b.split(".")[-1] in ("BaseModel", "RootModel") for b in self.ext_bases())

    @property
    def is_namedtuple(self):
        return any(b.split(".")[-1] in ("NamedTuple", "TypedDict") for b in self.ext_bases())

    @property
    def is_enum(self):
        return any(b.split(".")[-1] in ("Enum", "StrEnum", "IntEnum") for b in self.ext_bases())

    @property
    def is_protocol(self):
        return any(b.split(".")[-1] == "Protocol" for b in self.base_quals)

    def frozen(self):
        return any("frozen=True" in d or "value_object" in d for d in self.decorators)

    def find_method(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def find_setter(self, name):
        for c in self.mro():
            if name in c.setters:
                return c.setters[name]
        return None

    def find_attr(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def all_fields(self):
        """dataclass / pydantic fields in order (base first)."""
        out: dict = {}
        for c in reversed(self.mro()):
            for n, a, v in c.fields:
                s = ast.unparse(a)
                if s.startswith("ClassVar") or n.startswith("__"):
                    continue
                if n == "model_config":
                    continue
                out[n] = (n, a, v, c)
        return list(out.values())

    def subclasses(self):
        return self.program.subclasses_of(self.qual)

    def __repr__(self):
        return f"<class {self.qual}>"


class Module:
    def __init__(self, name, path, relpath, program):
        self.name, self.path, self.relpath, self.program = name, path, relpath, program
        with open(path, encoding="utf-8") as f:
            self.source = f.read()
        self.tree = ast.parse(self.source, filename=path)
        prepare(self.tree)
        self.is_pkg = os.path.basename(path) == "__init__.py"
        self.symbols: dict = {}
        self.patches: list = []  # (object, attribute, value) assigned by module-level code
        self._collect(self.tree.body)

    def _folded(self, name, make):
        """The value of a module-level name after a statement that modifies it."""
        e = self.symbols.get(name)
        if e is not None and e[0] == "const":
            self.symbols[name] = ("const", self, ast.copy_location(make(e[2]), e[2]))

    def _modifies(self, st):
        """Module-level statements that change a value bound before."""
        if isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name):
            self._folded(st.target.id, lambda o: ast.Dict([None, None], [o, st.value]) if isinstance(st.op, ast.BitOr) and isinstance(o, ast.Dict) else
                         ast.BinOp(o, st.op, st.value))
        elif isinstance(st, (ast.Assign, ast.AnnAssign)):
            for t in st.targets if isinstance(st, ast.Assign) else [st.target]:
                if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and st.value is not None:
                    self._folded(t.value.id, lambda o: ast.Dict([None, t.slice], [o, st.value]))
                elif isinstance(t, ast.Attribute):
                    self.patches.append((t.value, t.attr, st.value))
                elif isinstance(t, (ast.Tuple, ast.List)):
                    for i, x in enumerate(t.elts):
                        if isinstance(x, ast.Name):
                            v = st.value.elts[i] if isinstance(st.value, (ast.Tuple, ast.List)) and len(st.value.elts) == len(t.elts) else \
                                ast.copy_location(ast.Subscript(st.value, ast.Constant(i), ast.Load()), st)
                            self.symbols[x.id] = ("const", self, ast.fix_missing_locations(v))
        elif isinstance(st, ast.Delete):
            for t in st.targets:
                if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
                    self._folded(t.value.id, lambda o: ast.Call(ast.Name("__without__", ast.Load()), [o, t.slice], []))
        elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Call):
            c = st.value
            if isinstance(c.func, ast.Name) and c.func.id == "setattr" and len(c.args) == 3 and isinstance(c.args[1], ast.Constant):
                self.patches.append((c.args[0], c.args[1].value, c.args[2]))
            elif isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and c.func.attr in MUT:
                a, n = c.func.attr, c.func.value.id
                if a == "update" and len(c.args) == 1 and not c.keywords:
                    self._folded(n, lambda o: ast.Dict([None, None], [o, c.args[0]]))
                elif a == "append" and len(c.args) == 1:
                    self._folded(n, lambda o: ast.List([ast.Starred(o, ast.Load()), c.args[0]], ast.Load()))
                elif a == "extend" and len(c.args) == 1:
                    self._folded(n, lambda o: ast.List([ast.Starred(o, ast.Load()), ast.Starred(c.args[0], ast.Load())], ast.Load()))
                else:
                    self._folded(n, lambda o: ast.Call(ast.Name("__changed__", ast.Load()), [o, c], []))
        elif isinstance(st, (ast.For, ast.While)):
            for n in ast.walk(st):
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
                    self._folded(n.value.id, lambda o: ast.Call(ast.Name("__changed__", ast.Load()), [o], []))
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT and isinstance(n.func.value, ast.Name):
                    self._folded(n.func.value.id, lambda o: ast.Call(ast.Name("__changed__", ast.Load()), [o], []))
                elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                    self._folded(n.target.id, lambda o: ast.Call(ast.Name("__changed__", ast.Load()), [o], []))
                elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    self.patches.append((n.value, n.attr, None))
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) == 3:
                    self.patches.append((n.args[0], n.args[1].value if isinstance(n.args[1], ast.Constant) else None, None))

    def _collect(self, body):
        for st in body:
            self._modifies(st)
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = FuncInfo(f"{self.name}.{st.name}", self, st)
                if f.overload:
                    continue
                self.symbols[st.name] = ("func", f)
            elif isinstance(st, ast.ClassDef):
                self.symbols[st.name] = ("class", ClassInfo(f"{self.name}.{st.name}", self, st, self.program))
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.symbols[a.asname] = ("module", a.name)
                    else:
                        self.symbols[a.name.split(".")[0]] = ("module", a.name.split(".")[0])
            elif isinstance(st, ast.ImportFrom):
                mod = self.abs_module(st)
                for a in st.names:
                    self.symbols[a.asname or a.name] = ("from", mod, a.name)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.symbols[t.id] = ("const", self, st.value)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                self.symbols[st.target.id] = ("const", self, st.value)
            elif isinstance(st, ast.TypeAlias):
                self.symbols[st.name.id] = ("const", self, st.value)
            elif isinstance(st, ast.If):
                self._collect(st.body)
                self._collect(st.orelse)
            elif isinstance(st, ast.Try):
                self._collect(st.body)
                for h in st.handlers:
                    self._collect(h.body)
            elif isinstance(st, ast.With):
                self._collect(st.body)

    def abs_module(self, st):
        mod = st.module or ""
        if st.level:
            parts = self.name.split(".")
            if not self.is_pkg:
                parts = parts[:-1]
            parts = parts[: len(parts) - (st.level - 1)]
            mod = ".".join(parts + ([mod] if mod else []))
        return mod


def _container(d) -> bool:
    """An expression that makes an object which can be modified in place."""
    if isinstance(d, ast.Call):
        n = d.func.attr if isinstance(d.func, ast.Attribute) else getattr(d.func, "id", None)
        return n in ("list", "dict", "set", "defaultdict", "OrderedDict", "Counter", "deque", "array", "zeros", "ones", "full", "empty", "DataFrame", "DiGraph")
    return isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp))


class Program:
    def __init__(self, root="/repo/src", packages=SRC_PACKAGES):
        self.root = root
        self.modules: dict[str, Module] = {}
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "inventory_cached.txt")) as fh:
            self.cached = frozenset(x.strip() for x in fh if x.strip())
        self.classes: dict[str, ClassInfo] = {}
        self.functions: dict[str, FuncInfo] = {}
        h = hashlib.sha256()
        for pkg in packages:
            base = os.path.join(root, pkg)
            for d, dirs, files in sorted(os.walk(base)):
                dirs.sort()
                if "__pycache__" in d:
                    continue
                if "/tests" in d[len(root):] or "/fixtures" in d[len(root):] or d.endswith("/testing"):
                    pass
                for fn in sorted(files):
                    if not fn.endswith(".py"):
                        continue
                    p = os.path.join(d, fn)
                    rel = os.path.relpath(p, root)[:-3].replace(os.sep, ".")
                    if rel.endswith(".__init__"):
                        rel = rel[: -len(".__init__")]
                    m = Module(rel, p, os.path.relpath(p, os.path.dirname(root)), self)
                    self.modules[rel] = m
                    h.update(rel.encode() + m.source.encode())
        self.digest = h.hexdigest()
        for m in self.modules.values():
            for kind, *rest in m.symbols.values():
                if kind == "class":
                    self._reg_class(rest[0])
                elif kind == "func":
                    self.functions[rest[0].qual] = rest[0]
        self._sub = None
        self._byname = None
        self.patched = {}  # qualified name of a method or function replaced by module-level code -> where
        for m in self.modules.values():
            for obj, attr, value in m.patches:
                self._patch(m, obj, attr, value)
            for name, e in m.symbols.items():
                # f = wrap(f) after def f
                if e[0] == "const" and isinstance(e[2], ast.Call) and any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(e[2])):
                    self.patched[f"{m.name}.{name}"] = f"{m.relpath}:{e[2].lineno}"

    def _patch(self, m, obj, attr, value):
        r = self.resolve_expr(m, obj) if isinstance(obj, (ast.Name, ast.Attribute)) else None
        where = f"{m.relpath}:{getattr(obj, 'lineno', 0)}"
        if r is None:
            return
        if r[0] == "class":
            c = r[1]
            if attr is None:
                for n in c.methods:
                    self.patched[f"{c.qual}.{n}"] = where
                return
            v = self.resolve_expr(m, value) if isinstance(value, (ast.Name, ast.Attribute)) else None
            if v is not None and v[0] == "func":
                f = FuncInfo(f"{c.qual}.{attr}", v[1].module, v[1].node, c)
                c.methods[attr] = self.functions[f.qual] = f
                f.name = attr
            elif isinstance(value, ast.Name) and c.qual.rpartition(".")[2] == value.id:
                return
            elif attr in c.methods or value is None:
                self.patched[f"{c.qual}.{attr}"] = where
            else:
                c.attrs[attr] = value
        elif r[0] == "module" and r[1] in self.modules:
            t = self.modules[r[1]]
            e = t.symbols.get(attr)
            if e is not None and e[0] == "func" or value is None:
                self.patched[f"{t.name}.{attr}"] = where
            elif e is not None:
                t.symbols[attr] = ("const", m, value)
        elif r[0] == "func":
            self.patched[r[1].qual + "." + str(attr)] = where

    def _reg_class(self, c):
        self.classes[c.qual] = c
        for f in c.methods.values():
            self.functions[f.qual] = f
        for n in c.nested.values():
            self._reg_class(n)

    def subclasses_of(self, qual):
        if self._sub is None:
            self._sub = {}
            for c in self.classes.values():
                for b in c.mro()[1:]:
                    self._sub.setdefault(b.qual, []).append(c)
        return self._sub.get(qual, [])

    def methods_named(self, name):
        if self._byname is None:
            self._byname = {}
            for f in self.functions.values():
                self._byname.setdefault(f.name, []).append(f)
        return self._byname.get(name, [])

    # ------------------------------------------------------------ name resolution
    # ---------------------------------------------------------------- state that changes
    def _scan_state(self):
        """Module-level containers, class attributes, parameter defaults and attributes that some function modifies."""
        self._mut_consts, self._mut_attrs, self._mut_cls, self._mut_defaults = set(), set(), set(), set()
        self._handed: dict = {}     # name of a function or property -> the shared values it returns
        kept = []                   # shared values stored in an attribute
        todo = []
        for m in self.modules.values():
            if m.name.startswith("spec."):
                continue
            for f in ast.walk(m.tree):
                if not isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    continue
                glob = {x for n in ast.walk(f) if isinstance(n, ast.Global) for x in n.names}
                local = {a.arg for a in ast.walk(f.args) if isinstance(a, ast.arg)} | \
                    {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - glob
                for x in glob:
                    self._mark_const(m, x)
                todo.append((m, f, local, self._owner(m, f)))
                for n in ast.walk(f):
                    if isinstance(n, ast.Return) and n.value is not None:
                        rs = self._roots(m, f, n.value, local, self._aliases(m, f, local, todo[-1][3]), todo[-1][3])
                        if rs:
                            self._handed.setdefault(f.name, []).extend(rs)
        for m, f, local, owner in todo:
            alias = self._aliases(m, f, local, owner)
            for n in ast.walk(f):
                e = None
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT:
                    e = n.func.value
                elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    e = n.value
                elif isinstance(n, ast.AugAssign) and isinstance(n.target, (ast.Attribute, ast.Name)):
                    e = n.target
                while isinstance(e, ast.Subscript):
                    e = e.value
                if isinstance(e, ast.Name) and e.id in alias:
                    for r in alias[e.id]:
                        self._mark_root(r)
                elif isinstance(e, ast.Call):
                    for r in self._roots(m, f, e, local, alias, owner):
                        self._mark_root(r)
                if isinstance(e, ast.Name) and e.id not in local:
                    self._mark_const(m, e.id)
                elif isinstance(e, ast.Attribute):
                    self._mut_attrs.add(e.attr)
                    self._mark_cls(m, owner, e, True)
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    self._mut_attrs.add(n.attr)
                    self._mark_cls(m, owner, n, False)
                if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                    for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                        if isinstance(t, ast.Attribute):
                            for r in self._roots(m, f, n.value, local, alias, owner):
                                kept.append((t.attr, r))
                if e is not None and isinstance(e, ast.Attribute):
                    self._changed_attrs = getattr(self, "_changed_attrs", set()) | {e.attr}
        for a, r in kept:
            if a in getattr(self, "_changed_attrs", ()):
                self._mark_root(r)

    def _mark_root(self, r):
        m, owner, e = r
        if isinstance(e, tuple):
            self._mut_defaults.add(e)
        elif isinstance(e, ast.Name):
            self._mark_const(m, e.id, True)
        else:
            self._mark_cls(m, owner, e, True)

    def default_changes(self, node, name) -> bool:
        if not hasattr(self, "_mut_consts"):
            self._scan_state()
        return (id(node), name) in self._mut_defaults

    def _roots(self, m, f, e, local, alias, owner):
        """The shared values (module level, class level, defaults) that an expression may be, rather than a copy of them."""
        while isinstance(e, (ast.Subscript, ast.NamedExpr)):
            e = e.value
        if isinstance(e, ast.Name):
            if e.id in local:
                return alias.get(e.id, [])
            r = self.resolve(m, e.id)
            return [(m, owner, e)] if r is not None and r[0] == "const" else []
        if isinstance(e, ast.Attribute):
            out = self._handed.get(e.attr, []) if e.attr in self._handed else []
            return [(m, owner, e)] + out if isinstance(e.value, (ast.Name, ast.Call)) else out
        if isinstance(e, ast.IfExp):
            return self._roots(m, f, e.body, local, alias, owner) + self._roots(m, f, e.orelse, local, alias, owner)
        if isinstance(e, ast.BoolOp):
            return [r for v in e.values for r in self._roots(m, f, v, local, alias, owner)]
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Attribute) and e.func.attr in ("get", "setdefault"):
                return self._roots(m, f, e.func.value, local, alias, owner)
            nm = e.func.attr if isinstance(e.func, ast.Attribute) else e.func.id if isinstance(e.func, ast.Name) else None
            return self._handed.get(nm, [])
        return []

    def _aliases(self, m, f, local, owner):
        """Local names that may stand for a shared value itself (not for a copy of it)."""
        out: dict = {}
        stores = []
        for n in ast.walk(f):
            if isinstance(n, ast.Assign):
                stores += [(t.id, n.value) for t in n.targets if isinstance(t, ast.Name)]
            elif isinstance(n, (ast.AnnAssign, ast.NamedExpr)) and isinstance(n.target, ast.Name) and n.value is not None:
                stores.append((n.target.id, n.value))
        a = f.args
        ps = a.posonlyargs + a.args
        for p, d in [*zip(ps[len(ps) - len(a.defaults):], a.defaults), *zip(a.kwonlyargs, a.kw_defaults)]:
            if d is not None and _container(d):
                out.setdefault(p.arg, []).append((m, owner, (id(f), p.arg)))
            elif d is not None:
                stores.append((p.arg, d))
        for _ in range(3):
            for t, v in stores:
                for r in self._roots(m, f, v, local, out, owner):
                    if r not in out.setdefault(t, []):
                        out[t].append(r)
        return {k: v for k, v in out.items() if v}

    def _owner(self, m, f):
        if not hasattr(self, "_owners"):
            self._owners = {id(g.node): g.cls for g in self.functions.values() if g.cls is not None}
        return self._owners.get(id(f))

    def _mark_cls(self, m, owner, e, inside):
        """A store to (or, if inside, a modification of) an attribute of a class itself."""
        b = e.value
        if isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == "type" or \
                isinstance(b, ast.Attribute) and b.attr == "__class__" or isinstance(b, ast.Name) and b.id == "cls":
            c = owner
        elif inside and isinstance(b, ast.Name) and b.id == "self":
            c = owner
        else:
            r = self.resolve_expr(m, b) if isinstance(b, (ast.Name, ast.Attribute)) else None
            c = r[1] if r is not None and r[0] == "class" else None
        if c is None:
            return
        a = c.find_attr(e.attr)
        if a is not None and a[1] is not None:
            if isinstance(b, ast.Name) and b.id == "self" and not isinstance(a[1], (ast.Dict, ast.List, ast.Set)):
                return
            self._mut_cls.add((a[0].qual, e.attr))

    def class_attr_changes(self, k, name) -> bool:
        if not hasattr(self, "_mut_consts"):
            self._scan_state()
        return (k.qual, name) in self._mut_cls

    def _mark_const(self, m, name, alias=False):
        r = self.resolve(m, name)
        if r is not None and r[0] == "const" and (not alias or _container(r[2])):
            self._mut_consts.add(id(r[2]))

    def changes(self, node) -> bool:
        """The module-level value defined by this node is modified by some function."""
        if not hasattr(self, "_mut_consts"):
            self._scan_state()
        return id(node) in self._mut_consts

    def attr_changes(self, name) -> bool:
        if not hasattr(self, "_mut_consts"):
            self._scan_state()
        return name in self._mut_attrs

    def remembers(self, f):
        """A function that newly keeps its result although the result may change."""
        if "cache" in f.unknown_decorator:
            return True
        return any(d.split(".")[-1] == "cached_property" for d in f.decorators) and f.qual not in self.cached and self.stale(f)

    def _class_writes(self, c):
        """Attributes of instances of a class that are assigned or modified after construction."""
        if not hasattr(self, "_cw"):
            self._cw, self._foreign = {}, set()
            for m in self.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and not (isinstance(n.value, ast.Name) and n.value.id in ("self", "cls")):
                        self._foreign.add(n.attr)
        if c.qual not in self._cw:
            out = set()
            for k in c.mro():
                for f in k.methods.values():
                    ps = f.params()[0]
                    if f.name in ("__init__", "__post_init__", "__new__", "model_post_init") or not ps or f.static or f.classm:
                        continue
                    for n in ast.walk(f.node):
                        e = None
                        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT:
                            e = n.func.value
                        elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                            e = n.value
                        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                            e = n
                        while isinstance(e, ast.Subscript):
                            e = e.value
                        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == ps[0]:
                            out.add(e.attr)
            self._cw[c.qual] = out
        return self._cw[c.qual]

    def stale(self, f) -> bool:
        """A property that is computed once although what it reads may change afterwards."""
        seen, todo = set(), [(f, 0)]
        while todo:
            g, d = todo.pop()
            if g.qual in seen or d > 4 or g.cls is None:
                continue
            seen.add(g.qual)
            ps = g.params()[0]
            w = self._class_writes(g.cls)
            for n in walk_own(g.node):
                if not (isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load)):
                    continue
                if isinstance(n.value, ast.Name) and ps and n.value.id == ps[0]:
                    h = g.cls.find_method(n.attr)
                    if h is not None:
                        todo.append((h, d + 1))
                    elif n.attr in w or n.attr in self._foreign and not g.cls.is_dataclass:
                        return True
                else:
                    c = [h for h in self.methods_named(n.attr) if h.cls is not None]
                    if len(c) <= 3:
                        todo += [(h, d + 1) for h in c]
        return False

    def resolve(self, module: Module, name: str, depth=0):
        """-> ('func',F) ('class',C) ('module',name) ('const',Module,node) ('ext',qual) or None"""
        if depth > 12:
            return None
        e = module.symbols.get(name)
        if e is None:
            return None
        if e[0] == "from":
            return self.resolve_in(e[1], e[2], depth + 1)
        if e[0] == "module":
            return ("module", e[1])
        return e

    def resolve_in(self, modname: str, name: str, depth=0):
        m = self.modules.get(modname)
        if m is not None:
            r = self.resolve(m, name, depth + 1)
            if r is not None:
                return r
            if f"{modname}.{name}" in self.modules:
                return ("module", f"{modname}.{name}")
            return None
        if f"{modname}.{name}" in self.modules:
            return ("module", f"{modname}.{name}")
        return ("ext", f"{modname}.{name}")

    def resolve_expr(self, module, node):
        """Resolve a Name/Attribute chain statically."""
        if isinstance(node, ast.Name):
            return self.resolve(module, node.id)
        if isinstance(node, ast.Attribute):
            b = self.resolve_expr(module, node.value)
            if b is None:
                return None
            if b[0] == "module":
                return self.resolve_in(b[1], node.attr)
            if b[0] == "ext":
                return ("ext", f"{b[1]}.{node.attr}")
            if b[0] == "class":
                c = b[1]
                for k in c.mro():
                    if node.attr in k.nested:
                        return ("class", k.nested[node.attr])
                return ("classattr", c, node.attr)
        return None

    def resolve_dotted(self, module, node):
        r = self.resolve_expr(module, node)
        if r is None:
            if isinstance(node, ast.Name):
                return "builtins." + node.id
            return None
        if r[0] in ("func", "class"):
            return r[1].qual
        if r[0] in ("ext", "module"):
            return r[1]
        if r[0] == "const":
            # alias: X = Y
            if isinstance(r[2], (ast.Name, ast.Attribute)):
                return self.resolve_dotted(r[1], r[2])
        return None

    def find(self, qual: str):
        """Find a function/method by dotted path, following moves through re-exports."""
        f = self.functions.get(qual)
        if f is not None:
            return f
        parts = qual.split(".")
        for i in range(len(parts) - 1, 0, -1):
            mod = ".".join(parts[:i])
            if mod in self.modules:
                rest = parts[i:]
                r = self.resolve(self.modules[mod], rest[0])
                if r and r[0] == "class" and len(rest) >= 2:
                    c = r[1]
                    for x in rest[1:-1]:
                        c = c.nested.get(x, c)
                    return c.find_method(rest[-1])
                if r and r[0] == "func":
                    return r[1]
                if r and r[0] == "const" and isinstance(r[2], ast.Name):
                    rr = self.resolve(r[1], r[2].id)
                    if rr and rr[0] == "func":
                        return rr[1]
                break
        return None

    def find_class(self, qual):
        c = self.classes.get(qual)
        if c is not None:
            return c
        mod, _, name = qual.rpartition(".")
        if mod in self.modules:
            r = self.resolve(self.modules[mod], name)
            if r and r[0] == "class":
                return r[1]
        # moved: unique class of that name
        cands = [c for c in self.classes.values() if c.name == name]
        return cands[0] if len(cands) == 1 else None

    def is_subclass(self, a: str, b: str) -> bool:
        if a == b:
            return True
        c = self.classes.get(a)
        if c is None:
            return b in BUILTIN_SUPER.get(a, ())
        for k in c.mro():
            if k.qual == b:
                return True
        eb = c.ext_bases()
        return b in eb or any(b in BUILTIN_SUPER.get(x, ()) for x in eb) or b in ("builtins.object",)

    # ------------------------------------------------------------ types
    def parse_type(self, module, node, cls=None):
        if node is None:
            return None
        if isinstance(node, ast.Constant):
            if isinstance(node.value, str):
                try:
                    return self.parse_type(module, ast.parse(node.value, mode="eval").body, cls)
                except SyntaxError:
                    return None
            if node.value is None:
                return ("none",)
            return None
        if isinstance(node, ast.BinOp) and isinstance(node.op, ast.BitOr):
            return union([self.parse_type(module, node.left, cls), self.parse_type(module, node.right, cls)])
        if isinstance(node, ast.Subscript):
            base = node.value
            bname = base.id if isinstance(base, ast.Name) else (base.attr if isinstance(base, ast.Attribute) else "")
            args = node.slice.elts if isinstance(node.slice, ast.Tuple) else [node.slice]
            P = lambda x: self.parse_type(module, x, cls)
            if bname in ("list", "List", "Sequence", "Iterable", "Iterator", "set", "Set", "Generator", "Collection", "frozenset", "deque", "NDArray", "MutableSequence"):
                return ("list", P(args[0]))
            if bname in ("tuple", "Tuple"):
                if len(args) == 2 and isinstance(args[1], ast.Constant) and args[1].value is Ellipsis:
                    return ("list", P(args[0]))
                return ("tuple", tuple(P(x) for x in args))
            if bname in ("dict", "Dict", "Mapping", "MutableMapping", "defaultdict", "OrderedDict"):
                if len(args) == 2:
                    return ("dict", P(args[0]), P(args[1]))
                return ("dict", None, None)
            if bname in ("Optional",):
                return P(args[0])
            if bname in ("Union",):
                return union([P(x) for x in args])
            if bname in ("Annotated", "Final", "ClassVar", "Required", "NotRequired", "SkipValidation"):
                return P(args[0])
            if bname in ("type", "Type"):
                return None
            if bname == "Callable" or bname == "Literal":
                return None
            t = self.parse_type(module, base, cls)
            if t and t[0] == "c":
                # generic repo class: remember the argument
                return ("c", t[1], tuple(P(x) for x in args))
            return t
        if isinstance(node, (ast.Name, ast.Attribute)):
            if isinstance(node, ast.Name) and node.id == "Self" and cls is not None:
                return ("c", cls.qual)
            r = self.resolve_expr(module, node)
            if r is None:
                if isinstance(node, ast.Name):
                    n = node.id
                    if n in ("float", "int", "str", "bool", "bytes", "complex"):
                        return ("c", "builtins." + n)
                    if n in ("list", "set", "tuple"):
                        return ("list", None)
                    if n == "dict":
                        return ("dict", None, None)
                    if n == "None":
                        return ("none",)
                return None
            if r[0] == "class":
                return ("c", r[1].qual)
            if r[0] == "ext":
                if r[1].endswith((".Any", ".TypeVar")):
                    return None
                return ("c", r[1])
            if r[0] == "const":
                if isinstance(r[2], ast.Call):
                    # NewType("X", float) / TypeVar
                    fn = r[2].func
                    nm = fn.id if isinstance(fn, ast.Name) else getattr(fn, "attr", "")
                    if nm == "NewType" and len(r[2].args) == 2:
                        return self.parse_type(r[1], r[2].args[1], cls)
                    if nm == "TypeVar":
                        for k in r[2].keywords:
                            if k.arg == "bound":
                                return self.parse_type(r[1], k.value, cls)
                        return None
                    return None
                return self.parse_type(r[1], r[2], cls)
        return None


BUILTIN_SUPER = {
    "builtins.ValueError": ("builtins.Exception", "builtins.BaseException"),
    "builtins.KeyError": ("builtins.LookupError", "builtins.Exception", "builtins.BaseException"),
    "builtins.IndexError": ("builtins.LookupError", "builtins.Exception", "builtins.BaseException"),
    "builtins.TypeError": ("builtins.Exception", "builtins.BaseException"),
    "builtins.NotImplementedError": ("builtins.RuntimeError", "builtins.Exception", "builtins.BaseException"),
    "builtins.RuntimeError": ("builtins.Exception", "builtins.BaseException"),
    "builtins.AttributeError": ("builtins.Exception", "builtins.BaseException"),
    "builtins.AssertionError": ("builtins.Exception", "builtins.BaseException"),
    "builtins.StopIteration": ("builtins.Exception", "builtins.BaseException"),
    "builtins.ZeroDivisionError": ("builtins.ArithmeticError", "builtins.Exception", "builtins.BaseException"),
    "builtins.Exception": ("builtins.BaseException",),
    "builtins.bool": ("builtins.int",),
    "pandas.Timestamp": ("datetime.datetime", "datetime.date"),
    "datetime.datetime": ("datetime.date",),
}


def union(ts):
    flat = []
    for t in ts:
        if t is None:
            flat.append(None)
        elif t[0] == "none":
            continue
        elif t[0] == "union":
            flat.extend(t[1])
        else:
            flat.append(t)
    out = []
    for t in flat:
        if t not in out:
            out.append(t)
    if not out:
        return ("none",)
    if len(out) == 1:
        return out[0]
    if None in out:
        return None
    return ("union", tuple(out))
