"""Declarations of classes: what pydantic models accept and under which names, what dataclasses compare, which special methods and
bases a class has, which values an enumeration has.  The declarations that hold are recorded in spec/shapes.json (tools/gen_shapes.py);
the comparison is on a normal form: inherited declarations count like own ones, aliases of types are expanded, unions are unordered,
texts for people (titles, descriptions) are left out."""
from __future__ import annotations

import ast
import re

from . import terms as tm
from .interp import State, _field_default
from .program import walk_own

HUMAN = {"title", "description", "examples", "json_schema_extra", "deprecated", "repr", "doc", "metadata", "default", "default_factory", "slots",
         "field_title_generator", "model_title_generator", "init_var", "kw_only", "validate_default"}
SPECIAL = {"__eq__", "__ne__", "__lt__", "__le__", "__gt__", "__ge__", "__hash__", "__bool__", "__len__", "__contains__", "__iter__", "__getitem__",
           "__getattr__", "__getattribute__", "__setattr__", "__delattr__", "__new__", "__init_subclass__", "__class_getitem__", "__call__", "__add__",
           "__radd__", "__iadd__", "__sub__", "__rsub__", "__mul__", "__rmul__", "__truediv__", "__neg__", "__and__", "__or__", "__copy__",
           "__deepcopy__", "__reduce__", "__getstate__", "__setstate__", "__del__", "__enter__", "__exit__", "__float__", "__int__", "__index__",
           "__post_init__", "__next__", "__reversed__", "__instancecheck__", "__subclasshook__", "__prepare__", "_missing_", "_generate_next_value_",
           "model_post_init", "__pydantic_init_subclass__", "__get_pydantic_core_schema__", "__set_name__", "__get__", "__set__", "__array__",
           "model_dump", "model_dump_json", "model_validate", "model_copy", "model_construct"}
NEUTRAL_BASES = {"ABC", "Protocol", "Generic", "object", "NamedTuple", "TypedDict"}
VALIDATORS = ("field_validator", "model_validator", "field_serializer", "model_serializer", "computed_field", "validator", "root_validator")
SEQ = {"List": "list", "Dict": "dict", "Set": "set", "Tuple": "tuple", "Type": "type", "FrozenSet": "frozenset"}


class Shapes:
    def __init__(self, ctx):
        self.ctx, self.p = ctx, ctx.p
        self.it = ctx.interp()

    # ------------------------------------------------------------ expressions and types
    def value(self, module, node, depth=0):
        if isinstance(node, ast.Lambda):
            names = {a.arg: f"a{i}" for i, a in enumerate(node.args.args)}
            class R(ast.NodeTransformer):
                def visit_Name(self, n):
                    return ast.Name(names.get(n.id, n.id), n.ctx)
            import copy
            return "lambda: " + ast.unparse(R().visit(copy.deepcopy(node.body)))
        if isinstance(node, ast.Name) and depth < 5:
            r = self.p.resolve(module, node.id)
            if r and r[0] == "func":
                return "fn:" + r[1].name
            if r and r[0] == "class":
                return "class:" + r[1].name
            if r and r[0] == "const":
                return self.value(r[1], r[2], depth + 1)
            if r and r[0] == "ext":
                return r[1].rpartition(".")[2]
        try:
            t = self.it.ev(node, State(module, None))
            t = tm.lift(t)
            return tm.short(t, 160) + ("" if len(tm.short(t, 160)) < 150 else " " + t.d[:12])
        except Exception:
            return ast.unparse(node)

    def kwargs(self, module, call, drop=HUMAN):
        return {k.arg: self.value(module, k.value) for k in call.keywords if k.arg and k.arg not in drop}

    def type(self, module, node, env=None, depth=0):
        env = env or {}
        T = lambda x, e=env: self.type(module, x, e, depth + 1)
        if depth > 30 or node is None:
            return "?"
        if isinstance(node, ast.Constant):
            if node.value is None:
                return "None"
            if isinstance(node.value, str):
                try:
                    return T(ast.parse(node.value, mode="eval").body)
                except SyntaxError:
                    return repr(node.value)
            return repr(node.value)
        if isinstance(node, ast.BinOp) and isinstance(node.op, ast.BitOr):
            return self.union([T(node.left), T(node.right)])
        if isinstance(node, (ast.Name, ast.Attribute)):
            if isinstance(node, ast.Name) and node.id in env:
                return env[node.id]
            r = self.p.resolve_expr(module, node)
            if r is None:
                n = node.id if isinstance(node, ast.Name) else node.attr
                return SEQ.get(n, n)
            if r[0] == "class":
                return r[1].name
            if r[0] == "const":
                v = r[2]
                if isinstance(v, ast.Call):
                    nm = ast.unparse(v.func).rpartition(".")[2]
                    if nm == "TypeVar":
                        return "~T"
                    if nm == "NewType":
                        return self.type(r[1], v.args[1], {}, depth + 1)
                    return ast.unparse(v)
                return self.type(r[1], v, {}, depth + 1)
            if r[0] == "ext":
                n = r[1].rpartition(".")[2]
                return SEQ.get(n, n)
            return str(r[-1])
        if isinstance(node, ast.Subscript):
            args = node.slice.elts if isinstance(node.slice, ast.Tuple) else [node.slice]
            b = node.value
            r = self.p.resolve_expr(module, b)
            bn = b.id if isinstance(b, ast.Name) else b.attr if isinstance(b, ast.Attribute) else "?"
            if r is not None and r[0] == "ext":
                bn = r[1].rpartition(".")[2]
            if bn == "Optional":
                return self.union([T(args[0]), "None"])
            if bn == "Union":
                return self.union([T(a) for a in args])
            if bn in ("Final", "Required", "NotRequired", "ClassVar", "SkipValidation", "InitVar"):
                return T(args[0]) if bn != "SkipValidation" else f"SkipValidation[{T(args[0])}]"
            if bn == "Literal":
                return "Literal[" + ", ".join(sorted(self.value(module, a) for a in args)) + "]"
            if bn == "Annotated":
                meta = [m for m in (self.meta(module, a) for a in args[1:]) if m]
                return f"{T(args[0])} with {' and '.join(sorted(meta))}" if meta else T(args[0])
            if r is not None and r[0] == "const" and not isinstance(r[2], ast.Call):
                tvs = []
                for x in ast.walk(r[2]):
                    if isinstance(x, ast.Name) and x.id not in tvs:
                        rr = self.p.resolve(r[1], x.id)
                        if rr and rr[0] == "const" and isinstance(rr[2], ast.Call) and ast.unparse(rr[2].func).endswith("TypeVar"):
                            tvs.append(x.id)
                return self.type(r[1], r[2], dict(zip(tvs, [T(a) for a in args])), depth + 1)
            n = SEQ.get(bn, bn)
            return f"{n}[{', '.join(T(a) if not isinstance(a, ast.List) else '[' + ', '.join(T(e) for e in a.elts) + ']' for a in args)}]"
        if isinstance(node, ast.Call):
            return self.value(module, node)
        return ast.unparse(node)

    def union(self, parts):
        flat = []
        for x in parts:
            for y in (x[6:-1].split("; ") if x.startswith("Union{") and x.count("{") == 1 else [x]):
                if y not in flat:
                    flat.append(y)
        return flat[0] if len(flat) == 1 else "Union{" + "; ".join(sorted(flat)) + "}"

    def meta(self, module, node):
        if isinstance(node, ast.Call):
            nm = ast.unparse(node.func).rpartition(".")[2]
            kw = self.kwargs(module, node)
            ar = [self.value(module, a) for a in node.args] if nm not in ("Field",) else []
            if nm == "Field" and not kw:
                return ""
            return f"{nm}({', '.join(ar + [f'{k}={v}' for k, v in sorted(kw.items())])})"
        if isinstance(node, ast.Constant):
            return ""
        return ast.unparse(node)

    # ------------------------------------------------------------ classes
    def shape(self, c):
        s = {"bases": sorted({self.last(q) for k in c.mro() for q in k.base_quals} - NEUTRAL_BASES)}
        kinds = "pydantic" if c.is_pydantic else "enum" if c.is_enum else "dataclass" if c.is_dataclass else "tuple" if c.is_namedtuple else "plain"
        s["kind"] = kinds
        sp = {}
        for k in reversed(c.mro()):
            for n in list(k.methods) + [a for a in k.attrs if a in SPECIAL]:
                if n in SPECIAL:
                    sp[n] = k.name
        s["special"] = sorted(sp)
        s["decorators"] = sorted({d.split("(")[0].rpartition(".")[2] for d in c.decorators} - {"dataclass", "value_object", "runtime_checkable", "total_ordering", "final", "unique", "target"})
        kw = {k.arg: self.value(c.module, k.value) for k in c.node.keywords if k.arg}
        s["keywords"] = kw if kinds != "pydantic" else {}
        if kinds == "enum":
            s["members"] = {n: self.value(c.module, v) for n, v in c.attrs.items() if not n.startswith("_")}
            if "__lt__" in s["special"]:
                s["order"] = list(s["members"])
            return s
        if kinds == "pydantic":
            cfg = {}
            for k in reversed(c.mro()):
                v = k.attrs.get("model_config")
                if isinstance(v, ast.Call):
                    cfg.update({x.arg: self.value(k.module, x.value) for x in v.keywords if x.arg and x.arg not in HUMAN})
                elif isinstance(v, ast.Dict):
                    for a, b in zip(v.keys, v.values):
                        cfg[a.value if isinstance(a, ast.Constant) else "**"] = self.value(k.module, b) if a is not None else ast.unparse(b)
                cfg.update({x.arg: self.value(k.module, x.value) for x in k.node.keywords if x.arg and x.arg not in HUMAN | {"metaclass"}})
            s["config"] = cfg
            vs = {}
            for k in reversed(c.mro()):
                for n, f in k.methods.items():
                    vs.pop(n, None)
                    for d in f.node.decorator_list:
                        nm = ast.unparse(d.func if isinstance(d, ast.Call) else d).rpartition(".")[2]
                        if nm in VALIDATORS:
                            a = sorted(ast.unparse(x).strip("'\"") for x in d.args) if isinstance(d, ast.Call) else []
                            m = next((ast.unparse(x.value).strip("'\"") for x in d.keywords if x.arg == "mode"), "after") if isinstance(d, ast.Call) else "after"
                            vs[n] = f"{nm}({', '.join(a)}) {m}" + (f" {n}" if nm == "computed_field" else "")
                for n, v in k.attrs.items():
                    # validate_x = field_validator("x", mode="after")(function)
                    d = v.func if isinstance(v, ast.Call) else None
                    if isinstance(d, ast.Call) and len(v.args) == 1 and ast.unparse(d.func).rpartition(".")[2] in VALIDATORS:
                        nm = ast.unparse(d.func).rpartition(".")[2]
                        a = sorted(ast.unparse(x).strip("'\"") for x in d.args)
                        m = next((ast.unparse(x.value).strip("'\"") for x in d.keywords if x.arg == "mode"), "after")
                        vs[n] = f"{nm}({', '.join(a)}) {m} by {self.value(k.module, v.args[0])}"
            s["validators"] = sorted(vs.values())
        if kinds == "dataclass":
            o = {}
            for k in c.mro():
                for d in k.decorators:
                    if "dataclass" in d or "value_object" in d:
                        n = ast.parse(d, mode="eval").body
                        kw = {x.arg: ast.unparse(x.value) for x in n.keywords} if isinstance(n, ast.Call) else {}
                        if "value_object" in d:
                            kw.setdefault("frozen", "True")
                        for x in ("eq", "order", "frozen", "unsafe_hash", "init"):
                            o.setdefault(x, kw.get(x, "True" if x in ("eq", "init") else "False"))
                        break
                else:
                    continue
                break
            s["options"] = o
        if kinds in ("pydantic", "dataclass", "tuple"):
            fs = {}
            for n, a, v, k in c.all_fields():
                f = {}
                if kinds == "pydantic":
                    f["type"] = self.type(k.module, a)
                    f["required"] = v is None or isinstance(v, ast.Call) and ast.unparse(v.func).rpartition(".")[2] == "Field" and _field_default(v) is None
                else:
                    f["required"] = v is None or isinstance(v, ast.Call) and ast.unparse(v.func).rpartition(".")[2] == "field" and _field_default(v) is None
                if isinstance(v, ast.Call) and ast.unparse(v.func).rpartition(".")[2] in ("Field", "field"):
                    f.update({"field " + x: y for x, y in self.kwargs(k.module, v).items()})
                fs[n] = f
            s["fields"] = fs
        return s

    def last(self, q):
        c = self.p.classes.get(q)
        return c.name if c else q.rpartition(".")[2]

    # ------------------------------------------------------------ comparison
    def fieldwise(self, c, m):
        """An explicit __eq__ that compares what a generated one compares: every field of both sides."""
        ps = m.params()[0]
        if len(ps) < 2:
            return False
        src = ast.unparse(m.node)
        if re.search(r"astuple|__dict__|asdict|vars\(", src):
            return True
        for n, *_ in c.all_fields():
            for who in ps[:2]:
                if not any(isinstance(x, ast.Attribute) and x.attr == n and isinstance(x.value, ast.Name) and x.value.id == who for x in ast.walk(m.node)):
                    return False
        return bool(c.all_fields())

    def compare(self, q, ref):
        """-> list of (what, text)"""
        c = self.p.classes.get(q) or self.p.find_class(q)
        if c is None:
            return None
        s = self.shape(c)
        out = []
        loc = f"{c.module.relpath}:{c.node.lineno}"
        known = self.known
        for b in ref["bases"]:
            if b not in s["bases"] and (b in {k.name for k in self.p.classes.values()} or b not in known) and b not in {k.name for k in c.mro()}:
                out.append((f"base {b}", f"{loc}: {c.name} is no longer a {b}"))
        for b in s["bases"]:
            if b not in ref["bases"] and b in known:
                out.append((f"base {b}", f"{loc}: {c.name} is newly a {b}"))
        for n in s["special"]:
            if n in ref["special"]:
                continue
            m = c.find_method(n)
            if n == "__post_init__" and c.is_dataclass and "__init__" in ref.get("own", ()):
                continue
            if n == "__eq__" and m is not None and self.fieldwise(c, m) or n == "__hash__" and not (m is not None and re.search(r"\bid\(|object\.", ast.unparse(m.node))):
                continue
            if n == "__post_init__" and m is not None and not effectful(m.node):
                continue
            out.append((n, f"{loc}: {c.name} newly defines {n}, which changes how its instances behave wherever they are used"))
        for n in ref["special"]:
            if n not in s["special"]:
                if n == "__post_init__" and c.find_method("__init__") is not None or n in ("__new__", "__repr__"):
                    continue
                out.append((n, f"{loc}: {c.name} no longer defines {n}"))
        for d in s["decorators"]:
            if d not in ref["decorators"]:
                out.append((f"@{d}", f"{loc}: {c.name} is newly decorated with {d}"))
        for k, v in s["keywords"].items():
            if ref["keywords"].get(k) != v and k != "metaclass" or k == "metaclass" and v.rpartition(":")[2] != "ABCMeta" and k not in ref["keywords"]:
                out.append((f"class keyword {k}", f"{loc}: {c.name} is declared with {k}={v}"))
        if s["kind"] != ref["kind"]:
            return out  # a different kind of class: its use decides
        if s["kind"] == "enum":
            if "__lt__" in s["special"] and "__lt__" in ref["special"]:  # ordered by their place in the declaration
                a, b = [n for n in s["members"] if n in ref["members"]], [n for n in ref["order"] if n in s["members"]]
                if a != b:
                    out.append(("order", f"{loc}: members of {c.name} are declared in the order {', '.join(a)}; required {', '.join(b)}"))
            for n, v in ref["members"].items():
                if n in s["members"] and s["members"][n] != v:
                    out.append((f"member {n}", f"{loc}: {c.name}.{n} is {s['members'][n]}, required {v}"))
                elif n not in s["members"]:
                    out.append((f"member {n}", f"{loc}: {c.name}.{n} is missing"))
        for k in sorted(set(s.get("config", {})) | set(ref.get("config", {}))):
            a, b = s["config"].get(k), ref["config"].get(k)
            if a != b:
                out.append((f"config {k}", f"{loc}: {c.name} is configured with {k}={a}, required {b}"))
        for k, b in ref.get("options", {}).items():
            a = s["options"].get(k)
            if a != b and not (k == "frozen" and ref["options"].get("eq") == "False") and not (k in ("frozen", "unsafe_hash", "order") and b == "False"):
                out.append((f"option {k}", f"{loc}: dataclass {c.name} has {k}={a}, required {b}"))
        va, vb = list(s.get("validators", ())), list(ref.get("validators", ()))
        for v in list(va):
            if v in vb:
                va.remove(v)
                vb.remove(v)
        for v in list(va):  # a validator given by assignment written as a decorated method, or the reverse
            w = next((w for w in vb if w.split(" by ")[0] == v.split(" by ")[0] and (" by " in w) != (" by " in v)), None)
            if w is not None:
                va.remove(v)
                vb.remove(w)
        # validators that were split or joined for the same fields in the same mode are compared by their equations
        for v in vb:
            if v not in s["validators"]:
                out.append((f"validator {v}", f"{loc}: {c.name} no longer has {v}"))
        for v in va:
            if v not in ref["validators"]:
                out.append((f"validator {v}", f"{loc}: {c.name} newly has {v}"))
        fa, fb = s.get("fields", {}), ref.get("fields", {})
        for n, f in fb.items():
            g = fa.get(n)
            if g is None:
                if s["kind"] != "dataclass" or c.find_method("__init__") is None:
                    out.append((f"field {n}", f"{loc}: {c.name}.{n} is missing"))
                continue
            for k in sorted(set(f) | set(g)):
                if f.get(k) != g.get(k):
                    if k == "type" and self.renamed(g.get(k), f.get(k)):
                        continue
                    if k == "required" and s["kind"] != "pydantic" and not g[k]:
                        continue
                    out.append((f"field {n} {k}", f"{loc}: {c.name}.{n} is declared with {k} {g.get(k)}, required {f.get(k)}"))
        if "forbid" in str(s.get("config", {}).get("extra")):
            for n in fa:
                if n not in fb:
                    out.append((f"field {n}", f"{loc}: {c.name} newly accepts {n}"))
        return out

    def renamed(self, a, b):
        """The types differ only in names that exist on one side of the history alone."""
        wa, wb = re.findall(r"\w+|\W", a or ""), re.findall(r"\w+|\W", b or "")
        now = {k.name for k in self.p.classes.values()} | {f.name for f in self.p.functions.values()}
        if len(wa) != len(wb):
            return False
        return all(x == y or x not in self.known and y not in now and y in self.known for x, y in zip(wa, wb))


def effectful(node):
    for n in walk_own(node):
        if isinstance(n, (ast.Raise, ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Call, ast.Delete)):
            return True
    return False


def check(ctx):
    data = ctx.shapes
    sh = Shapes(ctx)
    sh.known = set(data["names"])
    for q, ref in data["classes"].items():
        if ctx.prop not in ref["props"]:
            continue
        r = sh.compare(q, ref)
        if r is None:
            ctx.undecided("declaration", q, "class no longer present")
        elif not r:
            ctx.ok("declaration", q)
        for what, text in r or ():
            ctx.bad("declaration", f"{q} {what}", text)
