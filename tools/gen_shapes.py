"""Writes spec/shapes.json: the declarations of the classes of the current tree, with the properties they belong to."""
import ast, json, os, re, sys
sys.path.insert(0, "/verif")
from sa.check import Ctx, ROOT
from sa.shapes import Shapes
ctx = Ctx("C26", "quick")
sh = Shapes(ctx)
# properties of reference equations
props = {}
for fn in sorted(os.listdir(ROOT + "/spec")):
    if not fn.endswith(".py"): continue
    tree = ast.parse(open(f"{ROOT}/spec/{fn}").read())
    default = [fn[:-3].upper()]
    for n in tree.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "PROPS": default = ast.literal_eval(n.value)
    for n in tree.body:
        for d in getattr(n, "decorator_list", ()):
            if isinstance(d, ast.Call) and getattr(d.func, "id", "") == "target":
                o = {k.arg: ast.literal_eval(k.value) for k in d.keywords}
                for a in d.args:
                    q = ast.literal_eval(a)
                    ps = set(o.get("props", default)) | set(o.get("also", ()))
                    for rx, more in ctx.attribution():
                        if rx.match(q): ps |= more
                    props[q] = {p for p in ps if re.match(r"C\d\d$", p)}
def props_of(c):
    out = set()
    for rx, more in ctx.attribution():
        if rx.match(c.qual + "."): out |= more
    for q, ps in props.items():
        if q == c.qual or q.startswith(c.qual + "."): out |= ps
    pre = c.module.name
    while not out and "." in pre:
        for q, ps in props.items():
            if q.startswith(pre + "."): out |= ps
        if len(out) > 6: out = set()
        pre = pre.rpartition(".")[0]
    return sorted(out) or ["C23"]
classes = {}
for q, c in sorted(ctx.p.classes.items()):
    if ".testing" in q or "/testing" in c.module.relpath or "test" in q.split(".")[-2]: continue
    s = sh.shape(c)
    s["own"] = [m for m in ("__init__",) if c.find_method(m)]
    s["props"] = props_of(c)
    classes[q] = s
names = sorted({c.name for c in ctx.p.classes.values()} | {f.name for f in ctx.p.functions.values()} |
               {"Exception", "ValueError", "KeyError", "TypeError", "RuntimeError", "NotImplementedError", "LookupError", "AttributeError", "ArithmeticError", "IndexError",
                "BaseModel", "str", "int", "float", "dict", "list", "tuple", "set", "StrEnum", "Enum", "IntEnum", "Flag", "IntFlag", "BaseException", "StopIteration", "Warning", "property"})
with open(ROOT + "/spec/shapes.json", "w") as f:
    wrapped = {q: sorted(w for w in f.unknown_decorator if w != "cache") for q, f in ctx.p.functions.items() if [w for w in f.unknown_decorator if w != "cache"]}
    json.dump({"wrapped": wrapped, "names": names, "classes": classes}, f, indent=0, sort_keys=True)
print(len(classes), {p: sum(p in c["props"] for c in classes.values()) for p in sorted({p for c in classes.values() for p in c["props"]})})
