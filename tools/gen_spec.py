"""Development aid: draft a spec file (to be reviewed by hand) for whole modules.
usage: gen_spec.py OUT.py CONFIG.json     CONFIG: {"modules": {"pkg.mod": ["C06"], ...}, "skip": [regex...], "opts": {regex: "opaque=[...]"}, "props": {regex: [..]}}"""
import ast, json, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.argv, argv = sys.argv[:1], sys.argv
from tools.draft_spec import Strip, p  # noqa
import copy
import builtins

SKIP_DEFAULT = [r"\.__repr__$", r"\.__str__$", r"\.__rich_repr__$"]


def names_used(tree):
    return {n.id for n in ast.walk(tree) if isinstance(n, ast.Name)}


def is_const(node):
    try:
        ast.literal_eval(node)
        return True
    except Exception:
        pass
    return isinstance(node, (ast.BinOp, ast.Tuple, ast.List, ast.Dict, ast.Set, ast.Constant, ast.UnaryOp)) and not any(isinstance(x, (ast.Call, ast.Subscript)) for x in ast.walk(node))


def main(out, cfg):
    header, consts, blocks, seen = {}, {}, [], set()
    local, cur = {}, [None]

    def put(name, node, m):
        v = ast.unparse(node)
        if name in consts and consts[name] != v:
            local.setdefault(cur[0], {})[name] = v
        else:
            consts[name] = v

    def closed(node, m):
        for u in names_used(node):
            e = m.symbols.get(u)
            if e is not None and e[0] in ("func", "class"):
                continue
            for nd in m.tree.body:
                t = nd.target if isinstance(nd, ast.AnnAssign) else nd.targets[0] if isinstance(nd, ast.Assign) and len(nd.targets) == 1 else None
                if isinstance(t, ast.Name) and t.id == u and (nd.value is None or not is_const(nd.value) or not closed(nd.value, m)):
                    return False
        return True

    def assigned(name, m):
        return sum(1 for n in ast.walk(m.tree) if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id == name)
    skip = [re.compile(x) for x in SKIP_DEFAULT + cfg.get("skip", [])]

    def need(name, mod, depth=0):
        if hasattr(builtins, name) or name in ("self", "cls"):
            return
        e = mod.symbols.get(name)
        if e is None:
            return
        kind = e[0]
        if kind in ("func", "class"):
            header.setdefault(mod.name, set()).add((name, name))
            return
        for node in ast.walk(mod.tree):
            if isinstance(node, ast.ImportFrom):
                for a in node.names:
                    if (a.asname or a.name) == name:
                        src = mod.resolve_from(node) if hasattr(mod, "resolve_from") else node.module
                        m2 = p.modules.get(src)
                        if m2 is not None and depth < 4:
                            e2 = m2.symbols.get(a.name)
                            if e2 is not None and e2[0] not in ("func", "class", "module"):
                                for nd in m2.tree.body:
                                    t = nd.target if isinstance(nd, ast.AnnAssign) else nd.targets[0] if isinstance(nd, ast.Assign) and len(nd.targets) == 1 else None
                                    if isinstance(t, ast.Name) and t.id == a.name and nd.value is not None and is_const(nd.value):
                                        if not closed(nd.value, m2) or assigned(a.name, m2) > 1:
                                            return
                                        for u in names_used(nd.value):
                                            need(u, m2, depth + 1)
                                        put(name, nd.value, m2)
                                        return
                        if node.level:
                            pkg = mod.name.split(".")
                            base = pkg if mod.is_pkg else pkg[:-1]
                            base = base[: len(base) - node.level + 1]
                            src = ".".join(base + ([node.module] if node.module else []))
                        header.setdefault(src, set()).add((a.name, name))
                        return
            elif isinstance(node, ast.Import):
                for a in node.names:
                    if (a.asname or a.name.split(".")[0]) == name:
                        header.setdefault("", set()).add((a.name, name if a.asname else None))
                        return
        for nd in mod.tree.body:
            t = nd.target if isinstance(nd, ast.AnnAssign) else nd.targets[0] if isinstance(nd, ast.Assign) and len(nd.targets) == 1 else None
            if isinstance(t, ast.Name) and t.id == name and nd.value is not None and is_const(nd.value):
                if not closed(nd.value, mod) or assigned(name, mod) > 1:
                    return
                for u in names_used(nd.value):
                    need(u, mod, depth + 1)
                put(name, nd.value, mod)
                return

    def opts(q, props):
        o = [f"props={json.dumps(props)}"]
        for rx, v in cfg.get("opts", {}).items():
            if re.search(rx, q):
                o.append(v)
        return ", ".join(o)

    def pr(q, d):
        for rx, v in cfg.get("props", {}).items():
            if re.search(rx, q):
                return v
        return d

    def func(f, d):
        q = f.qual
        if cfg.get("only") and not any(re.search(x, q) for x in cfg["only"]):
            return
        if any(s.search(q) for s in skip) or f.abstract:
            return
        n = Strip().visit(copy.deepcopy(f.node))
        n.decorator_list = []
        nm = (f.cls.name + "_" if f.cls else "f_") + f.name.strip("_")
        while nm in seen:
            nm += "_"
        seen.add(nm)
        n.name = nm
        if not n.body:
            n.body = [ast.Pass()]
        ast.fix_missing_locations(n)
        cur[0] = nm
        for u in sorted(names_used(n)):
            need(u, f.module)
        n.body = [ast.parse(f"{k} = {v}").body[0] for k, v in sorted(local.get(nm, {}).items())] + n.body
        blocks.append(f'@target("{q}", {opts(q, pr(q, d))})\n{ast.unparse(n)}')

    def cls(c, d):
        body = []
        if any(s.search(c.qual) for s in skip):
            return
        enumlike = any("Enum" in ast.unparse(b) for b in c.node.bases)
        for b in c.node.body:
            if isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
                if b.value is None:
                    if not cfg.get("required"):
                        continue
                    body.append(f"    {b.target.id}: object")
                    continue
                v = b.value
                if isinstance(v, ast.Call) and ast.unparse(v.func).split(".")[-1] in ("Field", "field"):
                    v = next((k.value for k in v.keywords if k.arg == "default"), None) or (v.args[0] if v.args else None)
                    if v is None or (isinstance(v, ast.Constant) and v.value is Ellipsis):
                        continue
                if isinstance(v, ast.Call) and ast.unparse(v.func).split(".")[-1] in ("TypeVar", "RLock", "Lock", "getLogger"):
                    continue
                for u in names_used(v):
                    need(u, c.module)
                body.append(f"    {b.target.id} = {ast.unparse(v)}")
            elif isinstance(b, ast.Assign) and isinstance(b.targets[0], ast.Name) and b.targets[0].id not in ("model_config", "__slots__", "__hash__"):
                if isinstance(b.value, ast.Call) and not enumlike:
                    continue
                for u in names_used(b.value):
                    need(u, c.module)
                body.append(f"    {b.targets[0].id} = {ast.unparse(b.value)}")
        if body:
            nm = c.name + "Values"
            while nm in seen:
                nm += "_"
            seen.add(nm)
            blocks.append(f'@target("{c.qual}", props={json.dumps(pr(c.qual, d))})\nclass {nm}:\n' + "\n".join(body))
        for m in c.methods.values():
            func(m, d)
        for k in c.nested.values():
            cls(k, d)

    for mn, d in cfg["modules"].items():
        if mn.endswith(".*"):
            mods = [m for m in p.modules if m == mn[:-2] or m.startswith(mn[:-1])]
        else:
            mods = [mn]
        for m in sorted(mods):
            mod = p.modules[m]
            cb = []
            top = [ast.unparse(n.targets[0]) for n in ast.walk(mod.tree) if isinstance(n, ast.Assign)]
            for nd in mod.tree.body:
                t = nd.target if isinstance(nd, ast.AnnAssign) else nd.targets[0] if isinstance(nd, ast.Assign) and len(nd.targets) == 1 else None
                if isinstance(t, ast.Name) and nd.value is not None and t.id not in ("__all__", "logger") and not t.id.startswith("__"):
                    if isinstance(nd.value, ast.Call) and ast.unparse(nd.value.func).split(".")[-1] in ("TypeVar", "NewType", "getLogger", "get_logger", "ParamSpec", "TypeAdapter", "Typer", "ContextVar", "RLock", "Lock"):
                        continue
                    if any(isinstance(x, (ast.Subscript, ast.BitOr)) for x in ast.walk(nd.value)):
                        continue
                    if isinstance(nd.value, (ast.Name, ast.Attribute)) or top.count(t.id) > 1:
                        continue
                    for u in names_used(nd.value):
                        need(u, mod)
                    cb.append(f"    {t.id} = {ast.unparse(nd.value)}")
            if cb and not any(s.search(m) for s in skip):
                blocks.append(f'@target("{m}", props={json.dumps(pr(m, d))})\nclass K{len(blocks)}_constants:\n' + "\n".join(cb))
            for node in mod.tree.body:
                e = mod.symbols.get(getattr(node, "name", ""))
                if isinstance(node, ast.FunctionDef) and e and e[0] == "func":
                    func(e[1], d)
                elif isinstance(node, ast.ClassDef) and e and e[0] == "class":
                    cls(e[1], d)
    byname = {}
    for src, items in header.items():
        for a, b in items:
            byname.setdefault(b, set()).add((src, a))
    clash = {b for b, v in byname.items() if len(v) > 1} | {b for b in byname if b in consts}
    for src in header:
        header[src] = {(a, b) for a, b in header[src] if b not in clash}
    if clash:
        print("   clashing names left to the module:", sorted(map(str, clash)))
    lines = ["# Reference equations (parsed by the checker, never executed)."]
    for src in sorted(header):
        if src == "":
            for a, asn in sorted(header[src], key=str):
                lines.append(f"import {a}" + (f" as {asn}" if asn else ""))
    for src in sorted(header):
        if src and header[src]:
            lines.append(f"from {src} import " + ", ".join(a if a == b else f"{a} as {b}" for a, b in sorted(header[src])))
    for k, v in consts.items():
        lines.append(f"{k} = {v}")
    with open(out, "w") as f:
        f.write("\n".join(lines) + "\n\n\n" + "\n\n\n".join(blocks) + "\n")
    print(out, len(blocks), "targets")


if __name__ == "__main__":
    c = argv[2]
    main(argv[1], json.loads(c) if c.startswith("{") else json.load(open(c)))
