"""Development aid: give the raise statements of the drafted reference equations the arguments the source has."""
import ast, copy, glob, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa.program import Program

p = Program("/repo/src")
SKIP = {"ValueError", "TypeError", "NotImplementedError", "KeyError", "RuntimeError", "IndexError", "PydanticCustomError", "AssertionError", "StopIteration"}


class Nm(ast.NodeTransformer):
    pass


def name(n):
    f = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
    return ast.unparse(f) if f is not None else None


def raises(node):
    return [n for n in ast.walk(node) if isinstance(n, ast.Raise) and n.exc is not None and isinstance(n.exc, ast.Call)]


for path in sorted(glob.glob("spec/*.py")):
    src = open(path).read()
    lines = src.splitlines()
    tree = ast.parse(src)
    todo = []
    for f in tree.body:
        if not isinstance(f, ast.FunctionDef):
            continue
        t = [d for d in f.decorator_list if isinstance(d, ast.Call) and getattr(d.func, "id", "") == "target"]
        if not t:
            continue
        q = t[0].args[0].value
        g = p.functions.get(q)
        if g is None:
            continue
        a, b = raises(f), raises(g.node)
        a = [x for x in a if name(x).split(".")[-1] not in SKIP]
        b = [x for x in b if name(x).split(".")[-1] not in SKIP]
        if not a or all(x.exc.args or x.exc.keywords for x in a):
            continue
        if [name(x) for x in a] != [name(x) for x in b]:
            print("MISMATCH", path, q, [name(x) for x in a], [name(x) for x in b])
            continue
        for x, y in zip(a, b):
            if not x.exc.args and not x.exc.keywords and (y.exc.args or y.exc.keywords):
                todo.append((x, "raise " + ast.unparse(y.exc)))
    for x, new in sorted(todo, key=lambda t: -t[0].lineno):
        l = lines[x.lineno - 1]
        assert x.lineno == x.end_lineno
        lines[x.lineno - 1] = l[:x.col_offset] + new
    open(path, "w").write("\n".join(lines) + "\n")
    print(path, len(todo))
