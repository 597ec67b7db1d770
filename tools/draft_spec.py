"""Development aid: print a draft reference equation for functions of /repo (to be reviewed and rewritten by hand).
usage: draft_spec.py qual [qual ...]      (a class name drafts all of its methods)"""
import ast, sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa.program import Program

p = Program("/repo/src")


class Strip(ast.NodeTransformer):
    def visit_AnnAssign(self, n):
        self.generic_visit(n)
        if n.value is None:
            return None
        return ast.copy_location(ast.Assign([n.target], n.value), n)

    def visit_Assert(self, n):
        return None

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant) and isinstance(n.value.value, str):
            return None
        s = ast.unparse(n.value)
        if s.startswith(("logger.", "logging.", "self._logger", "warnings.")):
            return None
        return n

    def visit_Raise(self, n):
        if isinstance(n.exc, ast.Call):
            n = ast.Raise(ast.Call(n.exc.func, [], []), None)
        return n

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        n.returns = None
        for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs + [x for x in (n.args.vararg, n.args.kwarg) if x]:
            a.annotation = None
        if not n.body:
            n.body = [ast.Pass()]
        return n

    def generic_visit(self, node):
        super().generic_visit(node)
        for f in ("body",):
            b = getattr(node, f, None)
            if isinstance(b, list) and not b and isinstance(node, (ast.stmt, ast.excepthandler)):
                setattr(node, f, [ast.Pass()])
        return node


def draft(f):
    import copy
    n = copy.deepcopy(f.node)
    n = Strip().visit(n)
    n.decorator_list = []
    n.name = (f.cls.name + "_" if f.cls else "f_") + f.name.strip("_")
    ast.fix_missing_locations(n)
    return f'@target("{f.qual}")\n{ast.unparse(n)}\n'


for q in sys.argv[1:]:
    c = p.find_class(q)
    if c is not None:
        for m in c.methods.values():
            if m.abstract: continue
            print(draft(m)); print()
    elif p.find(q):
        print(draft(p.find(q))); print()
    elif q in p.modules:
        for k, e in p.modules[q].symbols.items():
            if e[0] == "func":
                print(draft(e[1])); print()
            elif e[0] == "class":
                for m in e[1].methods.values():
                    print(draft(m)); print()
    else:
        print("# not found", q)
