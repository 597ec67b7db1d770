"""Check framework: reference equations (spec/*.py) and rule modules against /repo's current tree."""
from __future__ import annotations

import ast
import signal
import hashlib
import importlib
import json
import os
import re
import sys
import time
import traceback

from . import terms as tm
from .interp import Budget, Env, Interp, Policy, State, Summary
from .program import walk_own, FuncInfo, Module, Program
from .terms import FALSE, NONE, TRUE, T, mk, mk_ite

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class limit:
    """Bounds the time and the growth in memory of one comparison; exceeding them leaves the construct undecided."""

    def __init__(self, seconds, mbytes=3500):
        self.seconds, self.mb = seconds, mbytes

    def __enter__(self):
        self.end = time.time() + self.seconds
        self.old = signal.signal(signal.SIGALRM, self.tick)
        signal.setitimer(signal.ITIMER_REAL, 0.25, 0.25)

    def tick(self, *_):
        if time.time() > self.end:
            raise Budget("time")
        with open("/proc/self/statm") as f:
            if int(f.read().split()[1]) * 4096 > self.mb * 2**20:
                raise Budget("memory")

    def __exit__(self, *_):
        signal.setitimer(signal.ITIMER_REAL, 0, 0)
        signal.signal(signal.SIGALRM, self.old)
        return False


class AnalysisBroken(Exception):
    pass


ONLY = os.environ.get("SA_ONLY")  # debugging: restrict to matching targets, write no evidence


def load_inventory(name="inventory.txt"):
    with open(os.path.join(ROOT, "sa", name)) as f:
        return frozenset(x.strip() for x in f if x.strip())


def load_known():
    with open(os.path.join(ROOT, "known_findings.json")) as f:
        return json.load(f)


class SpecModule(Module):
    pass


class SpecFunc(FuncInfo):
    def __init__(self, qual, module, node, cls, fallback):
        super().__init__(qual, module, node, cls)
        self.unknown_decorator = []


class Ctx:
    def __init__(self, prop: str, tier: str, program: Program | None = None):
        self.prop, self.tier = prop, tier
        self.p = program or Program(os.path.join(REPO, "src"))
        self.inventory = load_inventory()
        self.inventory_props = load_inventory("inventory_props.txt")
        self.obligations: list = []
        self.violations: list = []
        self.notes: list = []
        self.analysed: set = set()
        self.counts: dict = {}
        self._targets = None
        self._attr = None
        self._names = None
        self.absent = set()
        path = os.path.join(ROOT, "spec", "shapes.json")
        self.shapes = None
        if os.path.exists(path):
            with open(path) as f:
                self.shapes = json.load(f)

    # ---------------------------------------------------------------- reporting
    def ok(self, rule, construct, detail=""):
        self.obligations.append({"rule": rule, "construct": construct, "verdict": "holds", **({"detail": detail} if detail else {})})

    def bad(self, rule, construct, detail, fingerprint=""):
        key = f"{rule}|{construct}|{fingerprint}" if fingerprint else f"{rule}|{construct}"
        self.obligations.append({"rule": rule, "construct": construct, "verdict": "violated", "detail": detail[:1500]})
        self.violations.append({"rule": rule, "construct": construct, "detail": detail, "key": key})

    def undecided(self, rule, construct, detail):
        self.obligations.append({"rule": rule, "construct": construct, "verdict": "undecided", "detail": detail[:800]})

    def require(self, cond, rule, construct, detail="", fingerprint=""):
        if cond:
            self.ok(rule, construct)
        else:
            self.bad(rule, construct, detail or "rule not met", fingerprint)
        return bool(cond)

    def count(self, name, n, minimum):
        self.counts[name] = n
        if n < minimum:
            raise AnalysisBroken(f"{name}: {n} instances analysed, {minimum} confirmed")

    # ---------------------------------------------------------------- lookup
    def func(self, qual) -> FuncInfo:
        f = self.p.find(qual)
        if f is None:
            # moved within the program: same class name and method / same function name, unique
            parts = qual.split(".")
            cands = [g for g in self.p.functions.values() if g.name == parts[-1] and
                     (g.cls is not None and len(parts) > 1 and g.cls.name == parts[-2] if parts[-2][:1].isupper() else g.cls is None)]
            if len(cands) == 1:
                f = cands[0]
            elif parts[-2][:1].isupper():
                c = self.p.find_class(".".join(parts[:-1]))
                if c is not None:
                    f = c.find_method(parts[-1])
        if f is None:
            raise AnalysisBroken(f"anchor {qual} not found in the current tree")
        return f

    def interp(self, home=(), opaque=(), inline=(), deep=False, budget=600000, max_depth=10):
        return Interp(self.p, Policy(home=home, opaque=opaque, inline=inline, inventory=self.inventory, deep=deep, max_depth=max_depth), budget)

    def summary(self, qual, home=(), opaque=(), inline=(), deep=False, args=None, cls=None, names=None, it=None):
        f = qual if isinstance(qual, FuncInfo) else self.func(qual)
        it = it or self.interp(set(home) | {f.module.name}, opaque, inline, deep)
        s = it.run(f, args=args, cls=cls, names=names)
        self.analysed |= it.analysed
        s.interp = it
        return s

    # ---------------------------------------------------------------- reference equations
    def run_specs(self, names):
        for m in [self.load_spec(n) for n in names]:
            self.run_spec_module(m)

    def load_spec(self, name):
        path = os.path.join(ROOT, "spec", name + ".py")
        m = Module("spec." + name, path, os.path.relpath(path, ROOT), self.p)
        # functions of the spec file are always analysed in place
        for k, e in list(m.symbols.items()):
            if e[0] == "func":
                self.p.functions[e[1].qual] = e[1]
        self.p.modules["spec." + name] = m
        for node in m.tree.body:
            if isinstance(node, ast.FunctionDef):
                for d in node.decorator_list:
                    if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id == "target":
                        for a in d.args:
                            self._inject(ast.literal_eval(a), node, m)
        return m

    def run_spec_module(self, m):
        n = 0
        default = [m.name.rpartition(".")[2].upper()]
        for node in m.tree.body:
            if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name) and node.targets[0].id == "PROPS":
                default = ast.literal_eval(node.value)
        for node in m.tree.body:
            if isinstance(node, ast.ClassDef):
                n += self._class_spec(node, m, default)
                continue
            if not isinstance(node, ast.FunctionDef):
                continue
            for d in node.decorator_list:
                if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id == "target":
                    opts = {k.arg: ast.literal_eval(k.value) for k in d.keywords}
                    for a in d.args:
                        if self._mine(opts, default, ast.literal_eval(a)):
                            self.spec(ast.literal_eval(a), node, m, opts)
                            n += 1
        self.counts["reference equations"] = self.counts.get("reference equations", 0) + n
        return n

    def _mine(self, opts, default, q):
        return self.prop in list(opts.get("props", default)) + list(opts.get("also", ())) or any(
            self.prop in ps and (rx.match(q) or rx.match(q + ".")) for rx, ps in self.attribution())

    def attribution(self):
        if self._attr is None:
            self._attr = []
            with open(os.path.join(ROOT, "spec", "attribution.txt")) as f:
                for line in f:
                    w = line.split("#")[0].split()
                    if w:
                        self._attr.append((re.compile(w[0]), frozenset(w[1:])))
        return self._attr

    def _class_spec(self, node, m, default):
        """Defaults of fields, values of enum members and class constants."""
        n = 0
        for d in node.decorator_list:
            if not (isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id == "target"):
                continue
            q = ast.literal_eval(d.args[0])
            if not self._mine({k.arg: ast.literal_eval(k.value) for k in d.keywords}, default, q):
                continue
            if q in self.p.modules:
                n += self._module_spec(self.p.modules[q], node, m)
                continue
            c = self.p.find_class(q)
            if c is None:
                self.undecided("field-default", q, "class no longer present")
                continue
            it = self.interp({c.module.name, m.name})
            st0 = State(_Overlay(m, c.module), None)
            for b in node.body:
                if isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
                    nm, val = b.target.id, b.value
                elif isinstance(b, ast.Assign) and isinstance(b.targets[0], ast.Name):
                    nm, val = b.targets[0].id, b.value
                else:
                    continue
                n += 1
                got = self.member_default(it, c, nm)
                if val is None:
                    self.require(got is None, "field-required", f"{q}.{nm}", f"has default {tm.short(got, 80) if got is not None else ''}")
                    continue
                want = it.ev(val, st0)
                self.require(got is not None and (got is want or tm.equivalent(_lift(got), _lift(want))), "field-default", f"{q}.{nm}",
                             f"is {tm.short(got, 100) if got is not None else 'missing'}, required {tm.short(want, 100)}",
                             _fp((got,)) if got is not None else "missing")
        return n

    def _module_spec(self, mod, node, m):
        """Values of module-level tables and constants."""
        n = 0
        it = self.interp({mod.name, m.name})
        st0 = State(_Overlay(m, mod), None)
        st1 = State(mod, None)
        for b in node.body:
            if not isinstance(b, ast.Assign):
                continue
            nm = b.targets[0].id
            e = mod.symbols.get(nm)
            n += 1
            if e is None or e[0] != "const":
                self.undecided("constant", f"{mod.name}.{nm}", "no longer a module-level value")
                continue
            with limit(20):
                got, want = it.ev(e[2], st1), it.ev(b.value, st0)
                same = got is want or tm.equivalent(_lift(got), _lift(want))
            self.require(same, "constant", f"{mod.name}.{nm}", f"is {tm.short(got, 300)}, required {tm.short(want, 300)}", _fp((got,)))
        return n

    def member_default(self, it, c, nm):
        from .interp import _field_default
        for fn, ann, dvn, k2 in c.all_fields():
            if fn == nm:
                dd = _field_default(dvn) if dvn is not None else None
                return it.ev(dd, State(k2.module, k2)) if dd is not None else None
        a = c.find_attr(nm)
        return it.ev(a[1], State(a[0].module, a[0])) if a is not None else None

    def _inject(self, q, node, m):
        """A private helper that no longer exists (inlined into its callers): its callers are still compared; the reference
        keeps using the equation of the helper."""
        owner, _, name = q.rpartition(".")
        if not name.startswith("_") or name.startswith("__"):
            return
        try:
            self.func(q)
            return
        except AnalysisBroken:
            pass
        c = self.p.find_class(owner)
        tm_ = c.module if c is not None else self.p.modules.get(owner)
        if tm_ is None:
            return
        sf = SpecFunc(q, _Overlay(m, tm_), node, c, tm_)
        args = [a.arg for a in node.args.args]
        sf.static = c is not None and (not args or args[0] not in ("self", "cls"))
        sf.classm = c is not None and bool(args) and args[0] == "cls"
        sf.prop = q in self.inventory_props
        self.p.functions[q] = sf
        if c is not None:
            c.methods[name] = sf
        else:
            tm_.symbols[name] = ("func", sf)
        self.inventory = self.inventory - {q}
        self.absent.add(q)

    def spec(self, target, node, m, opts):
        rule = "equation"
        if ONLY and not re.search(ONLY, target):
            return
        if target in self.absent:
            self.obligations.append({"rule": rule, "construct": target, "verdict": "undecided",
                                     "detail": "private function no longer present; decided through its callers"})
            return
        try:
            f = self.func(target)
        except AnalysisBroken:
            self.undecided(rule, target, "function no longer present; decided through its callers where they are specified")
            return
        if f.qual in self.p.patched:
            self.bad("replaced", target, f"{f.loc()}: is replaced or wrapped by the module-level code at {self.p.patched[f.qual]}")
            return
        if self.shapes is not None:
            # a method added to a subclass takes the place of the one the equation is about
            for d in f.cls.subclasses() if f.cls is not None and not f.name.startswith("__") and not opts.get("cls") else ():
                g = d.methods.get(f.name)
                if g is not None and g.qual not in self.inventory and d.qual in self.shapes["classes"]:
                    self._override(rule, g, d, node, m, opts)
            was = set(self.shapes["wrapped"].get(target, ()))
            now = {w for w in f.unknown_decorator if w != "cache"}
            if now - was:
                self.bad("decorator", target, f"{f.loc()}: newly wrapped by {', '.join(sorted(now - was))}")
                return
            if was - now:
                self.bad("decorator", target, f"{f.loc()}: no longer wrapped by {', '.join(sorted(was - now))}")
                return
        ln = _done_too_early(f)
        if ln:
            self.bad("once-flag", target, f"{f.module.relpath}:{ln[0]}: {ln[1]} is set before the work it stands for is done; when a later call raises, the next call takes it for done")
            return
        if self.p.remembers(f):
            self.bad("memo", target, f"{f.loc()}: the result is kept between calls although the arguments do not determine it ({', '.join(f.decorators)})")
            return
        clsq = opts.get("cls")
        cls = self.p.find_class(clsq) if clsq else f.cls
        results = []
        modes = ["home"]
        if not opts.get("nodeep"):
            modes.append("deep")
        # callees that have a reference equation of their own stay opaque: first choice for large functions, last resort for others
        if opts.get("modular"):
            modes.insert(0, "modular")
        else:
            modes.append("modular")
        last = None
        err = None
        undecided = None
        sure = False
        for mode in modes:
            t0 = time.time()
            if mode == "modular" and last is not None:
                break
            try:
                # a difference that is still to be confirmed gets ample time
                with limit(90 if last is not None or self.tier != "quick" else 8 if opts.get("modular") and mode != "modular" else 15):
                    diff, n_inl = self._compare(f, cls, node, m, opts, mode)
            except (Budget, tm.LiftOverflow, RecursionError, MemoryError) as e:
                err = e
                if os.environ.get("SA_TIMES"):
                    print(f"   {time.time()-t0:6.2f} s {target} {type(e).__name__} {e}"[:300], file=sys.stderr, flush=True)
                continue
            if os.environ.get("SA_TIMES") and time.time() - t0 > 0.3:
                print(f"   {time.time()-t0:6.2f} s {target}", file=sys.stderr, flush=True)
            if diff is None:
                self.ok(rule, target, f"normal forms agree; {n_inl} functions analysed in place")
                return
            if mode == "modular" and len(diff) > 2 and diff[2] and last is None:
                err = Budget("the calls made differ and the callees are too large to analyse in place")
                continue
            if diff[0] == "undecided":
                undecided = diff[1]
                continue
            if last is None:
                last = diff
                # the same functions, each decided by its own equation, are called in another way
                sure = mode == "modular"
            if mode == "home" and not opts.get("modular") and "deep" not in modes:
                break
        if undecided is not None and not sure:
            self.undecided(rule, target, undecided)
            return
        if last is None:
            self.undecided(rule, target, f"{type(err).__name__}: {err}")
            return
        gone = self.gone(node, f)
        if gone:
            self.undecided(rule, target, f"the reference equation mentions {gone}, which no longer exists")
            return
        self.bad(rule, target, f"{f.loc()}: {last[0]}", last[1])

    def _override(self, rule, g, d, node, m, opts):
        for mode in ("home", "deep"):
            try:
                with limit(30):
                    diff, _ = self._compare(g, d, node, m, opts, mode)
            except (Budget, tm.LiftOverflow, RecursionError, MemoryError, AnalysisBroken) as e:
                diff = (f"{type(e).__name__}: {e}",)
            if diff is None:
                self.ok("override", g.qual, "normal forms agree")
                return
        if diff[0] == "undecided":
            self.undecided("override", g.qual, diff[1])
        else:
            self.bad("override", g.qual, f"{g.loc()}: newly overrides the inherited method and differs from it: {diff[0]}")

    def gone(self, node, f):
        """A private name of the original code which the reference equation mentions, that has no equation of its own and is
        no longer known anywhere in the current source (renamed, or its contents moved)."""
        if self._names is None:
            self._names = set()
            for md in self.p.modules.values():
                if not md.name.startswith("spec."):
                    for x in ast.walk(md.tree):
                        if isinstance(x, ast.Name):
                            self._names.add(x.id)
                        elif isinstance(x, ast.Attribute):
                            self._names.add(x.attr)
                        elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                            self._names.add(x.name)
                        elif isinstance(x, ast.arg):
                            self._names.add(x.arg)
        known = {q.rpartition(".")[2] for q in self.p.functions}
        for x in ast.walk(node):
            nm = x.attr if isinstance(x, ast.Attribute) else x.id if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) else None
            if nm and nm.startswith("_") and not nm.startswith("__") and nm not in self._names and nm not in known and nm in self._original():
                return nm
        # recursive, abstract or default-valued uses of a function that is gone remain visible in the value itself
        lost = {q.rpartition(".")[2] for q in self.absent} - self._names
        if lost:
            ref = self.sides[1] if self.sides else None
            for t in (*([ref.ret, *[y for x in ref.raises for y in x[:2]], *[y for x in ref.effects for y in x], *ref.stores().values()] if ref else ()), *self.defaults):
                for x in tm.subterms(t):
                    for a in x.args:
                        if isinstance(a, str) and a.rpartition(".")[2] in lost:
                            return a.rpartition(".")[2]
        return None

    def _original(self):
        return {q.rpartition(".")[2] for q in self.inventory}

    def _compare(self, f, cls, node, m, opts, mode):
        if mode != "modular":
            return self._compare_(f, cls, node, m, opts, mode == "deep", ())
        d, n = self._compare_(f, cls, node, m, opts, False, self.targets())
        if d is not None and d[0] != "undecided":
            a, b = self.sides
            d = d + (_callees(a, self.targets()) != _callees(b, self.targets()),)
        return d, n

    def targets(self):
        """Functions that have a reference equation."""
        if self._targets is None:
            self._targets = set()
            for fn in os.listdir(os.path.join(ROOT, "spec")):
                if fn.endswith(".py"):
                    with open(os.path.join(ROOT, "spec", fn)) as f:
                        self._targets |= set(re.findall(r'^@target\("([^"]+)"', f.read(), re.M))
        return self._targets

    def _compare_(self, f, cls, node, m, opts, deep, modular):
        it = self.interp({f.module.name, m.name} | set(opts.get("home", ())), opts.get("opaque", ()), opts.get("inline", ()), deep)
        it.policy.modular = frozenset(modular) - {f.qual}
        it.open_closures = True
        r = self._compare_with(it, f, cls, node, m, opts)
        if r[0] is not None:
            # once more with all types that either side revealed
            it._typememo.clear()
            r = self._compare_with(it, f, cls, node, m, opts)
        return r

    def _compare_with(self, it, f, cls, node, m, opts):
        specnames = [a.arg for a in node.args.posonlyargs + node.args.args] + ([node.args.vararg.arg] if node.args.vararg else []) + \
            [a.arg for a in node.args.kwonlyargs] + ([node.args.kwarg.arg] if node.args.kwarg else [])
        tm._bv_counter[0] = 0
        it.zips, it.before_raise = [], {}
        code = it.run(f, cls=cls, names=specnames)
        inl = set(it.analysed)
        self.analysed |= inl
        sf = SpecFunc(f.qual, _Overlay(m, f.module), node, cls if f.cls is not None else None, f.module)
        sf.static, sf.classm, sf.prop = f.static, f.classm, f.prop
        # the same symbols stand for the same inputs
        args = {}
        pos, var, kwo, kwv = f.params()
        allp = pos + ([var] if var else []) + kwo + ([kwv] if kwv else [])
        sp = specnames
        if len(sp) < len(allp) and not opts.get("fewer"):
            # parameters added with a default keep their default
            extra = allp[len(sp):]
            for pn in extra:
                d = it._default_of(f, pn)
                if d is None:
                    raise AnalysisBroken(f"{f.qual}: new required parameter {pn}")
            args2 = {pn: it._default_of(f, pn) for pn in extra}
            tm._bv_counter[0] = 0
            code = it.run(f, args=args2, cls=cls, names=specnames)
        env = {}
        for i, pn in enumerate(sp):
            if i == 0 and f.cls is not None and not f.static and not f.classm and f.name != "__new__":
                s = tm.sym("self")
            elif i == 0 and f.classm:
                s = mk("glob", (cls or f.cls).qual)
            else:
                s = tm.sym(pn)
            env[pn] = s
        self.sides, self.defaults = None, []
        # declared defaults are part of the behaviour of a call that omits the argument
        for pn, cn in zip(sp, allp):
            want = it._default_of(sf, pn)
            if want is not None:
                got = it._default_of(f, cn)
                self.defaults.append(want)
                if got is not want and not (got is not None and _lift(got) is _lift(want)):
                    return (f"default of parameter {cn} is {tm.short(got, 80) if got is not None else 'missing'}, required {tm.short(want, 80)}", "default:" + pn), len(inl)
        zipped, it.zips = it.zips, []
        left, it.before_raise = it.before_raise, {}
        st = State(sf.module, f.cls, Env(env), {}, 0, (f.qual,))
        tm._bv_counter[0] = int(os.environ.get("SA_BV", "0"))  # the result must not depend on the names of bound variables
        it._runbody(sf, st)
        ref = it._summary(sf, st)
        self.sides = code, ref
        only = opts.get("only", ("ret", "raises", "stores", "effects"))
        if isinstance(only, str):
            only = (only,)
        fields = opts.get("fields")

        def proj(s: Summary):
            r = s.ret
            if fields is not None:
                r = tm.map_leaves(r, lambda l: l if l.op == "raise" or l is NONE else tm.mk_seq(it.getattr(l, x, st) for x in fields))
            if "ret" not in only:
                r = mk("ok")
            if "raises" in only:
                for g, e, _ in reversed(s.raises):
                    r = mk_ite(g, e if not opts.get("anyexc") else mk("raise", "*"), r)
            else:
                pass
            return r

        a, b = proj(code), proj(ref)
        ha, hb = _hard(code), _hard(ref)
        if _carried(ref) is None and _carried(code):
            return ("an iteration of a loop uses what an earlier iteration left behind, which the required value does not: "
                    f"{tm.short(_carried(code), 300)}", "carried"), len(inl)
        if not _tested(ref) and _tested(code):
            return ("whether an iteration of a loop contributes depends on what earlier iterations left behind, which the required value does not: "
                    f"{tm.short(_tested(code), 300)}", "carried"), len(inl)
        if ha != hb:
            atoms = list({x for x in tm.subterms(b) if x.op == "truthy" and x.args[0].op == "loopexit"})
            for v in (FALSE, tm.TRUE) if ha < hb and atoms else ():
                for m in ({x: v for x in atoms}, *({x: v} for x in (atoms if len(atoms) > 1 else ()))):
                    if _lift(tm.subst(b, m)) is _lift(a):
                        return (f"the outcome no longer depends on {tm.short(list(m)[0], 400)}; code computes {tm.short(a, 400)}", _fp((a,))), len(inl)
            return ("undecided", f"the loops of this function are not comparable ({ha} against {hb} irreducible loops)"), len(inl)
        if "raises" not in only and a is not b:
            # do not care about the value where the code raises
            rg = FALSE
            for g, e, _ in code.raises + ref.raises:
                rg = tm.mk_or(rg, g)
            a, b = mk_ite(rg, mk("dc"), a), mk_ite(rg, mk("dc"), b)
        d = self._diff("result", a, b, opts)
        if d:
            return d, len(inl)
        if "stores" in only:
            sa_, sb = code.stores(), ref.stores()
            ign = set(opts.get("ignore_stores", ()))
            for k in sorted(set(sa_) | set(sb), key=lambda k: (k[0].d, k[1])):
                if k[1] in ign:
                    continue
                va = sa_.get(k, it._heap0(k))
                vb = sb.get(k, it._heap0(k))
                if not _interesting_store(k, sa_, sb):
                    continue
                d = self._diff(f"value stored in {tm.show(k[0])}.{k[1]}", va, vb, opts)
                if d and (code.raises or ref.raises):
                    # what is stored counts where the function completes
                    rg = FALSE
                    for g, e, _ in code.raises + ref.raises:
                        rg = tm.mk_or(rg, g)
                    d = self._diff(f"value stored in {tm.show(k[0])}.{k[1]}", mk_ite(rg, mk("dc"), va), mk_ite(rg, mk("dc"), vb), opts)
                if d:
                    return d, len(inl)
            for k in left:
                if k not in it.before_raise and k[1] not in ign and not (f.name in ("__init__", "__post_init__") and k[0] is tm.sym("self")):
                    return (f"{tm.show(k[0])}.{k[1]} is already changed where the call is refused (line {left[k]})", "left:" + k[1]), len(inl)
        if "effects" in only:
            ea, eb = self._effects(code, opts), self._effects(ref, opts)
            if ea != eb:
                xa = [x for x in ea if x not in eb]
                xb = [x for x in eb if x not in ea]
                return (("effects differ: code has " + "; ".join(f"[{tm.short(g, 200)}] {tm.short(e, 300)}" for g, e in xa[:3]) +
                        " / expected " + "; ".join(f"[{tm.short(g, 200)}] {tm.short(e, 300)}" for g, e in xb[:3]) +
                         ("" if xa or xb else " (order)")), _fp(tuple(x for t in ea for x in t))), len(inl)
        strict = {a for a, s in zipped if s}
        for a, s in it.zips:
            if s and a not in strict and (a, False) in zipped:
                return ("sequences of unequal length are no longer refused where they are iterated together: " +
                        ", ".join(tm.short(x, 80) for x in a), "zip"), len(inl)
        return None, len(inl)

    def _effects(self, s, opts):
        out = []
        for g, e in s.effects:
            if g is FALSE or e.op in ("exit",):
                continue
            if e.op == "mcall" and e.args[1] in opts.get("ignore_effects", ()):
                continue
            out.append((_lift(g), _lift(e)))
        if opts.get("effects", "set") == "set":
            out = sorted(out, key=lambda t: (t[0].d, t[1].d))
        return out

    def _diff(self, what, a, b, opts):
        if a is b:
            return None
        la, lb = _lift(a), _lift(b)
        if la is lb:
            return None
        try:
            if tm.equivalent(la, lb):
                return None
        except tm.Undecided:
            return ("undecided", f"{what}: case distinction too large")
        pa, pb = first_difference(la, lb)
        return (f"{what} differs from the required value at {pa} (required: {pb}); code computes {tm.short(la, 700)}; required {tm.short(lb, 700)}", _fp((la,)))


_TRIVIAL = {"len", "str", "int", "float", "bool", "list", "dict", "set", "tuple", "isinstance", "print", "debug", "info", "warning", "error", "exception", "log"}


def _done_too_early(f):
    """A flag that is tested to skip the work, set to True before calls that may still fail."""
    ps = f.params()[0]
    if not ps or f.static:
        return None
    own = lambda n: isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in (ps[0], "cls")
    tested = {n.attr for i in walk_own(f.node) if isinstance(i, (ast.If, ast.IfExp)) for n in ast.walk(i.test) if own(n)}
    if not tested:
        return None
    protected = {id(n) for t in ast.walk(f.node) if isinstance(t, ast.Try) and any(
        own(x) and isinstance(x.ctx, ast.Store) for h in [*t.handlers, *t.finalbody] for x in ast.walk(h)) for n in ast.walk(t)}

    def after(stmts):
        """Calls made by these statements."""
        for s in stmts:
            for n in ast.walk(s):
                if isinstance(n, ast.Call):
                    nm = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", "")
                    if nm not in _TRIVIAL:
                        return True
        return False

    def go(stmts, rest):
        for i, s in enumerate(stmts):
            ends = next((j for j in range(i, len(stmts)) if isinstance(stmts[j], (ast.Return, ast.Raise))), None)
            later = list(stmts[i + 1:]) + rest if ends is None else list(stmts[i + 1:ends + 1])
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.Constant) and s.value.value is True and id(s) not in protected:
                for t in s.targets:
                    if own(t) and t.attr in tested and after(later):
                        return s.lineno, f"{ast.unparse(t)}"
            for b in ("body", "orelse", "finalbody"):
                r = go(getattr(s, b, None) or [], later) if not isinstance(s, (ast.FunctionDef, ast.ClassDef)) else None
                if r:
                    return r
        return None
    return go(f.node.body, [])


class _Overlay:
    """Spec module namespace first, then the target module's."""

    def __init__(self, m, target):
        self.m, self.target = m, target
        self.symbols = dict(target.symbols)
        self.symbols.update({k: v for k, v in m.symbols.items()})
        self.name, self.relpath, self.program = target.name, m.relpath, m.program
        self.is_pkg = target.is_pkg

    def abs_module(self, st):
        return self.m.abs_module(st)


def _hard(s: Summary):
    """Number of loops that the normal form keeps as loops (no closed form)."""
    ts = [s.ret] + [x for g, e, _ in s.raises for x in (g, e)] + [x for g, e in s.effects for x in (g, e)] + list(s.stores().values())
    seen = set()
    for t in ts:
        for x in tm.subterms(t):
            if x.op in ("loop", "loopexit", "lam?", "unknown", "unk"):
                seen.add((x.op,) + (x.args[:3] if x.op == "loop" else x.args))
    return len(seen)


def _carried(s: Summary):
    """A loop whose result depends on the order of its iterations (no closed form)."""
    ts = [s.ret] + [x for g, e, _ in s.raises for x in (g, e)] + [x for g, e in s.effects for x in (g, e)] + list(s.stores().values())
    for t in ts:
        for x in tm.subterms(t):
            if x.op in ("loop", "loopexit"):
                return x
    return None


def _tested(s: Summary):
    """A condition within a loop on the state that the loop itself builds up."""
    ts = [s.ret] + [x for g, e, _ in s.raises for x in (g, e)] + [x for g, e in s.effects for x in (g, e)] + list(s.stores().values())
    for t in ts:
        for x in tm.subterms(t):
            if x.op == "ite" and any(y.op == "carried" for y in tm.subterms(x.args[0])):
                return x.args[0]
    return None


def _interesting_store(k, a, b):
    return True


def _fp(ts):
    h = hashlib.sha256()
    for t in ts:
        h.update(t.d.encode())
    return h.hexdigest()[:12]


def _lift(t):
    try:
        return tm.lift(t)
    except tm.LiftOverflow:
        return t


def first_difference(a, b, depth=0):
    """Locate the innermost differing subterms for the report."""
    if depth > 40 or a.op != b.op or len(a.args) != len(b.args):
        return tm.short(a, 300), tm.short(b, 300)
    if a.op in ("poly", "max", "min"):
        return tm.short(a, 300), tm.short(b, 300)
    diffs = []

    def walk(x, y):
        if x is y or (not isinstance(x, (T, tuple)) and x == y):
            return
        if isinstance(x, tuple) and isinstance(y, tuple):
            if len(x) != len(y):
                diffs.append((x, y)); return
            for p, q in zip(x, y):
                walk(p, q)
            return
        diffs.append((x, y))

    for x, y in zip(a.args, b.args):
        walk(x, y)
    if len(diffs) == 1 or (a.op == "ite" and diffs):
        x, y = diffs[0]
        if isinstance(x, T) and isinstance(y, T):
            return first_difference(x, y, depth + 1)
    return tm.short(a, 300), tm.short(b, 300)


def _callees(s, targets):
    """Names of the functions with a reference equation that a summary calls."""
    names = {t.rpartition(".")[2] for t in targets}
    out = set()
    ts = [s.ret] + [x for g, e, _ in s.raises for x in (g, e)] + [x for g, e in s.effects for x in (g, e)] + list(s.stores().values())
    for t in ts:
        for x in tm.subterms(t):
            if x.op == "mcall" and x.args[1] in names:
                out.add(x.args[1])
            elif x.op == "call" and x.args[0].op == "glob" and str(x.args[0].args[0]).rpartition(".")[2] in names:
                out.add(str(x.args[0].args[0]).rpartition(".")[2])
    return out


def iterators(ctx):
    """Values that give their elements only once are gone through only once; what belongs to others is not modified."""
    from .once import Once
    o = Once(ctx.p)
    mine = ctx.analysed | {x["construct"] for x in ctx.obligations}
    for q in sorted(mine & set(o.faults)):
        line, msg = o.faults[q][0]
        ctx.bad("iterator", q, f"{ctx.p.functions[q].module.relpath}:{line}: {msg}", msg.split(" ")[0])
    ctx.counts["functions_searched_for_reused_iterators"] = len(mine & set(o.nodes))
    from . import own
    with open(os.path.join(ROOT, "spec", "effects.json")) as f:
        t = json.load(f)
    w = own.Own(o)
    attrs = set(t["attributes"])
    known = sorted(q for q in mine & set(t["functions"]) if q in o.nodes and q in ctx.p.functions)
    for q in known:
        l = own.check(w, t["functions"], attrs, q)
        if l:
            line, msg = min(l)
            ctx.bad("ownership", q, f"{ctx.p.functions[q].module.relpath}:{ctx.p.functions[q].node.lineno}: {msg} (line {line})", msg.split(" ")[0])
    ctx.counts["functions_whose_in_place_effects_are_bounded"] = len(known)


# ==================================================================== main
def run_property(prop: str, tier: str, seed: int) -> int:
    t0 = time.time()
    ctx = Ctx(prop, tier)
    name = prop.lower()
    broken = None
    try:
        ctx.run_specs([fn[:-3] for fn in sorted(os.listdir(os.path.join(ROOT, "spec"))) if fn.endswith(".py")])
        if ctx.shapes is not None:
            from . import shapes
            shapes.check(ctx)
        iterators(ctx)
        if os.path.exists(os.path.join(ROOT, "props", name + ".py")):
            sys.path.insert(0, ROOT)
            mod = importlib.import_module("props." + name)
            mod.check(ctx)
        else:
            mod = None
        with open(os.path.join(ROOT, "sa", "minimum.json")) as f:
            need = json.load(f).get(prop, 1)
        done = sum(1 for o in ctx.obligations if o["verdict"] != "undecided")
        if done < need and not ctx.violations and not ONLY:
            raise AnalysisBroken(f"only {done} obligations decided, at least {need} expected")
    except AnalysisBroken as e:
        broken = str(e)
    except Exception:
        broken = traceback.format_exc()
    if os.environ.get("SA_DUMP"):
        with open(os.path.join(os.environ["SA_DUMP"], prop), "w") as f:
            f.write("".join(x + "\n" for x in sorted(ctx.analysed | {o["construct"] for o in ctx.obligations})))
    known = {k["key"]: k for k in load_known().get("known", []) if k["property"] == prop}
    new = []
    for v in ctx.violations:
        if v["key"] in known:
            print(f"KNOWN-FINDING: property={prop} {known[v['key']]['what']}")
        else:
            new.append(v)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "static analysis of /repo/src: each obligation compares the normalised value-flow term of the current source "
                           "with a required equation, or decides a structural rule over the syntax tree / call graph / control flow; nothing of /repo is executed",
            "obligations": len(ctx.obligations),
            "obligations_hold": sum(1 for o in ctx.obligations if o["verdict"] == "holds"),
            "obligations_undecided": [o["construct"] for o in ctx.obligations if o["verdict"] == "undecided"],
            "functions_analysed": len(ctx.analysed),
            "modules_parsed": len([m for m in ctx.p.modules if not m.startswith("spec.")]),
            "source_digest": ctx.p.digest[:16],
            "instance_counts": ctx.counts,
            "obligation_list": ctx.obligations,
            "functions": sorted(ctx.analysed),
        },
        "assumptions": ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 3),
        "violations": len(new),
    }
    if ONLY:
        for v in new:
            print(f"{v['rule']}: {v['construct']}: {v['detail']}")
        print(len(ctx.obligations), [(o["construct"], o["verdict"], o.get("detail")) for o in ctx.obligations if o["verdict"] == "undecided"], broken)
        return 0
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    if new:
        rp = os.path.join(ROOT, "evidence", f"{prop}.report.txt")
        with open(rp, "w") as f:
            for v in new:
                f.write(f"{v['rule']} | {v['construct']}\n  {v['detail']}\n  key: {v['key']}\n\n")
            f.write(f"replay: python3 -m sa {prop}\n")
        for v in new:
            print(f"{v['rule']}: {v['construct']}: {v['detail']}")
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    if broken:
        print(f"analysis broken: {broken}", file=sys.stderr)
        return 2
    print(f"{prop}: {len(ctx.obligations)} obligations hold, {len(ctx.analysed)} functions analysed, {ev['wall_s']} s")
    return 0


ASSUMPTIONS = [
    "declared parameter and field types are respected by callers",
    "arithmetic is compared over the reals (rounding, NaN and overflow are not modelled)",
    "library calls (numpy, pandas, scipy, datetime) are deterministic functions of their arguments unless listed otherwise",
]
