"""Hash-consed value terms with an algebraic normal form.

This is the abstract domain of the analyser: every value computed by a function is
represented by a term over its inputs (global value numbering), kept in a normal form
so that rewritings which do not change the value (commutation, distribution, moved
guards, renamed temporaries, comprehension <-> loop) give the *same* term.

 * numbers are exact rationals; + and * are polynomials over opaque bases
 * conditions are ordered decision diagrams over comparison atoms, conditional values are
   decision diagrams with value leaves
 * bound variables of comprehensions are numbered canonically
"""
from __future__ import annotations

import hashlib
import sys
from fractions import Fraction

sys.setrecursionlimit(20000)


class T:
    __slots__ = ("op", "args", "d", "h", "__weakref__")

    def __hash__(self):  # independent of memory addresses, so that iteration orders are the same in every run
        return self.h

    def __repr__(self):
        return short(self)


_table: dict = {}


def _digest(op, args) -> str:
    h = hashlib.blake2b(digest_size=10)

    def feed(x):
        if isinstance(x, T):
            h.update(b"T" + x.d.encode())
        elif isinstance(x, tuple):
            h.update(b"(")
            for y in x:
                feed(y)
            h.update(b")")
        else:
            h.update((type(x).__name__ + ":" + str(x) + ";").encode())

    h.update(op.encode() + b"|")
    feed(args)
    return h.hexdigest()


def mk(op: str, *args) -> T:
    key = (op, args)
    # distinguish True/1/1.0
    key = (op, args, tuple(type(a) for a in args))
    t = _table.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.d = _digest(op, args)
        t.h = int(t.d[:15], 16)
        _table[key] = t
    return t


def reset():
    """Forget every interned term (used between independent analyses)."""


# ---------------------------------------------------------------- constants
def num(x) -> T:
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            return mk("fconst", repr(x))
        x = Fraction(repr(x))
    return mk("num", Fraction(x))


def string(s: str) -> T:
    return mk("str", s)


TRUE = mk("bool", True)
FALSE = mk("bool", False)
NONE = mk("none")
UNDEF = mk("undef")
ELLIPSIS = mk("ellipsis")
ZERO = num(0)
ONE = num(1)


def const(v) -> T:
    if v is True:
        return TRUE
    if v is False:
        return FALSE
    if v is None:
        return NONE
    if isinstance(v, (int, float)):
        return num(v)
    if isinstance(v, str):
        return string(v)
    if v is Ellipsis:
        return ELLIPSIS
    return mk("const", repr(v))


def is_const(t: T) -> bool:
    return t.op in ("num", "str", "bool", "none", "enum", "fconst", "const")


def sym(name: str) -> T:
    return mk("sym", name)


# ---------------------------------------------------------------- traversal helpers
def subterms(t: T, seen=None):
    """All distinct subterms (pre-order)."""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(x.args)


def contains(t: T, pred) -> bool:
    return any(pred(s) for s in subterms(t))


_has_memo: dict = {}


def bvs(t) -> frozenset:
    """Set of bound-variable tokens occurring in t."""
    if isinstance(t, tuple):
        r = frozenset()
        for x in t:
            r |= bvs(x)
        return r
    if not isinstance(t, T):
        return frozenset()
    r = _has_memo.get(t)
    if r is None:
        if t.op == "bv":
            r = frozenset([t])
        else:
            r = bvs(t.args)
        _has_memo[t] = r
    return r


def rebuild(t: T, f):
    """Apply f to every child and re-run the smart constructor."""
    def g(x):
        if isinstance(x, T):
            return f(x)
        if isinstance(x, tuple):
            return tuple(g(y) for y in x)
        return x

    new = tuple(g(a) for a in t.args)
    if new == t.args and all(a is b for a, b in zip(new, t.args)):
        return t
    return construct(t.op, new)


def construct(op, args):
    c = _constructors.get(op)
    if c is not None:
        return c(*args)
    return mk(op, *args)


_constructors: dict = {}


def constructor(op):
    def deco(f):
        _constructors[op] = f
        return f
    return deco


def subst(t: T, mapping: dict) -> T:
    memo: dict = {}
    keys = set(mapping)

    def go(x: T) -> T:
        if x in mapping:
            return mapping[x]
        r = memo.get(x)
        if r is None:
            if not x.args:
                r = x
            else:
                r = rebuild(x, go)
            memo[x] = r
        return r

    return go(t) if keys else t


# ---------------------------------------------------------------- loops without closed form
def _carried_order(desc, cl):
    """Order of the loop-carried variables that does not depend on how they are called."""
    if len(desc) < 2:
        return None
    anon = {}
    for i in range(len(desc)):
        anon[mk("carried", cl, i)] = mk("carried", cl, -1)
    key = [init.d + subst(u, anon).d for init, u in desc]
    # refine once: which variables each one depends on
    deps = []
    for init, u in desc:
        deps.append("".join(sorted(key[x.args[1]] for x in subterms(u) if x.op == "carried" and x.args[0] == cl and 0 <= x.args[1] < len(desc))))
    order = sorted(range(len(desc)), key=lambda i: (key[i], deps[i], i))
    return None if order == list(range(len(desc))) else order


def _permute(desc, ex, order, cl):
    new = {mk("carried", cl, o): mk("carried", cl, n) for n, o in enumerate(order)}
    return tuple((desc[o][0], subst(desc[o][1], new)) for o in order), subst(ex, new)


@constructor("loop")
def mk_loop(its, desc, ex, k, cl):
    order = _carried_order(desc, cl)
    if order is not None:
        desc, ex = _permute(desc, ex, order, cl)
        k = order.index(k)
    return mk("loop", tuple(sorted(its, key=lambda x: x.d)), desc, ex, k, cl)


@constructor("loopexit")
def mk_loopexit(its, desc, ex, cl):
    order = _carried_order(desc, cl)
    if order is not None:
        desc, ex = _permute(desc, ex, order, cl)
    return mk("loopexit", tuple(sorted(its, key=lambda x: x.d)), desc, ex, cl)


# ---------------------------------------------------------------- polynomials
# 'poly' args: ((mono, coeff), ...) with mono = ((base, exp), ...), sorted by digest
_MAXPOLY = 120


def to_poly(t: T) -> dict:
    if t.op == "num":
        v = t.args[0]
        return {(): v} if v != 0 else {}
    if t.op == "bool":
        return {(): Fraction(1)} if t is TRUE else {}
    if t.op == "poly":
        return dict(t.args)
    return {((t, Fraction(1)),): Fraction(1)}


def _mono_key(m):
    return tuple((b.d, str(e)) for b, e in m)


def from_poly(p: dict) -> T:
    p = {m: c for m, c in p.items() if c != 0}
    if not p:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(p.items(), key=lambda mc: _mono_key(mc[0])))
    return mk("poly", *items)


@constructor("poly")
def _c_poly(*items):
    res = []
    for m, c in items:
        facs = [num(c)]
        for b, e in m:
            facs.append(mk_pow(b, num(e)) if e != 1 else b)
        res.append(mk_mul(facs))
    return mk_add(res)


def mk_add(ts) -> T:
    ts = list(ts)
    for t in ts:
        if t.op == "raise":
            return t
    p: dict = {}
    for t in ts:
        for m, c in to_poly(t).items():
            p[m] = p.get(m, 0) + c
    return from_poly(p)


def mk_neg(t) -> T:
    return mk_mul([num(-1), t])


def mk_sub(a, b) -> T:
    return mk_add([a, mk_neg(b)])


def _mul_mono(m1, m2):
    d: dict = {}
    for b, e in m1 + m2:
        d[b] = d.get(b, 0) + e
    return tuple(sorted(((b, e) for b, e in d.items() if e != 0), key=lambda be: be[0].d))


def mk_mul(ts) -> T:
    acc = {(): Fraction(1)}
    for t in ts:
        if t.op == "raise":
            return t
        p = to_poly(t)
        if len(acc) * max(len(p), 1) > _MAXPOLY:
            # too large to expand: keep as an opaque base
            p = {((t, Fraction(1)),): Fraction(1)}
        new: dict = {}
        for m1, c1 in acc.items():
            for m2, c2 in p.items():
                m = _mul_mono(m1, m2)
                new[m] = new.get(m, 0) + c1 * c2
        acc = new
    return from_poly(acc)


def mk_pow(b: T, e: T) -> T:
    if e.op == "num":
        ev = e.args[0]
        if ev == 0:
            return ONE
        if ev == 1:
            return b
        if b.op == "num":
            bv = b.args[0]
            if ev.denominator == 1 and not (bv == 0 and ev < 0) and abs(ev) < 64:
                return num(bv ** int(ev))
            return mk("pow", b, e)
        p = to_poly(b)
        if len(p) == 1:
            (m, c), = p.items()
            if ev.denominator == 1:
                return from_poly({tuple((bb, ee * ev) for bb, ee in m): c ** int(ev)})
            if c == 1:
                return from_poly({tuple((bb, ee * ev) for bb, ee in m): Fraction(1)})
        elif len(p) > 1 and ev.denominator == 1:
            if 0 < ev <= 3:
                return mk_mul([b] * int(ev))
            # pull out the leading coefficient so that 1/(2a+2b) == 0.5/(a+b)
            lead = p[min(p, key=_mono_key)]
            base = from_poly({m: c / lead for m, c in p.items()})
            return from_poly({((base, ev),): lead ** int(ev)})
        return from_poly({((b, ev),): Fraction(1)})
    return mk("pow", b, e)


_constructors["pow"] = mk_pow


def mk_div(a, b) -> T:
    if b is ZERO:
        return mk("divzero", a)
    return mk_mul([a, mk_pow(b, num(-1))])


# ---------------------------------------------------------------- decision diagrams
# ('ite', atom, hi, lo); atoms are boolean-valued terms of the ops below
ATOM_OPS = {"pos", "zero", "eq", "isnone", "isinstance", "truthy", "any", "in", "atom", "exc", "isnan", "hasattr"}


def _implied(a: T, val: bool, b: T):
    """Truth of atom b given atom a == val (None if undetermined)."""
    if a is b:
        return val
    ao, bo = a.op, b.op
    if ao in ("pos", "zero") and bo in ("pos", "zero"):
        da, db = a.args[0], b.args[0]
        if bo == "pos":
            k = mk_sub(db, da)
            if k.op == "num":
                kv = k.args[0]
                if ao == "pos":
                    if val and kv >= 0:
                        return True
                    if not val and kv <= 0:
                        return False
                elif val:
                    return kv > 0
            k = mk_add([db, da])
            if k.op == "num":
                kv = k.args[0]
                if ao == "pos":
                    if val and kv <= 0:
                        return False
                    if not val and kv > 0:
                        return True
                elif val:
                    return kv > 0
        else:  # b zero
            if ao == "pos" and val:
                for k, s in ((mk_sub(db, da), 1), (mk_add([db, da]), -1)):
                    if k.op == "num":
                        kv = k.args[0]
                        # s=+1: db = da + kv with da>0 ; s=-1: db = kv - da
                        if s == 1 and kv >= 0:
                            return False
                        if s == -1 and kv <= 0:
                            return False
            if ao == "zero" and val:
                for k in (mk_sub(db, da), mk_add([db, da])):
                    if k.op == "num":
                        return k.args[0] == 0
        return None
    if not val:
        if ao == "isinstance" and bo == "isinstance" and a.args[0] is b.args[0]:
            if _subclass(b.args[1], a.args[1]):
                return False
        return None
    # a is true from here
    if ao == "eq" and bo == "eq":
        sa, sb = set(a.args), set(b.args)
        common = sa & sb
        for c in common:
            ra = next(iter(sa - {c}), c)
            rb = next(iter(sb - {c}), c)
            if is_const(ra) and is_const(rb) and ra is not rb:
                return False
    if ao == "isnone":
        x = a.args[0]
        if bo in ("truthy", "isinstance") and b.args[0] is x:
            return False
        if bo == "eq" and x in b.args:
            o = b.args[0] if b.args[1] is x else b.args[1]
            if is_const(o) and o is not NONE:
                return False
    if bo == "isnone":
        y = b.args[0]
        if ao in ("truthy", "isinstance") and a.args[0] is y:
            return False
        if ao == "eq" and y in a.args:
            o = a.args[0] if a.args[1] is y else a.args[1]
            if is_const(o) and o is not NONE:
                return False
    if ao == "isinstance" and bo == "isinstance" and a.args[0] is b.args[0]:
        if _subclass(a.args[1], b.args[1]):
            return True
        if not _subclass(b.args[1], a.args[1]) and _disjoint(a.args[1], b.args[1]):
            return False
    return None


_subclass_fn = None


def set_class_oracle(sub, disjoint):
    global _subclass_fn, _disjoint_fn
    _subclass_fn, _disjoint_fn = sub, disjoint


_disjoint_fn = None


def _subclass(a, b):
    return a == b or (_subclass_fn is not None and _subclass_fn(a, b))


def _disjoint(a, b):
    return _disjoint_fn is not None and _disjoint_fn(a, b)


_assume_memo: dict = {}


def assume(t: T, atom: T, val: bool) -> T:
    if t.op != "ite":
        return t
    key = (t, atom, val)
    r = _assume_memo.get(key)
    if r is not None:
        return r
    a, hi, lo = t.args
    imp = _implied(atom, val, a)
    if imp is True:
        r = assume(hi, atom, val)
    elif imp is False:
        r = assume(lo, atom, val)
    else:
        h2, l2 = assume(hi, atom, val), assume(lo, atom, val)
        r = t if (h2 is hi and l2 is lo) else mk_ite(_atom_cond(a), h2, l2)
    _assume_memo[key] = r
    return r


def _atom_cond(a: T) -> T:
    return mk("ite", a, TRUE, FALSE)


def _node(atom: T, hi: T, lo: T) -> T:
    hi = assume(hi, atom, True)
    lo = assume(lo, atom, False)
    if hi is lo:
        return hi
    # atoms are not independent: a test whose outcome the other branch already reproduces is redundant
    if lo.op == "ite" and assume(lo, atom, True) is hi:
        return lo
    if hi.op == "ite" and assume(hi, atom, False) is lo:
        return hi
    if atom.op == "pos":
        # ite(d > 0, hi, lo) with hi - lo == +-d  ->  max / min
        if hi.op not in _NONNUM and lo.op not in _NONNUM:
            d = atom.args[0]
            diff = mk_sub(hi, lo)
            if diff is d:
                return mk_max([hi, lo])
            if diff is mk_neg(d):
                return mk_min([hi, lo])
    if atom.op == "zero" and lo.op not in _NONNUM and hi.op == "num" and lo.op != "num":
        # x == k ? k : x   ->  x
        d = atom.args[0]
        if mk_sub(lo, hi) is d or mk_sub(hi, lo) is d:
            return lo
    if atom.op == "eq" and hi in atom.args and lo in atom.args:
        return lo
    return mk("ite", atom, hi, lo)


_NONNUM = {"str", "bool", "none", "enum", "undef", "ite", "raise", "seq", "new", "dict", "map", "const"}

_ite_memo: dict = {}


def _top(t: T):
    return t.args[0] if t.op == "ite" else None


def _cof(t: T, atom: T, val: bool) -> T:
    if t.op == "ite" and t.args[0] is atom:
        return t.args[1] if val else t.args[2]
    return t


def mk_ite(c: T, a: T, b: T) -> T:
    """c is a condition (decision diagram with TRUE/FALSE leaves)."""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if c.op == "raise":
        return c
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    key = (c, a, b)
    r = _ite_memo.get(key)
    if r is not None:
        return r
    if c.op != "ite":
        c2 = as_cond(c)
        r = mk_ite(c2, a, b)
        _ite_memo[key] = r
        return r
    tops = [x for x in (_top(c), _top(a), _top(b)) if x is not None]
    atom = min(tops, key=lambda x: x.d)
    hi = mk_ite(_cof(c, atom, True), _cof(a, atom, True), _cof(b, atom, True))
    lo = mk_ite(_cof(c, atom, False), _cof(a, atom, False), _cof(b, atom, False))
    r = _node(atom, hi, lo)
    _ite_memo[key] = r
    return r


def within(t: T, c: T, memo=None) -> T:
    """t simplified for the cases in which condition c holds (elsewhere its value does not matter)."""
    if c is TRUE or c is FALSE or t.op != "ite" or c.op != "ite":
        return t
    if t is c:
        return TRUE
    memo = {} if memo is None else memo
    key = (t, c)
    r = memo.get(key)
    if r is not None:
        return r
    at, ac = t.args[0], c.args[0]
    if ac is at or ac.d < at.d:
        hi, lo = c.args[1], c.args[2]
        if lo is FALSE:
            r = within(assume(t, ac, True), hi, memo)
        elif hi is FALSE:
            r = within(assume(t, ac, False), lo, memo)
        elif ac is at:
            r = mk_ite(_atom_cond(at), within(t.args[1], hi, memo), within(t.args[2], lo, memo))
        else:
            r = within(t, mk_or(hi, lo), memo)
    else:
        ch, cl = assume(c, at, True), assume(c, at, False)
        if ch is FALSE:
            r = within(t.args[2], cl, memo)
        elif cl is FALSE:
            r = within(t.args[1], ch, memo)
        else:
            r = mk_ite(_atom_cond(at), within(t.args[1], ch, memo), within(t.args[2], cl, memo))
    memo[key] = r
    return r


@constructor("ite")
def _c_ite(atom, hi, lo):
    return mk_ite(as_cond(atom), hi, lo)


def is_cond(t: T) -> bool:
    if t is TRUE or t is FALSE:
        return True
    if t.op == "ite":
        return is_cond(t.args[1]) and is_cond(t.args[2])
    return False


def as_cond(t: T) -> T:
    if t is TRUE or t is FALSE:
        return t
    if t is NONE or t is UNDEF:
        return FALSE
    if t.op == "num":
        return FALSE if t.args[0] == 0 else TRUE
    if t.op == "str":
        return TRUE if t.args[0] else FALSE
    if t.op in ("enum", "new", "lam", "clo"):
        return TRUE
    if t.op == "seq":
        return TRUE if t.args else FALSE
    if t.op == "dict":
        return TRUE if t.args else FALSE
    if t.op == "concat" and any(p.op == "seq" and p.args for p in t.args):
        return TRUE
    if t.op == "len":
        return as_cond(t.args[0])
    if t.op == "ite":
        a, hi, lo = t.args
        return mk_ite(_atom_cond(a), as_cond(hi), as_cond(lo))
    if t.op in ATOM_OPS:
        return _atom_cond(t)
    if t.op == "raise":
        return t
    if t.op == "map" and t.args[1] is TRUE and len(t.args[0]) == 1:
        return as_cond(t.args[0][0])  # a comprehension is empty iff its source is
    if t.op == "map" and t.args[1] is not TRUE:
        iters, cond, body = t.args
        bv = fresh_bv()
        top = mk("bv", "L", _level_of(cond, body))
        return mk_any_over(iters, bv, subst(cond, {top: bv}))  # a filtered comprehension is non-empty iff some element passes
    return _atom_cond(mk("truthy", t))


@constructor("truthy")
def _c_truthy(x):
    return as_cond(x)


def mk_not(c: T) -> T:
    c = as_cond(c)
    return mk_ite(c, FALSE, TRUE)


def mk_and(*cs) -> T:
    r = TRUE
    for c in cs:
        r = mk_ite(r, as_cond(c), FALSE)
    return r


def mk_or(*cs) -> T:
    r = FALSE
    for c in cs:
        r = mk_ite(r, TRUE, as_cond(c))
    return r


def map_leaves(t: T, f) -> T:
    if t.op == "ite":
        a, hi, lo = t.args
        return mk_ite(_atom_cond(a), map_leaves(hi, f), map_leaves(lo, f))
    return f(t)


def leaves(t: T):
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "ite":
            stack.append(x.args[1])
            stack.append(x.args[2])
        else:
            yield x


def atoms(t: T) -> set:
    out = set()
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "ite":
            out.add(x.args[0])
            stack.append(x.args[1])
            stack.append(x.args[2])
    return out


def paths_to(t: T, pred):
    """Yield (list of (atom, bool)) for each path to a leaf satisfying pred."""
    def go(x, path):
        if x.op == "ite":
            a, hi, lo = x.args
            yield from go(hi, path + [(a, True)])
            yield from go(lo, path + [(a, False)])
        elif pred(x):
            yield path
    yield from go(t, [])


# ---------------------------------------------------------------- comparisons
_NOARITH = {"str", "none", "bool", "enum", "seq", "dict", "new", "fstr", "fmtcall", "join", "lam", "tuple", "const"}


def mk_lt(a: T, b: T) -> T:
    """a < b"""
    for x in (a, b):
        if x.op == "raise":
            return x
    d = mk_sub(b, a)
    if d.op == "num":
        return TRUE if d.args[0] > 0 else FALSE
    return mk_pos(d)


@constructor("pos")
def mk_pos(d: T) -> T:
    if d.op == "num":
        return TRUE if d.args[0] > 0 else FALSE
    if d.op == "raise":
        return d
    if d.op == "ite":
        return map_leaves(d, mk_pos)
    if d.op == "len":
        return as_cond(d.args[0])
    p = to_poly(d)
    # 1 - len(x) > 0   <=> len(x) == 0 ;  len(x) - 1 ... left alone
    if len(p) == 2:
        lens = [(m, c) for m, c in p.items() if len(m) == 1 and m[0][0].op == "len" and m[0][1] == 1]
        if len(lens) == 1 and () in p:
            (m, c) = lens[0]
            k = p[()]
            if c == -1 and 0 < k <= 1:
                return mk_not(as_cond(m[0][0].args[0]))
            if c == 1 and -1 < k <= 0:
                return as_cond(m[0][0].args[0])
    # c*(max(a, b) - y) > 0 with y one of a, b: reduces to the others
    for m, c in p.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op in ("max", "min") and len(p) <= 4:
            x = m[0][0]
            y = mk_mul([num(-1 / c if c else 0), mk_sub(d, mk_mul([num(c), x]))])
            if y in x.args:
                if (x.op == "max") != (c > 0):
                    return FALSE
                return mk_or(*[mk_pos(mk_sub(z, y) if c > 0 else mk_sub(y, z)) for z in x.args if z is not y])
    # scale: divide by |leading coefficient|
    lead = p[min(p, key=_mono_key)] if () not in p or len(p) == 1 else p[min((m for m in p if m != ()), key=_mono_key)]
    if abs(lead) != 1:
        d = from_poly({m: c / abs(lead) for m, c in p.items()})
    return _atom_cond(mk("pos", d))


@constructor("zero")
def mk_zero(d: T) -> T:
    if d.op == "num":
        return TRUE if d.args[0] == 0 else FALSE
    if d.op == "raise":
        return d
    if d.op == "ite":
        return map_leaves(d, mk_zero)
    if d.op == "len":
        return mk_not(as_cond(d.args[0]))
    p = to_poly(d)
    ms = [m for m in p if m != ()]
    lead = p[min(ms, key=_mono_key)]
    if lead != 1:
        d = from_poly({m: c / lead for m, c in p.items()})
        if d.op == "len":
            return mk_not(as_cond(d.args[0]))
    return _atom_cond(mk("zero", d))


def _arith(t: T) -> bool:
    return t.op not in _NOARITH


@constructor("eq")
def mk_eq(a: T, b: T) -> T:
    for x in (a, b):
        if x.op == "raise":
            return x
    if a is b:
        return TRUE
    if is_const(a) and is_const(b):
        if a.op == "enum" or b.op == "enum":
            return FALSE if a.op == b.op else _atom_cond(mk("eq", *sorted((a, b), key=lambda x: x.d)))
        return FALSE
    if a is NONE:
        return mk_isnone(b)
    if b is NONE:
        return mk_isnone(a)
    if a.op == "ite":
        return map_leaves(a, lambda x: mk_eq(x, b))
    if b.op == "ite":
        return map_leaves(b, lambda x: mk_eq(a, x))
    if a is TRUE or b is TRUE:
        return as_cond(b if a is TRUE else a)
    if a is FALSE or b is FALSE:
        return mk_not(as_cond(b if a is FALSE else a))
    for x, y in ((a, b), (b, a)):
        if x.op == "seq" and not x.args:
            return mk_not(as_cond(y))
    if (a.op in ("num", "poly") or b.op in ("num", "poly", "len") or a.op == "len") and _arith(a) and _arith(b):
        return mk_zero(mk_sub(a, b))
    x, y = sorted((a, b), key=lambda x: x.d)
    return _atom_cond(mk("eq", x, y))


@constructor("isnone")
def mk_isnone(a: T) -> T:
    if a is NONE:
        return TRUE
    if a.op in ("num", "str", "bool", "enum", "new", "seq", "dict", "poly", "map", "concat", "dmap", "lam", "clo", "partial", "replace", "fstr", "fmtcall", "join", "len", "sum"):
        return FALSE
    if a.op == "raise":
        return a
    if a.op == "ite":
        return map_leaves(a, mk_isnone)
    return _atom_cond(mk("isnone", a))


@constructor("isinstance")
def mk_isinstance(x: T, cls: str) -> T:
    if x.op == "ite":
        return map_leaves(x, lambda y: mk_isinstance(y, cls))
    if x is NONE:
        return FALSE
    if x.op == "raise":
        return x
    if x.op == "new":
        q = x.args[0]
        if _subclass(q, cls):
            return TRUE
        if _disjoint(q, cls):
            return FALSE
    return _atom_cond(mk("isinstance", x, cls))


@constructor("in")
def mk_in(x: T, s: T) -> T:
    if x.op == "ite":
        return map_leaves(x, lambda y: mk_in(y, s))
    if s.op == "ite":
        return map_leaves(s, lambda y: mk_in(x, y))
    if s.op in ("seq", "dict") and len(s.args) > 16:
        ks = s.args if s.op == "seq" else tuple(k for k, _ in s.args)
        if all(is_const(k) for k in ks):
            if is_const(x):
                return mk_or(*[mk_eq(x, y) for y in ks])
            if x.op != "raise":
                return _atom_cond(mk("in", x, mk("set", *sorted(set(ks), key=lambda k: k.d))))
    if s.op == "seq":
        return mk_or(*[mk_eq(x, y) for y in s.args]) if s.args else FALSE
    if s.op == "dict":
        return mk_or(*[mk_eq(x, k) for k, _ in s.args]) if s.args else FALSE
    if s.op == "keys":
        return mk_in(x, s.args[0])
    for y in (x, s):
        if y.op == "raise":
            return y
    return _atom_cond(mk("in", x, s))


# ---------------------------------------------------------------- max / min
def _extremum(op, ts):
    flat = []
    for t in ts:
        if t.op == op and len(t.args) > 1:
            flat.extend(t.args)
        else:
            flat.append(t)
    for t in flat:
        if t.op == "raise":
            return t
    nums = [t for t in flat if t.op == "num"]
    rest = [t for t in flat if t.op != "num"]
    if nums:
        v = (max if op == "max" else min)(t.args[0] for t in nums)
        rest.append(num(v))
    rest = sorted(set(rest), key=lambda x: x.d)
    if len(rest) == 1:
        return rest[0]
    return mk(op, *rest)


def mk_max(ts):
    return _extremum("max", ts)


def mk_min(ts):
    return _extremum("min", ts)


_constructors["max"] = lambda *a: mk_max(a)
_constructors["min"] = lambda *a: mk_min(a)


# ---------------------------------------------------------------- sequences
def mk_seq(items) -> T:
    items = tuple(items)
    return mk("seq", *items)


def mk_concat(parts) -> T:
    out = []
    for p in parts:
        if p.op == "raise":
            return p
        ps = p.args if p.op == "concat" else (p,)
        for q in ps:
            if q.op == "seq" and not q.args:
                continue
            if q.op == "seq" and out and out[-1].op == "seq":
                out[-1] = mk_seq(out[-1].args + q.args)
            else:
                out.append(q)
    if not out:
        return mk_seq(())
    if len(out) == 1:
        return out[0]
    return mk("concat", *out)


_constructors["concat"] = lambda *a: mk_concat(a)


_bv_counter = [0]


def fresh_bv() -> T:
    _bv_counter[0] += 1
    return mk("bv", "u", _bv_counter[0])


def _level_of(*ts) -> int:
    lvl = 0
    for b in bvs(tuple(ts)):
        if b.args[0] == "L":
            lvl = max(lvl, b.args[1])
    return lvl


def elem(seq: T, bv: T) -> T:
    if seq.op == "ite":
        return map_leaves(seq, lambda s: elem(s, bv))
    if seq.op == "map" and seq.args[1] is TRUE and len(seq.args[0]) >= 1:
        # element of a comprehension = its body at that element
        iters, cond, body = seq.args
        inner = [b for b in bvs(body) if b.args[0] == "L"]
        if inner:
            top = max(inner, key=lambda b: b.args[1])
            return subst(body, {top: bv})
    if seq.op == "slice" and seq.args[1] is NONE and seq.args[3] is NONE:
        return elem(seq.args[0], bv)  # i-th element of a prefix
    if seq.op == "poly" or seq.op in ("max", "min"):
        # element of an elementwise expression: keep array form
        return mk("elem", seq, bv)
    return mk("elem", seq, bv)


_constructors["elem"] = elem


def elem_bases(t: T, bv: T) -> set:
    return {s.args[0] for s in subterms(t) if s.op == "elem" and s.args[1] is bv and bv not in bvs(s.args[0])}


def close(bv: T, *ts):
    """Rename bv to its canonical level in the given terms. Returns (levelbv, terms)."""
    lvl = _level_of(*ts) + 1
    L = mk("bv", "L", lvl)
    return L, tuple(subst(t, {bv: L}) for t in ts)


LIFTABLE = {"poly", "max", "min", "ite", "pos", "zero", "num", "pow", "bool", "isnan", "efun", "eq"}


def liftable(t: T, bv: T, memo=None) -> bool:
    if memo is None:
        memo = {}
    if t in memo:
        return memo[t]
    if bv not in bvs(t):
        r = True
    elif t.op == "elem":
        r = t.args[1] is bv and bv not in bvs(t.args[0])
    elif t.op in LIFTABLE:
        def ch(x):
            if isinstance(x, T):
                return liftable(x, bv, memo)
            if isinstance(x, tuple):
                return all(ch(y) for y in x)
            return True
        r = all(ch(a) for a in t.args)
    else:
        r = False
    memo[t] = r
    return r


def lift_elem(t: T, bv: T) -> T:
    m = {}
    for s in subterms(t):
        if s.op == "elem" and s.args[1] is bv:
            m[s] = s.args[0]
    return subst(t, m)


def norm_iters(iters, bv, *ts) -> tuple:
    s = set(iters)
    for t in ts:
        s |= elem_bases(t, bv)
    # a source that is only there for its length is implied by a shorter slice of itself
    for x in list(s):
        if x.op == "slice" and x.args[2] is NONE and x.args[3] is NONE and x.args[1].op == "num" and x.args[1].args[0] > 0:
            base, k = x.args[0], x.args[1].args[0]
            s.discard(base)
            for y in list(s):
                if y.op == "slice" and y.args[0] is base and y.args[1] is NONE and y.args[3] is NONE and y.args[2].op == "num" and -k <= y.args[2].args[0] < 0:
                    s.discard(y)
    return tuple(sorted(s, key=lambda x: x.d))


def mk_map(iters, bv: T, cond: T, body: T) -> T:
    """Sequence of body over the iteration bv where cond."""
    if cond is FALSE:
        return mk_seq(())
    if body.op == "raise":
        return body
    if cond is TRUE and body.op == "elem" and body.args[1] is bv and bv not in bvs(body.args[0]):
        return body.args[0]
    if cond is TRUE and elem_bases(body, bv) and liftable(body, bv):
        return lift_elem(body, bv)
    # conditions that do not depend on the iteration are lifted out
    its = norm_iters(iters, bv, cond, body)
    L, (cond, body) = close(bv, cond, body)
    return mk("map", its, cond, within(body, cond))


@constructor("map")
def _c_map(iters, cond, body):
    if cond is FALSE:
        return mk_seq(())
    if body.op == "raise":
        return body
    return mk("map", tuple(sorted(iters, key=lambda x: x.d)), cond, body)


def _resort(op):
    def c(iters, *rest):
        return mk(op, tuple(sorted(iters, key=lambda x: x.d)), *rest)
    _constructors[op] = c


for _o in ("flatmap", "dmap", "first", "foreach", "lastof"):
    _resort(_o)


def mk_flatmap(iters, bv, cond, body) -> T:
    if cond is FALSE:
        return mk_seq(())
    if body.op == "seq" and len(body.args) == 1:
        return mk_map(iters, bv, cond, body.args[0])
    if body.op == "ite" and bv in bvs(body):
        # [x] if c else []  -> filtered map
        ls = list(leaves(body))
        empties = [l for l in ls if l.op == "seq" and not l.args]
        others = [l for l in ls if not (l.op == "seq" and not l.args)]
        if empties and len(others) == 1 and others[0].op == "seq" and len(others[0].args) == 1:
            c = map_leaves(body, lambda l: FALSE if (l.op == "seq" and not l.args) else TRUE)
            return mk_map(iters, bv, mk_and(cond, c), others[0].args[0])
        if not empties and all(l.op == "seq" and len(l.args) == 1 for l in others):
            return mk_map(iters, bv, cond, map_leaves(body, lambda l: l.args[0]))
    its = norm_iters(iters, bv, cond, body)
    L, (cond, body) = close(bv, cond, body)
    return mk("flatmap", its, cond, body)


def mk_dmap(iters, bv, cond, k, v) -> T:
    its = norm_iters(iters, bv, cond, k, v)
    L, (cond, k, v) = close(bv, cond, k, v)
    k, v = within(k, cond), within(v, cond)
    # identity: {k: v for k, v in d.items()}
    if cond is TRUE and k.op == "elem" and v.op == "elem" and k.args[0].op == "keys" and v.args[0].op == "values" \
            and k.args[0].args[0] is v.args[0].args[0]:
        return k.args[0].args[0]
    return mk("dmap", its, cond, k, v)


def mk_sum_over(iters, bv, cond, body) -> T:
    """Sum of body over the iteration, invariant factors pulled out."""
    if body.op == "raise":
        return body
    if cond is not TRUE:
        body = mk_ite(cond, body, ZERO)
    if body is ZERO:
        return ZERO
    if body.op == "ite" or body.op not in ("poly",):
        return _sum_atom(iters, bv, body)
    out = []
    for m, c in to_poly(body).items():
        inv = [num(c)]
        dep = []
        for b, e in m:
            (dep if bv in bvs(b) else inv).append(from_poly({((b, e),): Fraction(1)}))
        if dep:
            out.append(mk_mul(inv + [_sum_atom(iters, bv, mk_mul(dep))]))
        else:
            out.append(mk_mul(inv + [mk("count", norm_iters(iters, bv))]))
    return mk_add(out)


def _sum_atom(iters, bv, body):
    if body.op == "elem" and body.args[1] is bv and bv not in bvs(body.args[0]):
        return mk_sum(body.args[0])
    if elem_bases(body, bv) and liftable(body, bv):
        return mk_sum(lift_elem(body, bv))
    its = norm_iters(iters, bv, body)
    L, (body,) = close(bv, body)
    return mk("sum", mk("map", its, TRUE, body))


def mk_sum(t: T) -> T:
    """Sum of the elements of a sequence term."""
    if t.op == "seq":
        return mk_add(t.args)
    if t.op == "concat":
        return mk_add([mk_sum(p) for p in t.args])
    if t.op == "raise":
        return t
    if t.op == "ite":
        # a conditional sequence; conditions on whole sequences move out of the sum
        pass
    if t.op == "poly":
        out = []
        for m, c in t.args:
            if m == ():
                out.append(mk("sum", num(c)))
            else:
                out.append(mk_mul([num(c), mk("sum", from_poly({m: Fraction(1)}))]))
        return mk_add(out)
    if t.op in ("map", "flatmap"):
        iters, cond, body = t.args
        top = mk("bv", "L", _level_of(cond, body))
        bv = fresh_bv()
        if top in bvs((cond, body)):
            cond, body = subst(cond, {top: bv}), subst(body, {top: bv})
        iters2 = iters
        if t.op == "flatmap":
            body = mk_sum(body)
        return mk_sum_over(iters2, bv, cond, body)
    return mk("sum", t)


@constructor("sum")
def _c_sum(t):
    if t.op in ("seq", "concat", "poly", "raise"):
        return mk_sum(t)
    return mk("sum", t)


def mk_any_over(iters, bv, cond) -> T:
    cond = as_cond(cond)
    if cond is FALSE:
        return FALSE
    if bv not in bvs(cond):
        # invariant condition: true iff the iteration is non-empty
        return mk_and(cond, *[as_cond(i) for i in iters[:1]])
    if liftable(cond, bv):
        return mk_any(lift_elem(cond, bv))
    its = norm_iters(iters, bv, cond)
    L, (cond,) = close(bv, cond)
    return mk_any_node(its, cond)


def mk_any_node(its, cond):
    # any(a or b) = any(a) or any(b): split the diagram's disjunction only when it is a plain
    # disjunction of dependent literals; otherwise keep whole
    return _atom_cond(mk("any", its, cond))


@constructor("any")
def _c_any(*args):
    if len(args) == 1:
        return mk_any(args[0])
    its, cond = args
    if cond is FALSE:
        return FALSE
    return mk_any_node(tuple(sorted(its, key=lambda x: x.d)), cond)


def mk_any(t: T) -> T:
    """any() of a sequence / boolean array term (array-lifted)."""
    if t.op == "seq":
        return mk_or(*t.args) if t.args else FALSE
    if t.op == "map":
        iters, cond, body = t.args
        top = mk("bv", "L", _level_of(cond, body))
        bv = fresh_bv()
        c2, b2 = subst(cond, {top: bv}), subst(body, {top: bv})
        return mk_any_over(iters, bv, mk_and(c2, b2))
    if t is FALSE:
        return FALSE
    if t.op == "ite" and is_cond(t):
        return _atom_cond(mk("any", t))
    return _atom_cond(mk("any", as_cond_array(t)))


def as_cond_array(t):
    return t if is_cond(t) else as_cond(t)


def mk_all(t: T) -> T:
    if t.op == "seq":
        return mk_and(*t.args) if t.args else TRUE
    if t.op == "map":
        iters, cond, body = t.args
        top = mk("bv", "L", _level_of(cond, body))
        bv = fresh_bv()
        c2, b2 = subst(cond, {top: bv}), subst(body, {top: bv})
        return mk_not(mk_any_over(iters, bv, mk_and(c2, mk_not(b2))))
    return mk_not(mk_any(mk_not(as_cond_array(t))))


# ---------------------------------------------------------------- attributes, indexing
def mk_index(o: T, k: T) -> T:
    if o.op == "raise":
        return o
    if o.op == "seq" and k.op == "num" and k.args[0].denominator == 1:
        i = int(k.args[0])
        if -len(o.args) <= i < len(o.args) and not any(a.op == "star" for a in o.args):
            return o.args[i]
    if o.op == "dict":
        for kk, v in o.args:
            if kk is k:
                return v
        if is_const(k) and all(is_const(kk) for kk, _ in o.args):
            return mk("raise", "KeyError")
        if o.args and all(is_const(kk) for kk, _ in o.args) and len(o.args) <= 64:
            # table lookup -> decision diagram on the key
            r = mk("raise", "KeyError")
            for kk, v in reversed(o.args):
                r = mk_ite(mk_eq(k, kk), v, r)
            return r
    if o.op == "dset":
        d, kk, v = o.args
        if kk is k:
            return v
        if is_const(k) and is_const(kk):
            return mk_index(d, k)
    if o.op == "defaultdict" and isinstance(o.args[0], T) and o.args[0].op == "glob":
        f = o.args[0].args[0].rsplit(".", 1)[-1]
        if f in ("dict", "list", "int", "float"):
            return mk("dict") if f == "dict" else mk_seq(()) if f == "list" else num(0)
    if k.op == "idx":
        return elem(o, k.args[0])
    if k.op == "elem" and k.args[0].op == "keys" and k.args[0].args[0] is o:
        return elem(mk("values", o), k.args[1])
    if o.op == "ite":
        return map_leaves(o, lambda x: mk_index(x, k))
    if o.op == "map" and o.args[1] is not TRUE and k.op == "num" and k.args[0] in (0, -1):
        return mk("first" if k.args[0] == 0 else "last", *o.args)
    return mk("index", o, k)


_constructors["index"] = mk_index


def mk_keys(d: T) -> T:
    if d.op == "dict":
        return mk_seq(k for k, _ in d.args)
    return mk("keys", d)


def mk_values(d: T) -> T:
    if d.op == "dict":
        return mk_seq(v for _, v in d.args)
    if d.op == "dmap":
        its, cond, k, v = d.args
        return mk("map", its, cond, v) if True else None
    return mk("values", d)


def mk_len(t: T) -> T:
    if t.op == "seq" and not any(a.op == "star" for a in t.args):
        return num(len(t.args))
    if t.op == "dict":
        return num(len(t.args))
    if t.op in ("keys", "values"):
        return mk("len", t.args[0])
    if t.op == "map" and t.args[1] is TRUE and len(t.args[0]) == 1:
        return mk_len(t.args[0][0])
    if t.op == "ite":
        return map_leaves(t, mk_len)
    return mk("len", t)


_constructors["len"] = mk_len
_constructors["keys"] = mk_keys
_constructors["values"] = mk_values


@constructor("exc")
def _c_exc(names, calls):
    return _atom_cond(mk("exc", names, tuple(sorted(set(calls)))))


# ---------------------------------------------------------------- lifting conditionals
_BINDERS = {"map", "flatmap", "dmap", "sum", "any", "loop", "lam", "first", "foreach", "while"}

_lift_memo: dict = {}


class LiftOverflow(Exception):
    pass


def lift(t: T, budget=None) -> T:
    """Pull conditionals that sit inside strict operators to the top: f(c?a:b) = c?f(a):f(b)."""
    r = _lift_memo.get(t)
    if r is not None:
        return r
    if budget is None:
        budget = [40000]
    budget[0] -= 1
    if budget[0] < 0:
        raise LiftOverflow()
    if not t.args:
        return t
    if t.op == "ite":
        a, hi, lo = t.args
        c = rebuild(a, lambda x: lift(x, budget)) if a.args else a
        if c.op in ATOM_OPS:
            c = _pull(c, budget)
        if c is a:
            c = _atom_cond(a)
        r = mk_ite(as_cond(c), lift(hi, budget), lift(lo, budget))
    else:
        t2 = rebuild(t, lambda x: lift(x, budget))
        r = t2
        if t2.op not in ("ite",):
            r = _pull(t2, budget)
    _lift_memo[t] = r
    return r


def _pull(t: T, budget) -> T:
    # first conditional among the direct children whose atom is free of this term's binder
    bound = set()
    if t.op in _BINDERS:
        lv = _level_of(t.args)
        if lv:
            bound = {mk("bv", "L", lv)}

    def find(x):
        if isinstance(x, tuple):
            for y in x:
                r = find(y)
                if r is not None:
                    return r
            return None
        if isinstance(x, T) and x.op == "ite":
            if t.op in ("any",) or (t.op in _BINDERS and is_cond(x)):
                pass
            for a in sorted(atoms(x), key=lambda z: z.d):
                if not (bvs(a) & bound):
                    return a
        return None

    if t.op in ATOM_OPS and t.op not in ("pos", "zero", "eq", "isnone", "isinstance", "truthy", "in"):
        return t
    if t.op in ("try", "raise"):
        return t
    a = find(t.args)
    if a is None:
        return t
    budget[0] -= 1
    if budget[0] < 0:
        raise LiftOverflow()

    def restrict(x, val):
        if isinstance(x, tuple):
            return tuple(restrict(y, val) for y in x)
        if isinstance(x, T) and x.op == "ite":
            return assume(x, a, val)
        return x

    hi = construct(t.op, restrict(t.args, True))
    lo = construct(t.op, restrict(t.args, False))
    hi = _pull(hi, budget) if hi.op != "ite" else hi
    lo = _pull(lo, budget) if lo.op != "ite" else lo
    return mk_ite(_atom_cond(a), hi, lo)


# ---------------------------------------------------------------- printing
def short(t, limit=1200) -> str:
    for d in (14, 9, 6, 4, 3):
        s = show(t, d)
        if len(s) <= limit:
            return s
    return s[:limit] + "…"


def show(t, depth=14) -> str:
    if isinstance(t, tuple):
        return "(" + ", ".join(show(x, depth) for x in t) + ")"
    if not isinstance(t, T):
        return str(t)
    if depth <= 0:
        return "…"
    s = lambda x: show(x, depth - 1)
    op, a = t.op, t.args
    if op == "num":
        v = a[0]
        return str(v) if v.denominator == 1 else (repr(float(v)) if len(str(v)) > 12 else str(v))
    if op == "str":
        return repr(a[0])
    if op == "bool":
        return str(a[0])
    if op == "none":
        return "None"
    if op == "sym":
        return a[0]
    if op == "glob":
        return a[0].rsplit(".", 1)[-1]
    if op == "enum":
        return a[0].rsplit(".", 2)[-2] + "." + a[0].rsplit(".", 1)[-1]
    if op == "attr":
        return f"{s(a[0])}.{a[1]}"
    if op == "index":
        return f"{s(a[0])}[{s(a[1])}]"
    if op == "poly":
        parts = []
        for m, c in a:
            fs = [("" if e == 1 else "") + (f"({s(b)})" if b.op in ("poly", "ite") else s(b)) + ("" if e == 1 else f"^{e}") for b, e in m]
            if c != 1 or not fs:
                fs = [show(num(c))] + fs
            parts.append("*".join(fs))
        return "(" + " + ".join(parts) + ")"
    if op == "ite":
        if is_cond(t):
            return showcond(t, depth)
        return f"({s(a[0])} ? {s(a[1])} : {s(a[2])})"
    if op == "pos":
        return f"[{s(a[0])} > 0]"
    if op == "zero":
        return f"[{s(a[0])} == 0]"
    if op == "eq":
        return f"[{s(a[0])} == {s(a[1])}]"
    if op == "isnone":
        return f"[{s(a[0])} is None]"
    if op == "isinstance":
        return f"isinstance({s(a[0])}, {a[1].rsplit('.', 1)[-1]})"
    if op == "truthy":
        return f"bool({s(a[0])})"
    if op == "in":
        return f"[{s(a[0])} in {s(a[1])}]"
    if op in ("call",):
        fn, pos, kw = a
        args = [s(x) for x in pos] + [f"{k}={s(v)}" for k, v in kw]
        return f"{s(fn)}({', '.join(args)})"
    if op == "mcall":
        o, name, pos, kw = a
        args = [s(x) for x in pos] + [f"{k}={s(v)}" for k, v in kw]
        return f"{s(o)}.{name}({', '.join(args)})"
    if op == "new":
        q, kw = a
        return f"{q.rsplit('.', 1)[-1]}({', '.join(f'{k}={s(v)}' for k, v in kw)})"
    if op == "seq":
        return "[" + ", ".join(s(x) for x in a) + "]"
    if op == "dict":
        return "{" + ", ".join(f"{s(k)}: {s(v)}" for k, v in a) + "}"
    if op == "map":
        c = "" if a[1] is TRUE else f" if {s(a[1])}"
        return f"[{s(a[2])} for {','.join(s(x) for x in a[0])}{c}]"
    if op == "flatmap":
        c = "" if a[1] is TRUE else f" if {s(a[1])}"
        return f"[*{s(a[2])} for {','.join(s(x) for x in a[0])}{c}]"
    if op == "dmap":
        c = "" if a[1] is TRUE else f" if {s(a[1])}"
        return "{" + f"{s(a[2])}: {s(a[3])} for {','.join(s(x) for x in a[0])}{c}" + "}"
    if op == "elem":
        return f"{s(a[0])}@{s(a[1])}"
    if op == "bv":
        return f"i{a[1]}"
    if op == "raise":
        return f"RAISE {a[0].rsplit('.', 1)[-1]}"
    if op == "fstr":
        return "f'…'"
    return f"{op}({', '.join(s(x) for x in a)})"


def showcond(t, depth=14) -> str:
    if t is TRUE:
        return "True"
    if t is FALSE:
        return "False"
    ps = list(paths_to(t, lambda l: l is TRUE))
    if len(ps) > 12:
        return "cond{" + ", ".join(sorted(show(a, depth - 1) for a in atoms(t))) + "}"
    return "(" + " or ".join(" and ".join(("" if v else "not ") + show(a, depth - 1) for a, v in p) for p in ps) + ")"


# ---------------------------------------------------------------- equivalence under case distinction
class Undecided(Exception):
    pass


_NUMERIC = {"poly", "max", "min"}
_UNORDERED = {"poly", "max", "min", "sum", "set", "exc"}


def equivalent(a: T, b: T, budget=None) -> bool:
    """Case-split on the atoms of both terms, with the outcome of every test assumed in both; leaves agree structurally."""
    if budget is None:
        budget = [6000]
    memo: dict = {}

    def go(a, b, path=()):
        if a is b:
            return True
        k = (a, b)
        if k in memo and (memo[k] or not path):
            return memo[k]
        budget[0] -= 1
        if budget[0] < 0:
            raise Undecided()
        memo[k] = False
        r = False
        if a.op == "ite" or b.op == "ite":
            at = min([x.args[0] for x in (a, b) if x.op == "ite"], key=lambda x: x.d)
            r = True
            for v in (True, False):
                if any(_implied(x, y, at) is (not v) for x, y in path):
                    continue        # this case cannot arise here
                if not go(assume(a, at, v), assume(b, at, v), path + ((at, v),)):
                    r = False
                    break
        elif a.op == b.op and a.op in ("map", "flatmap", "dmap", "foreach", "first") and len(a.args) == len(b.args):
            # the body counts only where the filter holds
            ca, cb = a.args[1], b.args[1]
            r = eqv(a.args[0], b.args[0], path) and eqv(ca, cb, path) and all(
                eqv(mk_ite(ca, x, UNDEF) if isinstance(x, T) else x, mk_ite(cb, y, UNDEF) if isinstance(y, T) else y, path)
                for x, y in zip(a.args[2:], b.args[2:]))
        elif a.op == b.op and len(a.args) == len(b.args) and a.op not in _UNORDERED:
            r = all(eqv(x, y, path) for x, y in zip(a.args, b.args))
        if not r and a.op != "ite" and b.op != "ite" and (a.op in _NUMERIC or b.op in _NUMERIC):
            x = next((s for t in (a, b) for s in _extrema(t)), None)
            if x is not None:
                p, q = x.args[0], x.args[1]
                for p, q in ((p, q), (q, p)):
                    c = mk_pos(mk_sub(p, q))
                    if c.op == "ite" and any(_implied(y, z, c.args[0]) is not None for y, z in path):
                        break
                rest = tuple(z for z in x.args if z is not q), tuple(z for z in x.args if z is not p)
                build = mk_max if x.op == "max" else mk_min
                hi, lo = (build(list(rest[0])), build(list(rest[1]))) if x.op == "max" else (build(list(rest[1])), build(list(rest[0])))
                if c.op == "ite" and c.args[1] in (TRUE, FALSE) and c.args[2] in (TRUE, FALSE):
                    at = c.args[0]
                    r = True
                    for v in (True, False):
                        w = hi if (v == (c.args[1] is TRUE)) else lo
                        if any(_implied(y, z, at) is (not v) for y, z in path):
                            continue
                        known = _given(path, {x: w})
                        if known is None:
                            continue
                        if not go(_under(lift(subst(a, {x: w})), known), _under(lift(subst(b, {x: w})), known), known + ((at, v),)):
                            r = False
                            break
        if r or not path:
            memo[k] = r
        else:
            memo.pop(k, None)
        return r

    def eqv(x, y, path):
        if x is y:
            return True
        if isinstance(x, T) and isinstance(y, T):
            return go(x, named(x, y), path)
        if isinstance(x, tuple) and isinstance(y, tuple):
            return len(x) == len(y) and all(eqv(p, q, path) for p, q in zip(x, y))
        return x == y

    def named(x, y):
        """y, with tests that are equivalent to tests made by x replaced by these."""
        if x.op != "ite" and y.op != "ite":
            return y
        ax, ay = atoms(x), atoms(y)
        only_x = sorted(ax - ay, key=lambda t: t.d)
        only_y = sorted(ay - ax, key=lambda t: t.d)
        if not only_x or not only_y or len(only_x) * len(only_y) > 100:
            return y
        same = {}
        for q in only_y:
            for p in only_x:
                if p.op == q.op and any(z.op in ("ite", "poly") for z in subterms(p)) and go(p, q):
                    same[q] = p
                    break
        return lift(subst(y, same)) if same else y

    return go(a, named(a, b))


def _given(path, mapping):
    """The assumed outcomes after a substitution; None when they have become contradictory."""
    out = []
    for a, v in path:
        if not any(x in mapping for x in subterms(a)):
            out.append((a, v))
            continue
        c = as_cond(lift(subst(_atom_cond(a), mapping)))
        if c is TRUE or c is FALSE:
            if (c is TRUE) != v:
                return None
        elif c.op == "ite" and c.args[1] in (TRUE, FALSE) and c.args[2] in (TRUE, FALSE):
            out.append((c.args[0], v == (c.args[1] is TRUE)))
    for a, v in out:
        if any(_implied(x, y, a) is (not v) for x, y in out if x is not a):
            return None
    return tuple(out)


def _under(t, known):
    for a, v in known:
        t = assume(t, a, v)
    return t


def _extrema(t):
    """Maxima and minima that a number depends on directly (not below a quantifier)."""
    if t.op in ("max", "min"):
        return [t] if len(t.args) > 1 else []
    if t.op == "poly":
        return [x for m, _ in t.args for b, _ in m for x in _extrema(b)]
    return []
