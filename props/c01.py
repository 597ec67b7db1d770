"""C01: every Unit.to(pair) is the physical affine map or is refused; volume/rate counterparts; element-wise lists."""
import ast
from fractions import Fraction as F

from sa import terms as tm
from sa.interp import State
from sa.terms import mk, num

# unit -> (dimension, scale to the dimension's base unit, offset to base)
PHYS = {
    "KG_BOE": ("mass/volume(hc)", F(629, 100), 0), "KG_SM3": ("mass/volume(hc)", F(1), 0),
    "STANDARD_CUBIC_METER": ("volume", F(1), 0), "LITRES": ("volume", F(1, 1000), 0), "BOE": ("volume", F(100, 629), 0),
    "TONS_PER_DAY": ("mass rate", F(1000), 0), "KILO_PER_DAY": ("mass rate", F(1), 0), "KILO_PER_HOUR": ("mass rate", F(24), 0),
    "TONS": ("mass", F(1000), 0), "KILO": ("mass", F(1), 0),
    "MEGA_WATT_DAYS": ("energy", F(24), 0), "GIGA_WATT_HOURS": ("energy", F(1000), 0),
    "MEGA_WATT": ("power", F(1), 0),
    "BARA": ("pressure", F(100000), 0), "KILO_PASCAL": ("pressure", F(1000), 0), "PASCAL": ("pressure", F(1), 0),
    "CELSIUS": ("temperature", F(1), F(27315, 100)), "KELVIN": ("temperature", F(1), 0),
    "FRACTION": ("ratio", F(1), 0), "PERCENTAGE": ("ratio", F(1, 100), 0),
    "POLYTROPIC_HEAD_KILO_JOULE_PER_KG": ("head", F(1000), 0), "POLYTROPIC_HEAD_JOULE_PER_KG": ("head", F(1), 0),
    "POLYTROPIC_HEAD_METER_LIQUID_COLUMN": ("head", F(981, 100), 0),
    "LITRES_PER_DAY": ("volume rate", F(1, 1000), 0), "STANDARD_CUBIC_METER_PER_DAY": ("volume rate", F(1), 0),
}
# conversions confirmed on the reference tree; they must stay available
SUPPORTED = [
    ("TONS_PER_DAY", "KILO_PER_DAY"), ("KILO_PER_DAY", "TONS_PER_DAY"), ("KILO", "TONS"), ("TONS", "KILO"),
    ("STANDARD_CUBIC_METER", "LITRES"), ("LITRES", "STANDARD_CUBIC_METER"), ("CELSIUS", "KELVIN"), ("KELVIN", "CELSIUS"),
    ("BARA", "KILO_PASCAL"), ("KILO_PASCAL", "BARA"), ("BARA", "PASCAL"), ("PASCAL", "BARA"), ("PERCENTAGE", "FRACTION"),
    ("FRACTION", "PERCENTAGE"), ("POLYTROPIC_HEAD_JOULE_PER_KG", "POLYTROPIC_HEAD_KILO_JOULE_PER_KG"),
    ("POLYTROPIC_HEAD_KILO_JOULE_PER_KG", "POLYTROPIC_HEAD_JOULE_PER_KG"),
    ("POLYTROPIC_HEAD_METER_LIQUID_COLUMN", "POLYTROPIC_HEAD_JOULE_PER_KG"),
    ("POLYTROPIC_HEAD_METER_LIQUID_COLUMN", "POLYTROPIC_HEAD_KILO_JOULE_PER_KG"),
    ("POLYTROPIC_HEAD_JOULE_PER_KG", "POLYTROPIC_HEAD_METER_LIQUID_COLUMN"),
    ("POLYTROPIC_HEAD_KILO_JOULE_PER_KG", "POLYTROPIC_HEAD_METER_LIQUID_COLUMN"), ("KG_BOE", "KG_SM3"), ("KG_SM3", "KG_BOE"),
    ("STANDARD_CUBIC_METER", "BOE"), ("BOE", "STANDARD_CUBIC_METER"), ("MEGA_WATT_DAYS", "GIGA_WATT_HOURS"),
]
VOLUME_OF_RATE = {"STANDARD_CUBIC_METER_PER_DAY": "STANDARD_CUBIC_METER", "MEGA_WATT": "MEGA_WATT_DAYS", "TONS_PER_DAY": "TONS",
                  "KILO_PER_DAY": "KILO", "LITRES_PER_DAY": "LITRES"}
CONSTANTS = {"TO_KILO": F(1, 1000), "STANDARD_PRESSURE_BARA": F("1.01325"), "STANDARD_TEMPERATURE_KELVIN": F("288.15"),
             "STANDARD_TEMPERATURE_CELSIUS": F(15), "CELSIUS_TO_KELVIN": F("273.15"), "HOURS_PER_DAY": F(24), "EARTH_GRAVITY": F("9.81"),
             "GAS_CONSTANT": F("8.314472"), "WATT_TO_MEGAWATT": F(1, 10**6), "SECONDS_PER_HOUR": F(3600), "SECONDS_IN_A_DAY": F(86400),
             "WATT_PER_MEGAWATT": F(10**6)}


def _elementwise(node):
    """The list is turned into an array, or walked, before it is converted."""
    return any(isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.For)) or
               isinstance(n, ast.Call) and ast.unparse(n.func).split(".")[-1] in ("asarray", "array", "map", "vectorize", "asanyarray")
               for n in ast.walk(node))


def _mapped(want, x):
    bv = tm.fresh_bv()
    return tm.mk_map((x,), bv, tm.TRUE, tm.subst(want, {x: tm.elem(x, bv)})) if hasattr(tm, "mk_map") else None


def check(ctx):
    f = ctx.func("libecalc.common.units.Unit.to")
    U = f.cls
    it = ctx.interp({f.module.name})
    members = [n for n in U.attrs if not n.startswith("_")]
    e = {n: mk("enum", f"{U.qual}.{n}") for n in members}
    names = f.params()[0]
    n = 0
    for a in members:
        for b in members:
            s = it.run(f, args={names[0]: e[a], names[1]: e[b]})
            n += 1
            construct = f"Unit.to {a} -> {b}"
            x, y = tm.sym("x"), tm.sym("y")
            refused = any(g is tm.TRUE and ex.args[0].endswith("NotImplementedError") for g, ex, _ in s.raises)
            if refused:
                if (a, b) in SUPPORTED or a == b:
                    ctx.bad("conversion-available", construct, "a supported conversion is refused")
                else:
                    ctx.ok("unsupported-refused", construct)
                continue
            st = State(f.module, U)
            got = it.call_value(s.ret, [x], {}, st)
            if a == b:
                want = x
            elif a in PHYS and b in PHYS and PHYS[a][0] == PHYS[b][0]:
                _, sa_, oa = PHYS[a]
                _, sb, ob = PHYS[b]
                want = tm.mk_mul([num(sa_ / sb), tm.mk_add([x, num((F(oa) * 1 - F(ob)) / 1)])]) if oa or ob else tm.mk_mul([num(sa_ / sb), x])
            else:
                ctx.bad("unsupported-refused", construct, f"no physical conversion exists but {tm.short(got, 200)} is returned")
                continue
            if not ctx.require(got is want, "physical-factor", construct, f"converts x to {tm.short(got, 200)}, physics requires {tm.short(want, 200)}"):
                continue
            # lists: an overload registered for list maps every element like a scalar
            if a == b:
                continue
            fn = None
            for g, ef in s.effects:
                if ef.op == "register" and ef.args[0] is s.ret and ef.args[1].op == "glob" and ef.args[1].args[0] == "builtins.list":
                    fn = ef.args[2]
            if fn is None:
                # the converter itself has to distinguish lists
                src = it.closures[s.ret.args[0]][0] if s.ret.op == "clo" else None
                if src is None or not _elementwise(src):
                    ctx.bad("elementwise-list", construct, "no conversion of a list element by element")
                    continue
                fn = s.ret
            node = it.closures[fn.args[0]][0]
            lst = it.call_value(fn, [x], {}, State(f.module, U))
            ctx.require(_elementwise(node) and lst in (want, _mapped(want, x)), "elementwise-list", construct,
                        f"a list x becomes {tm.short(lst, 200)}, required {tm.short(want, 200)} for every element")
    ctx.count("unit pairs", n, 900)
    for meth, table in (("rate_to_volume", VOLUME_OF_RATE), ("volume_to_rate", {v: k for k, v in VOLUME_OF_RATE.items()})):
        g = ctx.func(f"libecalc.common.units.Unit.{meth}")
        for a in members:
            s = it.run(g, args={g.params()[0][0]: e[a]})
            got = s.outcome()
            if a in table:
                ctx.require(got is e[table[a]], "rate-volume-counterpart", f"{meth} {a}", f"gives {tm.short(got, 120)}, required {table[a]}")
            else:
                ctx.require(got.op == "raise", "rate-volume-refused", f"{meth} {a}", f"gives {tm.short(got, 120)} for a unit that has no counterpart")
    C = ctx.p.find_class("libecalc.common.units.UnitConstants")
    if C is not None:
        for k, v in CONSTANTS.items():
            a = C.find_attr(k)
            if a is not None:
                got = it.ev(a[1], State(C.module, C))
                ctx.require(got is num(v), "physical-constant", f"UnitConstants.{k}", f"is {tm.short(got, 60)}, required {v}")
    ctx.analysed |= it.analysed
