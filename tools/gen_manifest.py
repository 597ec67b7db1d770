"""Write MANIFEST.json from the properties and the specs/rules that exist."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
NA = {
    "X01": "whether a root search over real fluid properties lands within tolerance is a statement about floating-point values of a non-linear external model; no sound static argument in reach bounds it",
    "X02": "interpolation error of a measured chart is a numerical question over a continuum; the source only shows which interpolation is called",
}
NOTE = ("decides, for the functions listed in the evidence, that the value computed on every path is the required one (over the reals, library calls uninterpreted), plus the "
        "structural rules listed there; does not bound rounding or prove library behaviour")
SPECS = [open(f"{R}/spec/{f}").read() for f in sorted(os.listdir(f"{R}/spec")) if f.endswith(".py")]
ATTR = set(__import__("re").findall(r"C\d\d", open(f"{R}/spec/attribution.txt").read()))
checks, na = [], []
for p in props:
    i = p["id"]
    have = i in ATTR or any(f'"{i}"' in t for t in SPECS) or os.path.exists(f"{R}/spec/{i.lower()}.py") or os.path.exists(f"{R}/props/{i.lower()}.py")
    if have and i not in NA:
        checks.append({"property": i, "quick_cmd": f"python3 -m sa {i} quick", "thorough_cmd": f"python3 -m sa {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "level": "other", "level_note": NOTE,
                       "technique": "static analysis: gated value-flow normalisation of the current source (abstract interpretation over terms) compared with reference equations, and structural, alias/ownership, one-shot-iterator and effect rules over the resolved program"})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check has been built for it yet")})
m = {"version": 1, "setup_cmd": "python3 -c 'import sa.check'", "checks": checks, "not_applicable": na,
     "notes": "Standard library only; the analyser parses /repo/src and never imports or runs it. Run from /verif."}
json.dump(m, open(f"{R}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
