"""Append the table of planted bugs to DESIGN.md (section 7) from seeded/*/meta.json."""
import glob, json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | property that reports it | what it breaks |", "|---|---|---|"]
for m in sorted(glob.glob(f"{R}/seeded/*/meta.json")):
    d = json.load(open(m))
    rows.append(f"| {os.path.basename(os.path.dirname(m))} | {d['property']} | {d['what_it_breaks'].strip()} |")
t = open(f"{R}/DESIGN.md").read()
i = t.index("## 7. Planted bugs")
open(f"{R}/DESIGN.md", "w").write(t[:i] + "## 7. Planted bugs and the checks that report them\n\nEvery planted bug below is reported by the check of its property.\n\n" + "\n".join(rows) + "\n")
