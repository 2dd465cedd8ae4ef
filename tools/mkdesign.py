"""Writes /verif/DESIGN.md: the fixed text below, with the table of properties taken from properties.jsonl, the checks and seeded/."""
import ast, glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
man = json.load(open(here + "/MANIFEST.json"))
claimed = {c["property"] for c in man["checks"]}
na = {x["property"]: x["reason"] for x in man["not_applicable"]}
seeds = {}
for d in sorted(glob.glob(here + "/seeded/*/meta.json")):
    m = json.load(open(d)); seeds.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(d)), m))
BOUNDS = {
 "C01": "notation changes of length 1 and chains of length 2; number of terms bounded, values free", "C02": "all single assignments and chains from every state of definition",
 "C15": "up to three magnetic atoms; bonds of every class", "C16": "up to three atoms; antiferro on cells with exactly known products (unit, sheared, stretched)",
 "C18": "one and two spins", "C20": "2 and 5 spins, up to three iterations, every pattern of met and missed tolerances",
 "C39": "matrices of up to three modes (thorough: more), coinciding, diagonal and badly scaled ones included", "C42": "memories 1 to 3 (thorough: 4) and changes of it, up to twelve iterations", "C43": "up to three (thorough: four) free points of the search, every outcome of every comparison",
 "C24": "Hamiltonians of up to 12 atoms and 12 bonds; formats of numbers checked, not their sufficiency (C40)", "C23": "Hamiltonians of up to 12 atoms",
 "C31": "up to three atoms, symbolic wave vector", "C32": "all 2^n combinations of failing decompositions", "C25": "one file of every section type with every combination of malformed lines; all defects of a line form a list in c25.py",
}
out = [open(here + "/tools/design_head.md").read().rstrip(), ""]
out += ["## 4. Property by property", "", "*method* is the docstring of the check; *seeded* are the planted changes of /verif/seeded that break the property (all caught by the check of that property).", ""]
for p in props:
    i = p["id"]
    out.append(f"### {i} {p['title']}")
    if i in na:
        out += ["", "**Not applicable.** " + na[i], ""]; continue
    doc = ast.get_docstring(ast.parse(open(f"{here}/sa/checks/{i.lower()}.py").read())) or ""
    out += ["", "*Method.* " + " ".join(doc.split())]
    if i in BOUNDS: out.append("*Bounds.* " + BOUNDS[i] + ".")
    out.append("*Why the tests cannot.* " + p["why_tests_cant"])
    if i in seeds: out.append("*Seeded.* " + "; ".join(f"`{n}` ({m['needs']})" for n, m in seeds[i]) + ".")
    out.append("")
out.append(open(here + "/tools/design_tail.md").read().rstrip())
open(here + "/DESIGN.md", "w").write("\n".join(out) + "\n")
