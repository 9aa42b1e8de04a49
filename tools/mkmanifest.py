#!/usr/bin/env python3
"""Writes MANIFEST.json from the specifications present in ana/spec."""
import ast
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]

AI = "abstract interpretation: tensor-network structure types with trace partitioning"
TECH = {
    "C08": "taint and effect analysis of random streams and ambient values over the abstract interpretation",
    "C09": "effect analysis: global-generator and entropy effects of every call",
    "C10": "provenance analysis of random streams (stream disjointness)",
    "C13": "alias and mutation-effect analysis (frozen operands)",
    "C18": "interval/order abstract interpretation with trace partitioning",
    "C19": "cross-check of capability declarations, dispatch tables and methods over the class hierarchy",
    "C20": "typestate/guard analysis: must-raise on inconsistent requests, must-return on consistent ones",
    "C25": "dependence and type-width analysis of the Cython kernels",
    "C26": "bounds and integer-width analysis of the Cython kernels and the arguments callers pass",
    "C27": "interval cover analysis of worker slices plus exceptional-path analysis",
    "C31": "abstract interpretation of the experiment driver over a modelled table library with opaque values: effect order and typestate of table and file for every history up to a bound",
    "C32": "name, attribute and keyword resolution and path-sensitive definite assignment over the syntax tree; abstract interpretation of the entry points under every combination of options",
    "C33": "history-sensitivity analysis: the inferred value of every operation after other operations on the same or derived objects equals the one inferred without them",
    "C34": "symbolic shape inference: the number of entries of every array created by an operation is a polynomial in the mode sizes and ranks, which must not contain a product of the sizes of two modes",
}
NA = {
    "C40": "A statement about the expectation over random maps of a numerical error; no property of the source's structure decides it.",
    "C41": "A statement about the probability distribution of hash outputs; statistical, not decidable from program structure (purity, dependence and collision-freedom of the hash are C25).",
    "C42": "Floating-point error growth depends on the conditioning of run-time data; no sound static bound is in reach for LAPACK based code.",
    "C43": "Convergence depends on the spectrum of run-time operators; only the recurrence and stopping rule are visible in the code (C23).",
    "C44": "Asymptotic run time is not observable behaviour of results and depends on library internals (einsum paths); a syntactic proxy would alarm on harmless refactorings.",
}
PENDING = "Not claimed yet: the analysis for it is being built."

checks, na = [], []
for p in props:
    i = p["id"]
    spec = os.path.join(ROOT, "ana", "spec", i.lower() + ".py")
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
        continue
    doc = ast.get_docstring(ast.parse(open(spec).read())) if os.path.exists(spec) else None
    if not doc:
        na.append({"property": i, "reason": PENDING})
        continue
    rule = doc.split("Rule:", 1)[-1].strip().replace("\n", " ")
    checks.append({
        "property": i,
        "quick_cmd": f"python3-vt run.py {i} --tier quick",
        "thorough_cmd": f"python3-vt run.py {i} --tier thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": TECH.get(i, AI),
        "level": "other",
        "level_note": ("Static analysis of /repo's current source; nothing is imported or run. " + rule +
                       " Sizes, ranks, seeds and array contents are symbolic; tensor orders are those enumerated. "
                       "Trusted: the models of numpy/scipy and of Python semantics in ana/, exact arithmetic."),
    })
json.dump({"version": 1,
           "setup_cmd": "python3-vt -c \"import sys; sys.path.insert(0,'ana'); import harness\"",
           "checks": checks, "not_applicable": na},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na], "not claimed")
