"""Writes /verif/MANIFEST.json: a check for every property that has a pcs/cXX.py module, not_applicable for the rest."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": "whole-program abstract interpretation: alias regions and in-place effect analysis",
 "C02": "whole-program taint analysis from ambient randomness sources; generator provenance",
 "C03": "abstract interpretation with a turn-invariance domain (congruence of angles modulo one turn)",
 "C04": "interval abstract interpretation of every returned direction",
 "C05": "abstract interpretation with a sample-order domain (per-observation / symmetric / order-dependent)",
 "C06": "dataflow: unweighted reductions of weighted data reaching a result",
 "C07": "information-flow (non-interference) analysis from verbosity switches to results",
 "C08": "dataflow: dependences of cached values compared with dependences of their cache keys",
 "C09": "abstract interpretation of fit on a used object: stale-state taint; effect analysis of queries",
 "C10": "typestate: every query interpreted on an unfitted object must raise ValueError",
 "C11": "path-sensitive interpretation with an unrecognised option value: no normal return reachable",
 "C12": "typestate/dominance: parameter validation before any random draw",
 "C13": "dataflow: single-element selections of array-valued parameters without a size guard",
 "C14": "interval abstract interpretation of every p-value expression",
 "C15": "unit-of-measure analysis (user unit / radians) over calls, attributes and results",
 "C16": "typestate: every optimiser result is tested for success before its point is used",
 "C17": "typestate on angular arguments plus contract rules over every distribution class and its frozen form",
 "C18": "abstract interpretation: unbound names, missing attributes and keys, malformed internal calls",
}
NOTE = {}
NA = {
 "C30": "integration to one and non-negativity of fourteen parametric families are numerical facts about special functions and quadrature; no static argument in reach bounds them",
 "C31": "inversion accuracy of root finders, series and tables is numerical; only its structural parts (caching, parameter order, wrapping) are decided, under C08, C13 and C17",
 "C32": "a statement about the distribution of random variates; not decidable from program structure",
 "C33": "needs equational reasoning about trigonometric moments (common rotation of every term); the turn part, which is decidable, is C03",
 "C34": "monotonicity of the EM objective is an inequality between floating-point quantities of successive iterations",
 "C35": "optimality of a numerical optimiser's result depends on the data; the static part, reporting failure, is C16",
 "C36": "a probabilistic statement about null distributions; the static part, p in [0,1], is C14",
}
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(here, "pcs", i.lower() + ".py")):
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} quick", thorough_cmd=f"python3 check.py {i} thorough",
                           evidence_file=f"evidence/{i}.json", technique=TECH[i], level="other",
                           level_note=NOTE.get(i, "Static over-approximation of every public entry point and option path of the current source (no execution); "
                                              "holds relative to the library models in pcs/extmodel.py and the assumptions listed in the evidence file and DESIGN.md.")))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
         notes="Pure-Python static analyser (standard library only) that parses /repo/pycircstat2 on every run; nothing is executed. See DESIGN.md.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
