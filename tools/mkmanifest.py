"""Writes MANIFEST.json: every property with a proof module is claimed, the rest is listed with its reason."""
import json
import os
import importlib
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
NA = {
    "C23": "contracts are about one call at a time; threads sharing module constants and functools caches need a concurrency logic no available verifier has for Python",
    "C24": "running time is not expressible as a contract here; the cost of the backtracking regex engine is outside of every function under contract",
}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
na = []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "proofs", i + ".py")) and os.path.exists(os.path.join(HERE, "oracles", i + ".py")):
        m = importlib.import_module("proofs." + i)
        checks.append({"property": i, "quick_cmd": "python3-vt check.py " + i, "thorough_cmd": "python3-vt check.py " + i + " --tier thorough",
                       "technique": "contract-based deductive verification (verification conditions generated from the AST of the real code, z3/cvc5)",
                       "level": getattr(m, "LEVEL", "proof"), "level_note": getattr(m, "NOTE", "obligations discharged for all inputs of the contract's domain; failing inputs are searched for on the real code")})
    else:
        na.append({"property": i, "reason": NA.get(i, "no machinery yet")})
json.dump({"version": 1, "setup_cmd": "python3-vt -c 'import z3, cvc5; print(z3.get_version_string())' && mkdir -p evidence",
           "checks": checks, "not_applicable": na}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
