"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "TLA+ specification of grammars and parsing machine, checked with TLC; its behaviours replayed into the real parsers"
NOTE = ("TLC checks the machine and the laws for every grammar of the property's family and every short input; every grammar replayed (family, boundary and random ones) is compiled from /repo's headers "
        "and its verdict, position, value, type and call log compared with the specification's. Exhaustive on the model within the family bounds, sampled beyond. Trusts: TLC, gcc 13, harness.h, and that the specification says what the documentation says.")
CHECKS = {
 "C02": ("; recorded executions validated as machine behaviours (trace checking)", ""),
 "C14": ("; recorded call traces validated as machine behaviours", ""),
 "C16": ("; the same parses evaluated as constant expressions", " Where gcc 13 cannot evaluate nested arrays of vectors (a compiler limitation reproducible without the library) clang decides."),
 "C17": ("; carriers and element types specified in Carrier.tla, replayed with every container, between guard pages", ""),
 "C18": ("; recorded executions validated; recursion through every operator with gcc -O1 and clang", ""),
 "C19": (": result objects as a state machine (ResultObj.tla), span equality (SpanEq.tla); all short histories and simulated long ones replayed with sanitizers", ""),
 "C20": (": several machines interleaved and nested (Par.tla); every schedule of small scenarios and simulated schedules of larger ones replayed with real threads, plus race detector", ""),
 "C24": (": operands and what combining them gives as a state machine (Accept.tla); all pairs of base operands and simulated compositions asked of the compilers, with inputs and functions", ""),
 "C23": (": the grammars and meaning of the examples in TLA+ (Examples.tla), checked against the parsing-expression reading; all short texts, derived, derived and mutated documents replayed into the examples", ""),
}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
import importlib.util, sys
sys.path.insert(0, os.path.join(V, "lib"))
import plans
checks, na = [], []
for i in ids:
    if i not in plans.PLANS: na.append({"property": i, "reason": "not built yet"}); continue
    t, n = CHECKS.get(i, ("", ""))
    checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i, "evidence_file": "evidence/%s.json" % i,
                   "technique": T + t, "level": "model_checking", "level_note": NOTE + n})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
           "notes": "TLA+ with TLC. No hooks in /repo: everything is observed at the public interface. fix: commits in /repo are listed in known_findings.txt."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
