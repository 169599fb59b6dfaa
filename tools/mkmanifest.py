"""writes MANIFEST.json from properties.jsonl and the check modules (run by hand)"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": "property-based testing: generated datasets/parameters, prefix invariant against the input",
 "C02": "property-based testing: generated datasets/parameters, multiset/subsequence invariant against the input",
 "C03": "property-based testing: generated datasets/proportions, count oracle computed from the input",
 "C04": "property-based testing: differential replay of generated call histories on fresh instances with perturbed global RNG",
 "C05": "property-based testing: before/after snapshots and memory-sharing oracle over generated inputs",
 "C06": "property-based fuzzing of every oversampler with degenerate datasets, well-formedness oracle",
 "C07": "property-based testing: geometric oracle (segment, convex hull by LP/NNLS, bounding box) over generated datasets",
 "C08": "metamorphic property-based testing: relabelling relation over generated datasets",
 "C09": "property-based testing: parameter round-trip with differential sampling",
 "C10": "property-based testing of simplex sampling with traceable points and an independent reference of the quotas",
 "C11": "differential property-based testing against a brute-force neighbour search",
 "C12": "property-based testing: matrix invariants and reference computations over generated datasets",
 "C13": "property-based testing: class-count and interpolation oracle over generated multiclass datasets",
 "C14": "differential property-based testing against direct implementations of the filter rules",
 "C15": "property-based testing: selection invariants and reference selection over generated datasets",
 "C16": "differential property-based testing against exact rational reference scores",
 "C17": "property-based testing: partition invariants and cached/in-memory differential",
 "C18": "property-based testing with injected oversampler failures, reference recomputation and non-interference",
 "C19": "stateful property-based testing with fault injection into the cache directory, differential against the in-memory run",
 "C20": "property-based testing of generated job schedules with injected crashes and timeouts",
 "C21": "property-based testing against an independent aggregation of generated result sets",
 "C22": "property-based testing of generated queries against predicates recomputed from the classes",
 "C23": "differential stateful property-based testing against the explicit sample-then-fit composition",
 "C24": "property-based testing: round-trip and enumeration of truncation points",
 "C25": "property-based testing: generated parameter values around the documented boundaries against an independent range table",
 "C26": "differential property-based testing against exact re-implementations of the helpers",
 "C27": "stateful property-based testing: figures and labelings compared with a model of the drawn points",
 "C28": "model-based property-based testing: regions and shares from independent models of the techniques, exact and statistical oracle",
 "C29": "differential property-based testing against independent models and compositions of the techniques",
}
LEVEL = {"C19": "fault_enumeration", "C24": "fault_enumeration"}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(ROOT, "pbt/checks/%s.py" % i.lower())):
        checks.append({"property": i, "quick_cmd": "./check " + i,
                       "thorough_cmd": "./check %s --thorough" % i,
                       "technique": TECH[i], "level": LEVEL.get(i, "exploration"),
                       "level_note": "Searches generated inputs for a counterexample; no proof of absence. "
                       "Bounds, oracles and trusted parts per property are in DESIGN.md; the evidence file counts what was generated."})
    else:
        na.append({"property": i, "reason": "check under construction"})
doc = {"version": 1,
       "setup_cmd": "/opt/venv/bin/python -c \"import sys; sys.path.insert(0, '.'); from pbt import boot; boot.ensure_deps()\"",
       "checks": checks, "not_applicable": na,
       "notes": "No hooks in /repo. All checks are property-based tests driven by Hypothesis; see DESIGN.md."}
json.dump(doc, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
