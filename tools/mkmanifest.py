#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N = {
 "C17": "every enumerated execution runs the real interpreter under AddressSanitizer with an arena that never reuses memory, twice with different contents of fresh memory; outcomes must agree",
 "C19": "pairs of spelling variants executed on the real interpreter must do the same; one of each pair is also compared with the reference model",
 "C20": "runs with and without options executed on the real interpreter and compared; traces compared with the model's",
 "C23": "scripted results of the generator and the clock, exhaustively combined; relations between runs of the real interpreter",
 "C24": "an interrupt is delivered after every basic block of each run of the real interpreter, with the continuation compared with the uninterrupted run",
 "C12": "a failure is injected at every open, every byte read or written, and every close; compared with the model",
}
checks = []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l); i = p["id"]
    checks.append(dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough", evidence_file=f"evidence/{i}.json",
        technique="explicit-state bounded model checking: exhaustive enumeration of executions of the real interpreter in a controlled environment" + (", compared with a reference model" if i not in ("C17", "C23") else ""),
        level="model_checking",
        level_note=("Exhaustive within the bounds given in DESIGN.md: " + N.get(i, "every enumerated program, history and input is run on the real interpreter (built from /repo with AddressSanitizer) and on an independent reference model, which must agree on output, errors, exit status and files") + ". Trusts the reference model as the reading of the documentation, the substituted C library environment, and that the bounds are representative.")))
m = dict(version=1, setup_cmd="make -s -C harness -j8", checks=checks, not_applicable=[],
    notes="No hooks in /repo: the interpreter is built unmodified and driven through main(), its streams, files and signals. All properties are decided by exhaustive enumeration; see DESIGN.md. known-findings.txt lists repaired defects.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
