#!/usr/bin/env python3
"""writes MANIFEST.json from the property list and the contract modules present"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "C29": "the register and stack switch is assembly plus setjmp/longjmp; a contract over C functions cannot state it and no installed deductive verifier handles it",
    "C30": "a liveness property of the whole task system under arbitrary task bodies: contracts give partial correctness only (its safety half, never skipping or losing a runnable task, is C01/C02/C03)",
}
BOUNDED = {}
try:
    BOUNDED = json.load(open(os.path.join(ROOT, "tools", "levels.json")))
except OSError:
    pass
checks, na = [], []
for ln in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(ln)
    pid = p["id"]
    if pid in NA:
        na.append(dict(property=pid, reason=NA[pid]))
    elif os.path.exists(os.path.join(ROOT, "props", pid + ".py")):
        b = BOUNDED.get(pid, {})
        checks.append(dict(property=pid, quick_cmd=f"python3-vt dv/run.py {pid}", thorough_cmd=f"python3-vt dv/run.py {pid}",
                           evidence_file=f"evidence/{pid}.json",
                           technique="contract-based deductive verification: obligations generated from the LLVM IR of the real functions, discharged by Z3",
                           level=b.get("level", "proof"),
                           level_note=b.get("note", "contracts of the real functions proved for all inputs and loop iterations (no bound); trusted contracts listed in the evidence")))
    else:
        na.append(dict(property=pid, reason="no contracts written yet"))
m = dict(version=1, setup_cmd="python3-vt -c 'import z3' && /usr/bin/clang-18 --version >/dev/null && mkdir -p evidence/replay",
         hooks=dict(guard="none", enable="no hooks: the checks compile /repo's sources as they are", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="Each check recompiles /repo/src to LLVM IR, generates the proof obligations of the contracts in props/<id>.py and discharges them with Z3. known-findings.txt lists findings on the real code.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
