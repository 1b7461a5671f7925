import json
from pathlib import Path
V = Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines()]
NA = {
 "C17": "Send and Sync are auto traits decided by the compiler's trait solver from type declarations; there is no function body, state or call for a contract to talk about, and the verifier models neither Send nor Sync bounds of unsafe impls. (The declarations are in fact too permissive: see DESIGN.md.)",
 "C18": "Unwinding is outside the semantics of contract verification: Verus (like the other installed deductive verifiers) gives partial correctness for calls that return, and has no state after a panic to state a postcondition about.",
}
notes = json.loads((V / "tools/levels.json").read_text())
checks = []
for p in props:
    i = p["id"]
    if i in NA:
        continue
    n = notes[i]
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s" % i,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": n["technique"], "level": n["level"], "level_note": n["note"],
        **({"theorems": n["theorems"]} if "theorems" in n else {}),
    })
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "No hooks: the machinery reads /repo/src as it is and links the public API. See DESIGN.md."}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
