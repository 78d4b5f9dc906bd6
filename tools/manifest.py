#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the tables below."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "G": "reference-model monitor over what the grammar interface reports, on exhaustive small and random hostile descriptions",
 "A": "reference-model monitor (independent fixed points and bounded derivation) over analysis results",
 "X": "reference-model monitor over the transformed grammar",
 "P": "reference-model monitor over grammars made by the library, cross-checked with the original's derivations",
 "E": "independent recogniser, derivation counter and forest reader watching the parser",
 "T": "sequential-model monitor over store operations",
 "S": "reference-model monitor over positions and sets",
 "K": "reference-model monitor over reads from saved positions",
 "B": "reference-model monitor over reads and positions",
 "U": "reference-model monitor over operation histories",
}
SPECIAL = {
 "A05": "trace monitor over request histories of instrumented analyses, against a memo-table model",
 "T02": "linearizability and exactly-once checkers over concurrent histories; native stress with injected delays, and Miri schedules with race and deadlock detection",
 "T03": "graph comparison (colour refinement) of parsed dot text with the store",
 "I01": "non-interference monitor: cases of all other monitors judged by their oracles alone, then on several threads with injected delays, nested in each other's comparisons, and first in new processes",
 "M01": "Miri (Tree Borrows, leak check), AddressSanitizer with LeakSanitizer, and an allocation balance monitor over the workloads of all monitors",
}
NOTE = ("Held on the executions counted in the evidence file, judged by an oracle that shares no code with the library; "
        "says nothing about inputs that were not run. Trusts the oracle, the compiler and the standard library.")
NOTES = {
 "T02": "Held on the histories counted in the evidence: native threads with random delays, and Miri's random schedules, whose race and deadlock detection does not depend on timing. Not an enumeration of all schedules.",
 "M01": "No report on the counted workloads. Miri runs with Tree Borrows, because a dependency (sized-chunks) breaks the older Stacked Borrows rules; address errors and leaks are looked for on cases of all monitors.",
 "A04": "Held on the executions counted in the evidence file, read through the hook Follows::verif_get and judged by an independent sentential-form model.",
 "B02": "Held on the executions counted in the evidence file, read through the hook TextPos::verif_parts; grapheme clusters are those of the unicode-segmentation crate.",
}
checks = []
for l in open(os.path.join(ROOT, "properties.jsonl")):
    i = json.loads(l)["id"]
    checks.append({
        "property": i,
        "quick_cmd": "python3 checks/run.py " + i,
        "thorough_cmd": "VERIF_TIER=thorough python3 checks/run.py " + i,
        "technique": SPECIAL.get(i) or TECH[i[0]],
        "level": "exploration",
        "level_note": NOTES.get(i, NOTE),
    })
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^hooks:"],
                       capture_output=True, text=True).stdout.split()
m = {
 "version": 1,
 "setup_cmd": "python3 checks/setup.py",
 "hooks": {"guard": "cfg(bongo_verif)", "enable": "RUSTFLAGS=\"--cfg bongo_verif\" (checks/run.py builds the harness, and /repo as its dependency, with it)", "source_commits": hooks},
 "checks": checks,
 "not_applicable": [],
 "notes": "Every check builds harness/ against /repo's working tree into target/ and rewrites evidence/<id>.json. Genuine defects found and repaired are listed in known-findings.txt.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
