"""Writes MANIFEST.json from properties.jsonl and mc/properties.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "mc"))
from properties import PROPS  # noqa: E402
T = "explicit-state model checking of the implementation: bounded exhaustive enumeration of "
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p in PROPS:
        q = PROPS[p]
        checks.append({"property": p, "quick_cmd": "python3 mc/run.py %s --tier quick" % p, "thorough_cmd": "python3 mc/run.py %s --tier thorough" % p,
                       "evidence_file": "evidence/%s.json" % p, "technique": T + q.get("technique", "forcing histories with state save/restore, invariant monitored after every transition"),
                       "level": "model_checking",
                       "level_note": q.get("note", "Holds on every history within the stated bounds (evidence: coverage.bounds); executions are those of the code compiled from /repo, no abstraction. "
                                           "Trusts the compiler, the engine's snapshots (violations are re-executed without them) and the finite alphabets.")})
    else:
        na.append({"property": p, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "python3 -c \"import sys; sys.path.insert(0,'mc'); import run\" && g++ --version && objcopy --version", "checks": checks, "not_applicable": na,
           "notes": "Fixed defects and known findings: known-findings.txt. Every check compiles /repo's working tree into a temporary directory."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
