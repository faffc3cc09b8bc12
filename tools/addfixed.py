#!/usr/bin/env python3
"""addfixed.py PID COMMIT TEXT: records a repaired defect in KNOWN_FINDINGS.jsonl."""
import json, os, sys
pid, commit, what = sys.argv[1:]
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "KNOWN_FINDINGS.jsonl")
with open(p, "a") as fh:
    fh.write(json.dumps({"status": "fixed", "property": pid, "commit": commit, "key": commit, "what": what, "text": f"fixed: property={pid} {commit} {what}"}) + "\n")
