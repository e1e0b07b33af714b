#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has a harness in harness/checks."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
  "Q01": "TLC enumerates Primitives.tla (lock, queue, loop) exhaustively for a few tasks; every transition is replayed on the real Mutex, Queue and AbortableLoop under virtual time.",
  "K01": "TLC enumerates OrderedKV over five key families; every transition is replayed on memory, local/session storage, Deno KV and IndexedDB (stand-in engine); random histories of all of them are validated by TLC.",
}
try:
    NOTES.update(json.load(open(os.path.join(root, "tools", "notes.json"))))
except FileNotFoundError:
    pass
props = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(root, "harness", "checks", p + ".ts")):
        checks.append({
            "property": p, "quick_cmd": f"bin/check {p} quick", "thorough_cmd": f"bin/check {p} thorough",
            "technique": "TLA+ specification model-checked with TLC, bound to the code by replaying its transitions and validating recorded traces",
            "level": "model_checking", "level_note": NOTES.get(p, "TLC explores the specification exhaustively within small constants; its behaviours are replayed on the real code and recorded behaviours are validated against it."),
        })
    else:
        na.append({"property": p, "reason": "The specification and harness for this property are not built yet."})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the harness drives the public and module-level interfaces of the code with injected transports, storages, clocks and servers. bin/deno runs the code from /repo's working tree."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not built")
