#!/usr/bin/env python3
"""DESIGN.md = design/*.md in order + the fixes of KNOWN_FINDINGS.txt + the planted bugs of seeded/."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda f: open(os.path.join(root, f)).read().rstrip() + "\n"
out = [rd("design/" + f) for f in sorted(os.listdir(os.path.join(root, "design"))) if f.endswith(".md")]
fx = ["## Genuine defects found and repaired", "", "Each was shown by a check on the unchanged tree (a replayed path or a recorded history of the real code) and repaired with a", "`fix:` commit; the check fails again when the commit is reverted. No finding is open.", ""]
for l in rd("KNOWN_FINDINGS.txt").splitlines():
    if l.startswith("fixed: "):
        prop, commit, text = l[len("fixed: property="):].split(" ", 2)
        fx.append(f"- **{prop}** `{commit}` {text}")
    elif l.startswith("finding: "):
        fx.append(f"- open: {l[9:]}")
sd = ["## Planted bugs", "", "In `seeded/`; each confirmed with `tools/try_seed.sh` (builds, stable tests pass, demonstration fails with it only).", "", "| id | property | needs | breaks | caught by |", "|---|---|---|---|---|"]
by = json.load(open(os.path.join(root, "design/caught.json")))
for d in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.loads(rd(f"seeded/{d}/meta.json"))
    c = lambda s: s.replace("|", "/").replace("\n", " ")
    sd.append(f"| {d} | {m['property']} | {c(m['needs'])} | {c(m['what_it_breaks'])} | {by.get(d, 'not run')} |")
open(os.path.join(root, "DESIGN.md"), "w").write("\n".join(out) + "\n" + "\n".join(fx) + "\n\n" + "\n".join(sd) + "\n")
