#!/usr/bin/env python3
"""Development aid: verify the named functions (all functions under contract when none is named) and print the diagnostics."""
import os, sys, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import stage
group = "compiler"
a = sys.argv[1:]
if a and a[0] in stage.SETS: group = a.pop(0)
extra = [x for x in a if x.startswith("-")]; a = [x for x in a if not x.startswith("-")]
stage.setup()
cons = stage.load_contracts()
d = stage.extract(group, "dev")
base = json.load(open(os.path.join(stage.CON, "baseline.json")))
bodies = a or [n for (g, n), c in cons.items() if g == group and c.props]
bodies = [b for b in bodies if not b.startswith("only_")]
text, ranges, info = stage.build_file("dev", group, d, cons, bodies, base)
for o in a:
    if o.startswith("only_"):
        text = text.replace("}\nfn main() {}\n", open(os.path.join(stage.CON, o + ".rs")).read() + "\n}\nfn main() {}\n")
p = os.path.join(stage.BUILD, "run", "dev.rs"); open(p, "w").write(text)
j, diags, rendered, w, raw = stage.run_verus(p, [x for x in extra if x != "-"])
print(rendered[-14000:] if rendered else raw[-3000:])
print({k: info[k] for k in info if k != "theory_lines" and info[k]})
if j: print(j["verification-results"], round(w, 1))
