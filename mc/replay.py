"""Plain replay of one recorded counterexample: no exploration, one case."""
import json
import sys
from mc import core

r = json.load(open(sys.argv[1]))
mod = core.load_module(r["property"])
if hasattr(mod, "prepare"):
    with core.Mute():
        mod.prepare()
out = core.exec_case(mod, r["case"])
for k, m in out.violations:
    print(f"[{k}] {m}")
print("VIOLATION reproduced" if out.violations else "no violation")
sys.exit(1 if out.violations else 0)
