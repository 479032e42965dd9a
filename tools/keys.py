"""keys.py CHECK [BUDGET [SEED]]: violation keys of one check, compactly"""
import importlib, sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from arv import harness
name = sys.argv[1]
ctx = harness.Context(name.upper(), int(sys.argv[3]) if len(sys.argv) > 3 else 1, "quick",
                      float(sys.argv[2]) if len(sys.argv) > 2 else 5)
importlib.import_module("checks." + name).run(ctx)
for key, lst in sorted(ctx.violations.items()):
    print(key, "|", "; ".join(str(v["what"])[:110] for v in lst[:3]))
print(len(ctx.violations), "keys;", ctx.evaluations, "evaluations;", len(ctx.nontrivial), "distinct")
