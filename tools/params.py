"""Writes specs/params.json: the parameter names the rules use, by position (a renamed parameter keeps its meaning)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from sa.project import Project
p = Project()
out = {}
for f in p.all_functions():
    a = f.node.args
    out[f.module.name.replace("diffpy.srmise", "") + ":" + f.short] = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + (["*" + a.vararg.arg] if a.vararg else []) + (["**" + a.kwarg.arg] if a.kwarg else [])
json.dump(out, open(os.path.join(ROOT, "specs", "params.json"), "w"), indent=0, sort_keys=True)
print(len(out))
