#!/usr/bin/env python3-vt
"""Record the names of the locals of every function under contract (baseline_names.json), so that the annotations still
find their variables when these are renamed.  Run by hand on the tree the contracts were written for."""
import importlib, json, sys
sys.dont_write_bytecode = True
from pyvc import loader
from pyvc.stmt import locals_of
out = {}
for l in sorted(open('claimed.txt')):
    ctx = importlib.import_module('props.' + l.split('|')[0].strip().lower()).build()
    for k in ctx.verify_keys:
        out[k] = locals_of(loader.resolve(k).node)
json.dump(dict(sorted(out.items())), open('baseline_names.json', 'w'), indent=0, ensure_ascii=False)
print(len(out))
