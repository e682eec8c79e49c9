"""Writes props/meta.json from the property classes."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sim import boot  # noqa
import importlib  # noqa
from props import common  # noqa
for f in sorted(os.listdir(os.path.join(HERE, 'props'))):
  if f.startswith('p_') and f.endswith('.py'):
    importlib.import_module('props.' + f[:-3])
NOTES = json.load(open(os.path.join(HERE, 'tools', 'notes.json')))
for k, p in common.PROPS.items():
  if k in NOTES:
    p.method, p.note = NOTES[k]
meta = {k: dict(quick=p.quick, thorough=p.thorough, rule=p.rule, real=p.real,
                stubs=p.stubs, method=p.method, note=p.note, assumptions=p.assumptions)
        for k, p in sorted(common.PROPS.items())}
json.dump(meta, open(os.path.join(HERE, 'props', 'meta.json'), 'w'), indent=1)
print(len(meta), 'properties')
