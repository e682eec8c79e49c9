"""Writes MANIFEST.json from properties.jsonl and props/meta.json."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
meta = json.load(open(os.path.join(HERE, 'props', 'meta.json')))
NA = {
    'P90': 'Losses are pure functions of one call: no history, clock, '
           'randomness, concurrency or fault can change a result, so a '
           'simulated schedule has nothing to decide.',
    'P91': 'The second-order helpers are pure functions of one call without '
           'state; the statement quantifies over functions and points, not '
           'over schedules or faults.',
}
TECH = 'deterministic simulation with fault injection: '
doc = dict(version=1, setup_cmd='./setup.sh', hooks=dict(
    guard='none', enable='not needed: the checks use sys.monitoring line '
    'events, injected state, parameters, gradients and checkpoints as seams; '
    '/repo carries no hooks', source_commits=[]), checks=[], not_applicable=[])
for p in props:
  i = p['id']
  if i in NA:
    doc['not_applicable'].append(dict(property=i, reason=NA[i]))
  elif i in meta:
    doc['checks'].append(dict(
        property=i, quick_cmd=f'./check {i} --tier quick',
        thorough_cmd=f'./check {i} --tier thorough',
        evidence_file=f'evidence/{i}.json',
        technique=TECH + meta[i]['method'], level='exploration',
        level_note=meta[i]['note']))
  else:
    doc['not_applicable'].append(dict(property=i, reason='check not built yet'))
json.dump(doc, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(doc['checks']), 'checks')
