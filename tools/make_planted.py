"""Collects the results of the planted bugs into tools/planted.json, and
writes the tables of DESIGN.md (between the marker comments)."""
import glob
import json
import os
import re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(HERE, 'tools', 'planted.json')
res = json.load(open(path)) if os.path.exists(path) else {}
for f in glob.glob('/tmp/plant/*.json'):
  d = json.load(open(f))
  if not d.get('ok') or not os.path.isdir(
      os.path.join(HERE, 'seeded', d['id'])):
    continue
  for pid, (rc, secs, text) in d['checks'].items():
    if rc != 1 and any(c[0] == 1 for c in d['checks'].values()):
      continue
    m = re.search(r'run (\d+): ([a-z-]+)', text)
    res[d['id']] = dict(property=pid, caught=rc == 1,
                        run=int(m[1]) if m else None,
                        kind=m[2] if m else None)
res = {k: v for k, v in res.items()
       if os.path.isdir(os.path.join(HERE, 'seeded', k))}
json.dump(res, open(path, 'w'), indent=1, sort_keys=True)
rows = ['| planted bug | check | caught | first failing run | how |',
        '|---|---|---|---|---|']
for k, v in sorted(res.items()):
  rows.append(f'| {k} | {v["property"]} | {"yes" if v["caught"] else "NO"} | '
              f'{v["run"] if v["run"] is not None else ""} | '
              f'{v["kind"] or ""} |')
fd = json.load(open(os.path.join(HERE, 'known_findings.json')))['findings']
defects = ['| property | commit | what failed |', '|---|---|---|']
for f in fd:
  if f['status'] == 'fixed':
    defects.append(f'| {f["property"]} | {f["key"].replace("fixed-", "")} | '
                   f'{f["what"].split(" ", 3)[3]} |')
  else:
    defects.append(f'| {f["property"]} | open, `{f["key"]}` | {f["what"]} |')
p = os.path.join(HERE, 'DESIGN.md')
s = open(p).read()
for name, table in (('planted', rows), ('defects', defects)):
  s = re.sub(f'(<!-- {name} -->\n).*?(<!-- end {name} -->)',
             lambda m: m[1] + '\n'.join(table) + '\n' + m[2], s, flags=re.S)
open(p, 'w').write(s)
print(len(res), 'planted,', sum(v['caught'] for v in res.values()), 'caught')
