"""Runs a check: spawns the workers, reports, minimises, writes evidence.

Does not import jax. Exit 0: held on everything explored. Exit 1: violated,
with a VIOLATION line. Anything else: the check itself failed.
"""
import argparse
import hashlib
import json
import os
import queue
import signal
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = os.environ.get('VERIF_PYTHON', '/opt/venv/bin/python')


def env():
  e = dict(os.environ)
  e.update(JAX_PLATFORMS='cpu', PYTHONDONTWRITEBYTECODE='1',
           PYTHONPATH='/opt/optax-compat', PYTHONHASHSEED=e.get(
               'PYTHONHASHSEED', '0'), OMP_NUM_THREADS='1',
           XLA_FLAGS='--xla_cpu_multi_thread_eigen=false '
           'intra_op_parallelism_threads=1 --xla_backend_optimization_level=0')
  for k in ('JAX_ENABLE_X64', 'JAX_DISABLE_JIT', 'JAX_DEBUG_NANS',
            'JAX_NUMPY_RANK_PROMOTION'):
    e.pop(k, None)
  return e


def spawn(args):
  return subprocess.Popen([PY, '-W', 'ignore', os.path.join(
      HERE, 'sim', 'worker.py')] + args, cwd=HERE, env=env(),
                          stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                          text=True, start_new_session=True)


def kill(p):
  try:
    os.killpg(p.pid, signal.SIGKILL)
  except ProcessLookupError:
    pass


def one(args, timeout):
  """A single worker; returns its messages."""
  p = spawn(args)
  try:
    o, err = p.communicate(timeout=timeout)
  except subprocess.TimeoutExpired:
    kill(p)
    o, err = p.communicate()
  return [json.loads(l) for l in o.splitlines() if l.startswith('{')], err


def add(into, d):
  for k, v in d.items():
    into[k] = into.get(k, 0) + v


def load_findings(pid):
  path = os.path.join(HERE, 'known_findings.json')
  doc = json.load(open(path)) if os.path.exists(path) else {'findings': []}
  return {f['key']: f for f in doc['findings'] if f['property'] == pid}


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('prop')
  ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
  ap.add_argument('--seed', type=int,
                  default=int(os.environ.get('VERIF_SEED', '1')))
  ap.add_argument('--runs', type=int)
  ap.add_argument('--workers', type=int, default=int(
      os.environ.get('VERIF_WORKERS', '0')) or min(8, os.cpu_count() or 1))
  ap.add_argument('--soft', type=float)
  ap.add_argument('--replay')
  ap.add_argument('--hashes', help='write the hash of every run to this file')
  ap.add_argument('--no-evidence', action='store_true')
  a = ap.parse_args()
  t0 = time.time()
  pid = a.prop
  meta = json.load(open(os.path.join(HERE, 'props', 'meta.json')))[pid]

  if a.replay:
    msgs, err = one(['--prop', pid, '--replay', a.replay], 600)
    r = next((m for m in msgs if m['t'] == 'replay'), None)
    if r is None:
      print(err[-3000:], msgs, file=sys.stderr)
      return 2
    for l in r['trace']:
      print('  ', l)
    if r['violated']:
      print(f'{r["kind"]}: {r["msg"]}')
      print(f'VIOLATION property={pid} replay={a.replay}')
      return 1
    print('the replayed program does not violate the property')
    return 0

  quick = a.tier == 'quick'
  runs = a.runs or (meta['quick'] if quick else meta['thorough'])
  soft = a.soft or (42.0 if quick else 780.0)
  hard = 780.0 if quick else 3000.0
  workers = max(1, min(a.workers, runs))
  minruns = max(1, min(runs, meta['quick']) // (5 * workers))

  q = queue.Queue()
  procs = [spawn(['--prop', pid, '--tier', a.tier, '--seed', str(a.seed),
                  '--worker', str(k), '--workers', str(workers),
                  '--runs', str(runs), '--soft', str(soft),
                  '--minruns', str(minruns)]) for k in range(workers)]

  def pump(k, p):
    for line in p.stdout:
      if line.startswith('{'):
        q.put((k, json.loads(line)))
    q.put((k, None))
  errs = {}

  def pump_err(k, p):
    errs[k] = p.stderr.read()
  for k, p in enumerate(procs):
    threading.Thread(target=pump, args=(k, p), daemon=True).start()
    threading.Thread(target=pump_err, args=(k, p), daemon=True).start()

  tot = dict(checks=0, steps=0, ms=0.0)
  faults, probes, ops, known = {}, {}, {}, {}
  sigs, progs, samples, hashes = set(), 0, [], {}
  nontrivial = 0
  done, finished, errors, violations = 0, set(), [], []
  stop_at = None
  while len(finished) < workers:
    left = hard - (time.time() - t0)
    if stop_at is not None:
      left = min(left, stop_at - time.time())
    try:
      k, m = q.get(timeout=max(0.1, left))
    except queue.Empty:
      if stop_at is None:
        errors.append('hard time limit reached')
      break
    if m is None:
      finished.add(k)
      continue
    if m['t'] == 'error':
      errors.append(m['where'] + ': ' + m['text'])
      stop_at = stop_at or time.time() + 1
    if m['t'] != 'run':
      continue
    done += 1
    tot['checks'] += m['checks']
    tot['steps'] += m['steps']
    tot['ms'] += m['ms']
    add(faults, m['faults'])
    add(probes, m['probes'])
    add(ops, m['ops'])
    known.update(m['known'])
    hashes[m['i']] = m['log']
    if m['nt'] and m['sig'] not in sigs:
      nontrivial += 1
    sigs.add(m['sig'])
    if m['prog'] is not None and m['viol'] is None and len(samples) < 2:
      samples.append(m['prog'])
    if m['viol'] is not None:
      violations.append(m)
      stop_at = stop_at or time.time() + 2
  for p in procs:
    kill(p)
  for p in procs:
    p.wait()
  wall = time.time() - t0

  if a.hashes:
    json.dump({str(k): hashes[k] for k in sorted(hashes)}, open(a.hashes, 'w'))

  findings = load_findings(pid)
  unlisted = [k for k in known if k not in findings
              or findings[k]['status'] != 'open']
  code = 0
  if violations or unlisted:
    code = 1
  elif errors or done == 0 or done < minruns * workers and done < runs:
    code = 2
  for k, what in sorted(known.items()):
    if k in findings and findings[k]['status'] == 'open':
      print(f'KNOWN-FINDING: property={pid} {findings[k]["what"]}')

  replay = None
  if violations:
    m = min(violations, key=lambda m: m['i'])
    replay = report(pid, a, m)
  elif unlisted:
    k = unlisted[0]
    replay = os.path.join(HERE, 'replays', f'{pid}-{k}.json')
    os.makedirs(os.path.dirname(replay), exist_ok=True)
    json.dump({'property': pid, 'kind': k, 'message': known[k],
               'program': samples[0] if samples else {}}, open(replay, 'w'))
    print(f'a finding that known_findings.json does not list as open: '
          f'{k}: {known[k]}')

  if not a.no_evidence:
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    ev = dict(
        property=pid, tier='quick' if quick else 'thorough', seed=a.seed,
        level='exploration', wall_s=round(wall, 2),
        violations=len(violations) + len(unlisted),
        assumptions=meta.get('assumptions', []),
        coverage=dict(
            evaluations=done, distinct_nontrivial=nontrivial,
            rule=meta['rule'],
            samples=[_trim(s) for s in samples] or ['none'],
            oracle_checks=tot['checks'], simulated_runs=done,
            planned_runs=runs, training_steps=tot['steps'],
            runs_per_hour=round(done / wall * 3600),
            simulated_seconds=round(tot['ms'] / 1000, 3),
            distinct_schedules=len(sigs),
            distinct_schedules_measure='hash of the sequence of steps, crash, '
            'restart, checkpoint, mode, abort and switch events of the run',
            faults_injected=dict(sorted(faults.items())),
            operations=dict(sorted(ops.items())),
            probes=dict(sorted(probes.items())),
            known_findings=sorted(known),
            real_components=meta['real'], stub_components=meta['stubs'],
            workers=workers))
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'),
              indent=1)

  print(f'{pid} {a.tier} seed={a.seed}: {done}/{runs} runs, '
        f'{tot["checks"]} checks, {tot["steps"]} steps, '
        f'{len(sigs)} schedules, {sum(faults.values())} faults, '
        f'{wall:.1f}s')
  if code == 2:
    for e in errors[:2]:
      print('ERROR', e, file=sys.stderr)
    for k in sorted(errs)[:1]:
      print(errs[k][-1500:], file=sys.stderr)
  if code == 1:
    print(f'VIOLATION property={pid} replay={replay}')
  return code


def _trim(p):
  s = json.dumps(p)
  return p if len(s) < 6000 else s[:6000] + '...'


def report(pid, a, m):
  """Minimises the violation, confirms it in a fresh process, stores it."""
  os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
  raw = dict(property=pid, kind=m['viol']['kind'], message=m['viol']['msg'],
             program=m['prog'], run=m['i'])
  tag = hashlib.sha256(json.dumps(raw, sort_keys=True).encode()).hexdigest()[:8]
  path = os.path.join(HERE, 'replays', f'{pid}-{tag}.json')
  json.dump(raw, open(path, 'w'), indent=1)
  msgs, _ = one(['--prop', pid, '--minimise', path, '--soft',
                 os.environ.get('VERIF_MINIMISE', '25')], 200)
  r = next((x for x in msgs if x['t'] == 'minimised'), None)
  if r is not None and r['ok']:
    doc = dict(property=pid, kind=r['kind'], message=r['msg'],
               program=r['program'], run=m['i'],
               minimised=dict(tries=r['tries'], kept=r['kept'],
                              ops=[len(m['prog'].get('ops', [])),
                                   len(r['program'].get('ops', []))],
                              log=[len(m['prog'].get('log', [])),
                                   len(r['program'].get('log', []))]))
    json.dump(doc, open(path, 'w'), indent=1)
  msgs, _ = one(['--prop', pid, '--replay', path], 200)
  c = next((x for x in msgs if x['t'] == 'replay'), None)
  ok = bool(c and c['violated'])
  if not ok:
    json.dump(raw, open(path, 'w'), indent=1)
  print(f'run {m["i"]}: {m["viol"]["kind"]}: {m["viol"]["msg"]}')
  if r is not None:
    print(f'minimised ({r["tries"]} tries): {r["kind"]}: {r["msg"]}')
  print('replay in a fresh process: ' + ('reproduced' if ok else
                                         'not reproduced (unminimised kept)'))
  return path


if __name__ == '__main__':
  sys.exit(main())
