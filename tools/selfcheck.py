"""Determinism: the same seed is the same execution, in every detail.

Runs checks repeatedly with other numbers of workers, other hash seeds and
without cached state, and compares the event-log hash of every run.
Usage: python3 tools/selfcheck.py [--runs N] [P01 ...]
"""
import argparse
import json
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def hashes(pid, runs, workers, hashseed, tmp):
  path = os.path.join(tmp, f'{pid}-{workers}-{hashseed}.json')
  e = dict(os.environ, PYTHONHASHSEED=hashseed)
  r = subprocess.run(
      [os.path.join(HERE, 'check'), pid, '--runs', str(runs), '--workers',
       str(workers), '--soft', '600', '--no-evidence', '--hashes', path],
      env=e, capture_output=True, text=True, check=False)
  if r.returncode != 0:
    sys.exit(f'{pid}: exit {r.returncode}\n{r.stdout[-500:]}{r.stderr[-500:]}')
  return json.load(open(path))


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('props', nargs='*')
  ap.add_argument('--runs', type=int, default=48)
  a = ap.parse_args()
  props = a.props or sorted(json.load(open(os.path.join(
      HERE, 'props', 'meta.json'))))
  bad = 0
  with tempfile.TemporaryDirectory() as tmp:
    for pid in props:
      first = hashes(pid, a.runs, 8, '0', tmp)
      for workers, seed in ((8, '0'), (3, '0'), (8, '77')):
        other = hashes(pid, a.runs, workers, seed, tmp)
        diff = [k for k in first if other.get(k) != first[k]]
        if diff or len(other) != len(first):
          bad += 1
          print(f'{pid}: {len(diff)} of {len(first)} runs differ with '
                f'{workers} workers, PYTHONHASHSEED={seed}: {diff[:5]}')
      print(f'{pid}: {len(first)} runs compared', flush=True)
  return 1 if bad else 0


if __name__ == '__main__':
  sys.exit(main())
