"""One worker process: executes its share of the runs of a check.

Talks to the runner with JSON lines on the real stdout.
"""
import argparse
import json
import os
import sys
import time
import traceback

ap = argparse.ArgumentParser()
ap.add_argument('--prop', required=True)
ap.add_argument('--tier', default='quick')
ap.add_argument('--seed', type=int, default=1)
ap.add_argument('--worker', type=int, default=0)
ap.add_argument('--workers', type=int, default=1)
ap.add_argument('--runs', type=int, default=0)
ap.add_argument('--soft', type=float, default=60.0)
ap.add_argument('--minruns', type=int, default=1)
ap.add_argument('--replay')
ap.add_argument('--minimise')
ap.add_argument('--hashes', action='store_true')
args = ap.parse_args()

out = os.fdopen(os.dup(1), 'w', buffering=1)
os.dup2(2, 1)  # anything else printed goes to stderr


def emit(**k):
  out.write(json.dumps(k) + '\n')


try:
  sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
  import jax_removed_names  # noqa: fails early if the path is not set
except ImportError:
  sys.path.insert(0, '/opt/optax-compat')

try:
  from sim import boot  # noqa
except BaseException:  # pylint: disable=broad-except
  emit(t='error', where='import', text=traceback.format_exc()[-3000:])
  sys.exit(3)

from sim.base import Violation, canon  # noqa
from props import load  # noqa
from props.common import run_once, make_program  # noqa

prop = load(args.prop)


def do_replay():
  doc = json.load(open(args.replay))
  v, ctx = run_once(prop, doc['program'], trace=True)
  emit(t='replay', violated=v is not None, kind=v.kind if v else None,
       msg=v.msg if v else None, log_hash=ctx.log_hash(),
       trace=ctx.trace[-40:])


def do_minimise():
  doc = json.load(open(args.minimise))
  prog, kind = doc['program'], doc['kind']
  t0 = time.time()
  tries = kept = 0
  best_v, ctx = run_once(prop, prog)
  if best_v is None or best_v.kind != kind:
    emit(t='minimised', program=prog, ok=False, tries=0, kept=0,
         kind=best_v.kind if best_v else None,
         msg=best_v.msg if best_v else 'did not reproduce')
    return
  progress = kind != 'unexpected-form'
  while progress and time.time() - t0 < args.soft:
    progress = False
    for cand in prop.shrink(prog):
      if time.time() - t0 > args.soft:
        break
      if canon(cand) == canon(prog):
        continue
      tries += 1
      try:
        v, _ = run_once(prop, cand)
      except Exception:  # pylint: disable=broad-except
        continue  # not a program the harness can execute
      if v is not None and v.kind == kind:
        prog, best_v = cand, v
        kept += 1
        progress = True
        break
  emit(t='minimised', program=prog, ok=True, tries=tries, kept=kept,
       kind=best_v.kind, msg=best_v.msg)


def do_runs():
  import jax
  t0 = time.time()
  done = 0
  for i in range(args.worker, args.runs, args.workers):
    if time.time() - t0 > args.soft and done >= args.minruns:
      emit(t='soft', done=done)
      break
    prog = make_program(prop, args.seed, args.tier, i)
    v, ctx = run_once(prop, prog)
    done += 1
    nt = v is None and prop.nontrivial(prog, ctx)
    emit(t='run', i=i, checks=ctx.checks, steps=ctx.steps, ms=ctx.sim_ms,
         faults=ctx.faults, probes=ctx.probes, ops=ctx.ops, known=ctx.known,
         sig=ctx.schedule_hash(), log=ctx.log_hash(), nt=nt,
         viol=None if v is None else dict(kind=v.kind, msg=v.msg),
         prog=prog if (v is not None or i < 2) else None)
    if v is not None:
      break
    if done % 150 == 0:
      jax.clear_caches()
  emit(t='done', done=done)


try:
  if args.replay:
    do_replay()
  elif args.minimise:
    do_minimise()
  else:
    do_runs()
except BaseException:  # pylint: disable=broad-except
  emit(t='error', where='run', text=traceback.format_exc()[-4000:])
  sys.exit(3)
