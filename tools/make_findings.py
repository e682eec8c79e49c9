"""Writes known_findings.json (the only hand-maintained list of findings)."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
 ('P19', '93202cb', 'ema(debias=False) returned the raw updates instead of their average'),
 ('P25', '681df8f', 'add_noise used the documented variance as a standard deviation'),
 ('P08', '87d5141', 'MultiSteps dropped params, so inner optimizers that need them failed'),
 ('P12', '0f74517', 'masked took the truth value of params (failed for array params)'),
 ('P11', '1b6b707', 'lookahead passed the slow/fast pair as params to its fast optimizer'),
 ('P11', 'c00f299', 'lookahead leaked non-finite values outside synchronisation steps and into the reset'),
 ('P10', '049ea89', 'apply_every emitted NaN off its period and never recovered'),
 ('P16', '59e762b', 'piecewise_interpolate_schedule was NaN with a boundary at step 0'),
 ('P21', '12df837', 'scale_by_stddev took the root of a negative variance'),
 ('P05', '7f89a53', 'scale_by_sm3 failed on scalars and widened low precision state'),
 ('P05', '0c1a6a2', 'scale_by_radam could not be jitted for bfloat16 parameters'),
 ('P27', '6a5d97d', 'moving_avg_baseline divided by the zero debiasing term repeatedly'),
 ('P17', '4170c34', 'wrapper step counters wrapped around to negative values'),
 ('P28', '8d37cbb', 'matrix_inverse_pth_root only converged for p in 1, 2, 4 and 8'),
 ('P05', '104a5ae', 'clip_by_global_norm widened low precision leaves of mixed trees'),
 ('P16', '29ffecb', 'compiled polynomial schedules with fractional power ended in NaN'),
 ('P16', '7dcb051', 'compiled staircase schedules decayed one step late'),
 ('P16', '@stopped short', 'compiled polynomial schedules with fractional power stopped short of their final value'),
 ('P24', '@differentially_private_aggregate widened', 'differentially_private_aggregate widened low precision leaves of mixed trees'),
 ('P19', '@scale_by_sm3 on parameters without', 'scale_by_sm3 raised on parameters without elements of rank two or more'),
 ('P15', '@flatten on trees without leaves', 'flatten raised on the empty tree a mask that selects nothing leaves'),
]
OPEN = [
 dict(property='P18', key='yogi-second-moment', status='open',
      what='scale_by_yogi and yogi: the second moment follows '
      'b2*v + (1-b2)*(sign(v-g**2)*g**2)**2, that is b2*v + (1-b2)*g**4, '
      'instead of the published v - (1-b2)*sign(v-g**2)*g**2',
      where='optax/_src/transform.py, scale_by_yogi',
      identified_by='histories of scale_by_yogi whose updates match the '
      'deviating recurrence to rounding from the first step on; any other '
      'deviation is a violation',
      why_open='with the published recurrence the stable test '
      'alias_test.AliasTest rosenbrock/yogi no longer converges in its number '
      'of steps, so a repair would need the existing tests to be changed'),
]
import subprocess
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'],
                     capture_output=True, text=True).stdout.splitlines()
fixed = []
for p, c, what in FIXED:
  if c.startswith('@'):
    c = next(l.split()[0] for l in log if c[1:] in l)
  fixed.append(dict(property=p, key=f'fixed-{c}', status='fixed',
                    what=f'fixed: property={p} {c} {what}'))
json.dump({'findings': OPEN + fixed}, open(os.path.join(
    HERE, 'known_findings.json'), 'w'), indent=1)
print(len(fixed), 'fixed')
