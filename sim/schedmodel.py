"""Float64 models of the documented schedules, in plain Python."""
import math


def value(e, step):
  """Value of schedule expression e at integer step >= 0."""
  name = e[1]
  if name == 'join':
    i = sum(1 for b in e[3] if step >= b)
    return value(e[2][i], step - (e[3][i - 1] if i else 0))
  if name == 'sgdr':
    start = 0
    for n, c in enumerate(e[2]):
      if step < start + c['decay_steps'] or n == len(e[2]) - 1:
        return warmup_cosine(c, step - start)
      start += c['decay_steps']
  k = e[2]
  if name == 'constant_schedule':
    return float(k['value'])
  if name == 'polynomial_schedule':
    return poly(k['init_value'], k['end_value'], k['power'],
                k['transition_steps'], k.get('transition_begin', 0), step)
  if name == 'linear_schedule':
    return poly(k['init_value'], k['end_value'], 1, k['transition_steps'],
                k.get('transition_begin', 0), step)
  if name == 'piecewise_constant_schedule':
    v = float(k['init_value'])
    for b, s in (k.get('boundaries_and_scales') or {}).items():
      if step >= int(b):
        v *= s
    return v
  if name == 'exponential_decay':
    return expo(k, step)
  if name == 'cosine_decay_schedule':
    return cosine(k['init_value'], k['decay_steps'], k.get('alpha', 0.0), step)
  if name == 'piecewise_interpolate_schedule':
    return interp(k['interpolate_type'], k['init_value'],
                  [(int(b), s) for b, s in (
                      k.get('boundaries_and_scales') or {}).items()], step)
  if name in ('linear_onecycle_schedule', 'cosine_onecycle_schedule'):
    n, peak = k['transition_steps'], k['peak_value']
    start, final = k.get('pct_start', 0.3), k.get('pct_final', 0.85)
    div, fdiv = k.get('div_factor', 25.0), k.get('final_div_factor', 1e4)
    if name[0] == 'l':
      pts = [(int(start * n), div), (int(final * n), 1 / div), (n, 1 / fdiv)]
      return interp('linear', peak / div, pts, step)
    pts = [(int(start * n), div), (n, 1 / (div * fdiv))]
    return interp('cosine', peak / div, pts, step)
  if name == 'warmup_cosine_decay_schedule':
    return warmup_cosine(k, step)
  if name == 'warmup_exponential_decay_schedule':
    if step < k['warmup_steps']:
      return poly(k['init_value'], k['peak_value'], 1, k['warmup_steps'], 0,
                  step)
    return expo(dict(k, init_value=k['peak_value']),
                step - k['warmup_steps'])
  raise KeyError(name)


def poly(init, end, power, n, begin, step):
  if n <= 0:
    return float(init)
  c = min(max(step - max(begin, 0), 0), n)
  return (init - end) * (1 - c / n)**power + end


def expo(k, step):
  init, n, rate = k['init_value'], k['transition_steps'], k['decay_rate']
  if n <= 0 or rate == 0:
    return float(init)
  c = step - max(k.get('transition_begin', 0), 0)
  if c <= 0:
    v = float(init)
  else:
    p = c // n if k.get('staircase') else c / n
    try:
      v = init * rate**p
    except OverflowError:
      v = math.inf
  end = k.get('end_value')
  if end is not None:
    v = max(v, end) if rate < 1 else min(v, end)
  return v


def cosine(init, n, alpha, step):
  c = min(step, n)
  return init * ((1 - alpha) * 0.5 * (1 + math.cos(math.pi * c / n)) + alpha)


def warmup_cosine(k, step):
  w, peak = k['warmup_steps'], k['peak_value']
  if step < w:
    return poly(k['init_value'], peak, 1, w, 0, step)
  return cosine(peak, k['decay_steps'] - w, k.get('end_value', 0.0) / peak,
                step - w)


def interp(kind, init, pts, step):
  b0, v0 = 0, float(init)
  for b, s in sorted(pts):
    v1 = v0 * s
    if step < b:
      t = (step - b0) / (b - b0)
      if kind == 'linear':
        return v0 + (v1 - v0) * t
      return v1 + (v0 - v1) * 0.5 * (1 + math.cos(math.pi * t))
    b0, v0 = b, v1
  return v0


def slope_error(e, step):
  """Bound on the amplification of rounding in f32 evaluation, relative."""
  name = e[1]
  if name == 'join':
    return max(slope_error(s, step) for s in e[2])
  if name in ('exponential_decay', 'warmup_exponential_decay_schedule'):
    k = e[2]
    if k['transition_steps'] > 0 and k['decay_rate'] > 0:
      return 1 + abs(math.log(k['decay_rate'])) * step / k['transition_steps']
  return 1.0


def boundaries(e, at=0):
  """Steps at which the schedule changes its regime."""
  name, out = e[1], []
  if name == 'join':
    starts = [0] + list(e[3])
    for s, b in zip(e[2], starts):
      out += boundaries(s, at + b)
    return out + [at + b for b in e[3]]
  if name == 'sgdr':
    for c in e[2]:
      out += [at, at + c['warmup_steps'], at + c['decay_steps']]
      at += c['decay_steps']
    return out
  k = e[2]
  b = max(k.get('transition_begin', 0), 0)
  if name in ('polynomial_schedule', 'linear_schedule'):
    out = [b, b + k['transition_steps']]
  elif name == 'exponential_decay':
    n = k['transition_steps']
    out = [b, b + n, b + 2 * n, b + 7 * n]
  elif name == 'cosine_decay_schedule':
    out = [k['decay_steps']]
  elif 'onecycle' in name:
    n = k['transition_steps']
    out = [int(k.get('pct_start', 0.3) * n),
           int(k.get('pct_final', 0.85) * n), n]
  elif name == 'warmup_cosine_decay_schedule':
    out = [k['warmup_steps'], k['decay_steps']]
  elif name == 'warmup_exponential_decay_schedule':
    w, n = k['warmup_steps'], k['transition_steps']
    out = [w, w + b, w + b + n, w + b + 3 * n]
  elif name.startswith('piecewise'):
    out = [int(x) for x in k.get('boundaries_and_scales') or {}]
  return [at + x for x in out if x >= 0]


def scale_at(e, step):
  """Magnitude that rounding at this step is relative to."""
  name = e[1]
  if name == 'join':
    i = sum(1 for b in e[3] if step >= b)
    return scale_at(e[2][i], step - (e[3][i - 1] if i else 0))
  if name == 'sgdr':
    return max(max(abs(c['peak_value']), abs(c['init_value'])) for c in e[2])
  k = e[2]
  v = abs(value(e, step))
  if name in ('polynomial_schedule', 'linear_schedule'):
    n, b = k['transition_steps'], max(k.get('transition_begin', 0), 0)
    if n <= 0 or step >= b + n:
      return v
    return max(v, abs(k['init_value']), abs(k['end_value']))
  if name == 'cosine_decay_schedule':
    return abs(k['init_value'])
  if name == 'warmup_cosine_decay_schedule':
    return max(abs(k['peak_value']), abs(k['init_value']))
  if name == 'warmup_exponential_decay_schedule' and step < k['warmup_steps']:
    return max(abs(k['peak_value']), abs(k['init_value']))
  if name.startswith('piecewise_interp') or 'onecycle' in name:
    ends = [x for x in boundaries(e) if x > step]
    starts = [0] + [x for x in boundaries(e) if x <= step]
    return max(v, abs(value(e, max(starts))),
               abs(value(e, min(ends))) if ends else 0.0)
  return v
