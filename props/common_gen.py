"""Generators several properties share."""
from sim import trees, zoo
from sim.base import wchoice


def setting(rng, mixed=True, x64=True, low=True, **caps):
  """Draws dtypes: returns (dtypes, x64, caps)."""
  opts = [(6, 'f32')]
  if x64:
    opts.append((1.5, 'f64'))
  if low:
    opts.append((1, 'bf16'))
  if mixed:
    opts.append((1.2, 'mixed'))
  what = wchoice(rng, opts)
  caps = dict(caps)
  if what == 'f32':
    return ('f32',), False, caps
  if what == 'f64':
    return ('f64',), True, dict(caps)
  if what == 'bf16':
    return ('bf16',), False, dict(caps, inject=False)
  return ('f32', 'bf16', 'f32'), False, dict(caps, inject=False,
                                             flatten=False)
