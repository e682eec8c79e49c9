"""Parameter trees and gradient messages, as data.

A tree spec is JSON: ["L", id, shape, dtype, init] | ["D", {k: sub}] |
["O", [[k, sub]..]] | ["T", [..]] | ["A", [..]] | ["C", [..]] | ["N", a, b] | ["0"] (an empty subtree).
A gradient entry is JSON: {"k": kind, "s": seed, "e": exponent, ...}.
Values of both are functions of the data alone, and of the id of the leaf, so
that dropping a leaf or an entry leaves the others as they were.
"""
import collections
import zlib

from sim.boot import np, jnp, jax

Pair = collections.namedtuple('Pair', ['w', 'b'])


@jax.tree_util.register_pytree_node_class
class Box:
  """A container of a user's own, as other libraries define them."""

  def __init__(self, parts, label):
    self.parts, self.label = tuple(parts), label

  def tree_flatten(self):
    return self.parts, self.label

  @classmethod
  def tree_unflatten(cls, label, parts):
    return cls(parts, label)


NAMES = list('abcdefghijklmnopqrstuvwxyz') + [a + b for a in 'xyz'
                                            for b in 'bdfhj']
SMALL = [(), (1,), (2,), (3,), (2, 3), (3, 2), (2, 1)]
SHAPES = [(), (), (1,), (2,), (3,), (5,), (1, 1), (2, 3), (3, 2), (1, 4),
          (4, 1), (4, 4), (2, 3, 2), (2, 1, 3), (3, 2, 2, 2), (1, 1, 2, 3),
          (8,), (17,)]

LARGE = [(300,), (257,), (40, 9), (130, 3), (3, 70), (7, 8, 9), (129, 1, 2),
         (2, 1, 2, 3, 2), (2, 2, 2, 2, 2), (1, 3, 1, 2, 1),
         (2, 1, 2, 1, 3)]
DEEP = [(2, 1, 2, 3, 2), (2, 2, 2, 2, 2), (2, 1, 2, 1, 3), (3, 2, 2, 2),
        (2, 3, 1, 2)]
EMPTY = [(0,), (0,), (0, 3), (2, 0), (3, 0, 2), (0, 1)]

DT = {'f32': np.float32, 'f64': np.float64, 'f16': np.float16,
      'bf16': jnp.bfloat16, 'i32': np.int32}


def gen_tree(rng, dtypes=('f32',), max_leaves=6, shapes=None, min_leaves=1,
             containers=True, scale_e=(-2, 2), inits=('n',), empties=True):
  """Draws a tree spec."""
  zeros = shapes is None and rng.random() < 0.08
  large = shapes is None and rng.random() < 0.07
  shapes = shapes or SHAPES
  n = rng.randint(min_leaves, max_leaves)
  if rng.random() < 0.05 and max_leaves > 4:
    n = rng.randint(8, 14) if rng.random() < 0.7 else rng.randint(17, 40)
    shapes = shapes if n < 15 else SMALL
  leaves = []
  for i in range(n):
    leaves.append(['L', i, list(rng.choice(shapes)), rng.choice(dtypes),
                   [rng.choice(inits), rng.randrange(1 << 30),
                    rng.randint(*scale_e)]])
  if zeros:  # parameters without elements
    for _ in range(rng.randint(1, 3)):
      leaves[rng.randrange(n)][2] = list(rng.choice(EMPTY))
  if large:
    leaves[rng.randrange(n)][2] = list(rng.choice(LARGE))
  if not containers:
    return leaves[0] if n == 1 else ['A', leaves]
  if n == 1 and rng.random() < 0.4:
    return leaves[0]

  def group(ls, depth):
    if len(ls) == 1 and rng.random() < 0.6:
      return ls[0]
    parts = []
    if depth >= 3 or len(ls) <= 2 or rng.random() < 0.4:
      parts = list(ls)
    else:
      k = rng.randint(2, min(3, len(ls)))
      cuts = sorted(rng.sample(range(1, len(ls)), k - 1))
      for a, b in zip([0] + cuts, cuts + [len(ls)]):
        parts.append(group(ls[a:b], depth + 1))
    if empties and rng.random() < 0.04:
      parts.insert(rng.randint(0, len(parts)), ['0'])
    c = rng.random()
    if c < 0.5:
      names = rng.sample(NAMES, len(parts))
      return ['D', dict(zip(names, parts))]
    if c > 0.97:
      return ['C', parts]
    if c > 0.94:
      names = rng.sample(NAMES, len(parts))
      return ['O', [[k, x] for k, x in zip(names, parts)]]
    if c < 0.7 and len(parts) == 2:
      return ['N', parts[0], parts[1]]
    if c < 0.85:
      return ['T', parts]
    return ['A', parts]
  return group(leaves, 0)


def flat_rank5(spec):
  """The spec with leaves of rank five made vectors."""
  if isinstance(spec, list) and spec and spec[0] == 'L':
    if len(spec[2]) > 4:
      n = 1
      for d in spec[2]:
        n *= d
      return spec[:2] + [[n]] + spec[3:]
    return spec
  if isinstance(spec, list):
    return [flat_rank5(x) for x in spec]
  if isinstance(spec, dict):
    return {k: flat_rank5(v) for k, v in spec.items()}
  return spec


def leaf_specs(spec):
  """Leaf specs in JAX's order of leaves (dictionaries by sorted key)."""
  t = spec[0]
  if t == 'L':
    return [spec]
  if t == '0':
    return []
  if t == 'D':
    return [x for k in sorted(spec[1]) for x in leaf_specs(spec[1][k])]
  if t == 'O':
    return [x for _, v in spec[1] for x in leaf_specs(v)]
  subs = spec[1] if t in 'TAC' else spec[1:]
  return [x for s in subs for x in leaf_specs(s)]


def build(spec, fn):
  """Builds the tree with leaves fn(leaf_spec)."""
  t = spec[0]
  if t == 'L':
    return fn(spec)
  if t == '0':
    return None
  if t == 'D':
    return {k: build(v, fn) for k, v in spec[1].items()}
  if t == 'O':
    return collections.OrderedDict((k, build(v, fn)) for k, v in spec[1])
  if t == 'C':
    return Box([build(s, fn) for s in spec[1]], 'box')
  if t == 'T':
    return tuple(build(s, fn) for s in spec[1])
  if t == 'A':
    return [build(s, fn) for s in spec[1]]
  return Pair(build(spec[1], fn), build(spec[2], fn))


def drop_leaf(spec, leaf_id):
  """The spec without that leaf (None if nothing is left)."""
  t = spec[0]
  if t == 'L':
    return None if spec[1] == leaf_id else spec
  if t == '0':
    return spec
  if t == 'D':
    d = {k: drop_leaf(v, leaf_id) for k, v in spec[1].items()}
    d = {k: v for k, v in d.items() if v is not None}
    return ['D', d] if d else None
  if t == 'O':
    o = [[k, drop_leaf(v, leaf_id)] for k, v in spec[1]]
    o = [[k, v] for k, v in o if v is not None]
    return ['O', o] if o else None
  if t in 'TAC':
    l = [drop_leaf(s, leaf_id) for s in spec[1]]
    l = [x for x in l if x is not None]
    return [t, l] if l else None
  l = [x for x in (drop_leaf(s, leaf_id) for s in spec[1:]) if x is not None]
  if not l:
    return None
  return ['N', *l] if len(l) == 2 else ['A', l]


def _stream(*key):
  return np.random.RandomState(zlib.crc32(repr(key).encode()) & 0x7fffffff)


def _normal(key, shape, q=256.0):
  x = _stream(*key).randn(*shape) if shape else np.asarray(
      _stream(*key).randn())
  return np.round(x * q) / q


def param_value(leaf, force=None):
  _, lid, shape, dt, (kind, seed, e) = leaf
  shape = tuple(shape)
  if kind == 'z':
    x = np.zeros(shape)
  elif kind == 'p':
    x = np.abs(_normal(('p', seed), shape)) * 2.0**e
  elif kind == 'c':
    x = np.full(shape, 2.0**e)
  else:
    x = _normal(('p', seed), shape) * 2.0**e
  return np.asarray(x, dtype=force or DT[dt])


POISON = {'nan': np.nan, 'inf': np.inf, '-inf': -np.inf}


def grad_value(entry, leaf, nth, nleaves, force=None, batch=None):
  """Value of one leaf of the gradient described by the entry."""
  _, lid, shape, dt, _ = leaf
  shape = tuple(shape)
  if batch is not None:
    shape = (batch,) + shape
  k, s, e = entry['k'], entry.get('s', 0), entry.get('e', 0)
  if k == 'z':
    x = np.zeros(shape)
  elif k == 'n':
    x = _normal(('g', s, lid), shape) * 2.0**e
  elif k == 'c':  # constant magnitude, fixed sign pattern: a stuck source
    x = np.where(_normal(('g', s, lid), shape) < 0, -1.0, 1.0) * 2.0**e
  elif k == 'sp':  # most elements zero
    r = _stream('m', s, lid)
    x = _normal(('g', s, lid), shape) * 2.0**e
    x = np.where(r.rand(*shape) < 0.7, 0.0, x)
  elif k == 'one':  # a single leaf has a gradient
    x = _normal(('g', s, lid), shape) * 2.0**e
    if s % max(nleaves, 1) != nth:
      x = x * 0.0
  else:
    raise KeyError(k)
  x = np.asarray(x * entry.get('g', 1), dtype=np.float64)
  for leafsel, elsel, what in entry.get('p', ()):
    if nleaves and leafsel % nleaves == nth and x.size:
      x = x.copy()
      if x.ndim:
        x.reshape(-1)[elsel % x.size] = POISON[what]
      else:
        x = np.asarray(POISON[what])
  return np.asarray(x, dtype=force or DT[dt])


def params_tree(spec, force=None):
  return build(spec, lambda l: param_value(l, force))


def grads_tree(spec, entry, force=None, batch=None):
  ls = leaf_specs(spec)
  pos = {l[1]: i for i, l in enumerate(ls)}
  return build(spec, lambda l: grad_value(entry, l, pos[l[1]], len(ls), force,
                                          batch))


def to_np(tree):
  return jax.tree_util.tree_map(np.asarray, tree)


def to_jnp(tree):
  return jax.tree_util.tree_map(jnp.asarray, tree)


def leaves(tree):
  return jax.tree_util.tree_leaves(tree)


def structure(tree):
  return jax.tree_util.tree_structure(tree)


def digest(tree):
  """A hash of structure, dtypes, shapes and exact bytes (NaN payload aside)."""
  h = zlib.crc32(str(structure(tree)).encode())
  for x in leaves(tree):
    a = np.asarray(x)
    if a.dtype.kind == 'f' and np.isnan(a).any():
      a = np.where(np.isnan(a), np.array(np.nan, a.dtype), a)
    h = zlib.crc32(f'{a.dtype}{a.shape}'.encode(), h)
    h = zlib.crc32(np.ascontiguousarray(a).tobytes(), h)
  return h
