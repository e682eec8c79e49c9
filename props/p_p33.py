"""P33: a training run can be differentiated."""
import copy

from sim.boot import np, jnp, jax, optax
from sim.base import Violation, wchoice
from sim import trees, zoo, cmp
from sim.engine import World, Oracle, sut
from props.common import Prop, register
from props.common_gen import setting

HYPER = {'learning_rate': 0.3, 'weight_decay': 1.0, 'step_size': 1.0}
# defined, with a derivative, at gradients of exactly zero
AT_ZERO = {'sgd', 'rmsprop', 'adagrad', 'scale_by_rms', 'scale_by_rss',
           'trace', 'ema', 'scale', 'scale_by_schedule', 'noisy_sgd',
           'add_noise', 'add_decayed_weights', 'apply_every', 'centralize',
           'clip', 'zero_nans', 'identity', 'chain', 'masked', 'flatten',
           'multisteps', 'maybe_update', 'lookahead', 'apply_if_finite'}
ROOT = {'adam', 'adamw', 'scale_by_adam'}  # with eps_root
is_float = lambda x: jnp.issubdtype(jnp.asarray(x).dtype, jnp.floating)


def smooth_at_zero(tx):
  for e in zoo.walk(tx):
    n = e[1] if e[0] == 'inject' else e[0]
    kw = e[2] if e[0] == 'inject' else e[1]
    if n in ('adagrad', 'scale_by_rss') and kw.get(
        'initial_accumulator_value') == 0.0:
      return False  # a step of size zero there, of finite size next to it
    if n in AT_ZERO:
      continue
    if n in ('scale_by_trust_ratio', 'fromage') and kw.get(
        'min_norm', 0.0 if n[0] == 's' else 1.0):
      continue  # the norms are bounded from below, with derivative zero
    if n in ROOT and isinstance(kw, dict) and isinstance(
        kw.get('eps_root'), float) and kw['eps_root'] > 1e-6:
      continue
    return False
  return True


def may_feed_zeros(tx):
  """Whether a member can pass exact zeros on to a later one."""
  return any(e[0] == 'chain' and len(e[1]) > 1 for e in zoo.walk(tx))


def hypers(tx):
  """Where numeric hyperparameters are: [(path, value)]."""
  out = []

  def go(e, path):
    n = e[0]
    if n == 'chain':
      for i, x in enumerate(e[1]):
        go(x, path + [1, i])
    elif n in ('masked', 'flatten', 'apply_if_finite', 'multisteps',
               'maybe_update', 'lookahead'):
      go(e[1], path + [1])
    else:
      at = 2 if n == 'inject' else 1
      for k, v in sorted(e[at].items()):
        if k in HYPER and isinstance(v, float):
          out.append((path + [at, k], v))
  go(tx, [])
  return out


def replaced(tx, where, values):
  tx = copy.deepcopy(tx)
  for path, v in zip(where, values):
    e = tx
    for k in path[:-1]:
      e = e[k]
    e[path[-1]] = v
  return tx


def split(tree):
  """The floating leaves, the others, and a function to join them."""
  ls, td = jax.tree_util.tree_flatten(tree)
  fl = [i for i, x in enumerate(ls) if is_float(x)]
  fset = set(fl)
  rest = [x for i, x in enumerate(ls) if i not in fset]

  def join(a, b):
    a, b = iter(a), iter(b)
    return jax.tree_util.tree_unflatten(
        td, [next(a) if i in fset else next(b) for i in range(len(ls))])
  return [ls[i] for i in fl], rest, join


def dual(make, h, dh):
  """The forward-mode trainer: every value travels with its tangent."""

  def init(pp):
    p, dp = pp
    s0 = make(h).init(p)
    _, rest, _ = split(s0)
    f = lambda h, p: split(make(h).init(p))[0]
    _, ds = jax.jvp(f, (h, p), (dh, dp))
    return s0, ds

  def update(gg, ss, pp):
    (g, dg), (s, ds), (p, dp) = gg, ss, pp
    fs, rest, join = split(s)
    keep = []

    def f(h, g, fs, p):
      u, s2 = make(h).update(g, join(fs, rest), p)
      fs2, rest2, join2 = split(s2)
      keep[:] = [join2]
      return (u, fs2), rest2
    (u, fs2), (du, ds2), rest2 = jax.jvp(f, (h, g, fs, p), (dh, dg, ds, dp),
                                         has_aux=True)
    return (u, du), (keep[0](fs2, rest2), ds2)
  return optax.GradientTransformation(init, update)


class DualOracle(Oracle):

  def __init__(self, prog, ctx):
    self.prog, self.ctx = prog, ctx

  def step(self, node, pos, entry, g, s, p, u, s2, p2):
    self.owner.check(pos, g, s, p, u, s2, p2)


@register
class P33(Prop):
  id = 'P33'
  quick = 260
  method = ('forward-mode hypergradient training: parameters, state and '
            'their tangents are checkpointed, crash and are restored '
            'together; tangents against central differences of whole '
            'perturbed runs, reverse mode against forward mode')
  note = 'float64 runs at generic points; derivatives along random directions'
  rule = 'five or more steps whose tangents were compared'
  stubs = Prop.stubs + ['perturbed twin trainers']

  def generate(self, rng, i, tier):
    steps = rng.randint(5, 14)
    # the maxima of sm3 tie after fusion, where the derivative of JAX is NaN
    caps = dict(horizon=steps, accum=None, avoid=('sm3', 'scale_by_sm3'))
    while True:
      tx = zoo.gen_tx(rng, caps)
      if not any(v == 'f32' for v in self.dtypes(tx)):
        break
    zero = smooth_at_zero(tx)
    guard = None
    if tx[0] == 'apply_if_finite':
      guard, tx = 'all', [tx[0], tx[1], 1000]
    elif tx[0] == 'chain' and tx[1] and tx[1][0][0] == 'zero_nans' and zero:
      guard = 'nan'
    prog = dict(tree=trees.gen_tree(rng, ('f64',), max_leaves=4), tx=tx,
                x64=True, mode='jit', dir=rng.randrange(1 << 24),
                hyper=rng.random() < 0.7, data=rng.random() < 0.8)
    kinds = ((6, 'n'), (1.5, 'z'), (1.5, 'sp')) if zero else ((6, 'n'),)
    knobs = dict(steps=steps, kinds=kinds, exps=(-1, 1), p_crash=0.08,
                 p_ckpt=0.25, p_host=0.0)
    knobs['p_poison'] = 0.1 if guard else 0.0
    self.world(rng, prog, **knobs)
    if guard == 'nan':
      for e in prog['log']:
        if e.get('p'):
          e['p'] = [[a, b, 'nan'] for a, b, _ in e['p']]
    prog['zero'] = zero
    if not zero:
      # a lost gradient of exactly zero is not a generic point
      for e in prog['log']:
        if e['k'] != 'n' or e.get('g', 1) == 0:
          e['k'], e['g'] = 'n', 1
    return prog

  def dtypes(self, tx):
    for e in zoo.walk(tx):
      kw = e[2] if e[0] == 'inject' else e[1]
      if isinstance(kw, dict):
        for v in kw.values():
          if isinstance(v, list) and v and v[0] == 'dtype':
            yield v[1]
          if isinstance(v, list) and v and v[0] in ('num', 'arr'):
            yield 'f32'

  def nontrivial(self, prog, ctx):
    return ctx.checks >= 5

  # -------------------------------------------------------------- execution
  def noise(self, like, *key):
    """Unquantised values: nothing lies exactly at a bound by construction."""
    import zlib
    r = np.random.RandomState(zlib.crc32(repr(key).encode()) & 0x7fffffff)
    return jax.tree_util.tree_map(
        lambda x: jnp.asarray(r.randn(*np.shape(x))), like)

  def run(self, prog, ctx):
    tx, spec = prog['tx'], prog['tree']
    for n in zoo.names(tx):
      ctx.op('tx_' + n)
    where = hypers(tx) if prog['hyper'] else []
    h = [jnp.asarray(v) for _, v in where]
    paths = [w for w, _ in where]
    r = np.random.RandomState(prog['dir'])
    dh = [jnp.asarray(r.uniform(0.2, 1) * v) for _, v in where]
    make = lambda hh: zoo.build(replaced(tx, paths, hh), spec)
    self.make, self.h, self.dh, self.prog, self.ctx = make, h, dh, prog, ctx
    la = self.la = zoo.uses_lookahead(tx)
    tm = jax.tree_util.tree_map
    base = trees.to_jnp(trees.params_tree(spec))
    base = tm(lambda x, n: x + 0.01 * n, base, self.noise(base, 'p', prog['dir']))
    first = optax.LookaheadParams.init_synced(base) if la else base
    on = 1.0 if prog['data'] or not where else 0.0
    d0 = tm(lambda x: on * x, self.noise(base, 'dp', prog['dir']))
    d0 = optax.LookaheadParams.init_synced(d0) if la else d0
    self.first, self.d0 = first, d0

    def grads(pos):
      e = prog['log'][pos]
      g = trees.to_jnp(trees.grads_tree(spec, e))
      n = self.noise(g, 'g', e.get('s', 0), prog['dir'])
      if e['k'] not in ('z', 'sp') and e.get('g', 1) != 0:
        g = tm(lambda x, y: x + 0.01 * y, g, n)
      dg = tm(lambda x: on * x, self.noise(g, 'dg', pos, prog['dir']))
      return g, dg
    self.runs = {}

    def plain(h, g, s, p):
      u, s2 = make(h).update(g, s, p)
      return u, s2, optax.apply_updates(p, u)
    self.plain = jax.jit(plain)
    self.gfn = grads
    oracle = DualOracle(prog, ctx)
    oracle.owner = self
    self.vjp_at = {prog['dir'] % len(prog['log'])}
    self.kink = None
    w = World(prog, ctx, oracle, lambda: dual(make, h, dh), fresh=True,
              params_fn=lambda: (first, d0), grads_fn=grads)
    w.run()

  def twin(self, eps, pos):
    """(parameters, updates) of the run moved by eps along the direction."""
    r = self.runs.get(eps)
    tm = jax.tree_util.tree_map
    move = lambda x, d: tm(lambda a, b: a + eps * b, x, d)
    if r is None:
      h = [a + eps * b for a, b in zip(self.h, self.dh)]
      p = move(self.first, self.d0)
      r = self.runs[eps] = dict(h=h, p=p, s=sut(self.make(h).init, p), out=[])
    while len(r['out']) <= pos:
      g, dg = self.gfn(len(r['out']))
      u, r['s'], r['p'] = sut(self.plain, r['h'], move(g, dg), r['s'], r['p'])
      r['out'].append(trees.to_np((r['p'], u)))
    return r['out'][pos]

  def slope(self, eps, pos):
    a, b = self.twin(eps, pos), self.twin(-eps, pos)
    return [(x - y) / (2 * eps) for x, y in zip(trees.leaves(a),
                                                trees.leaves(b))]

  def check(self, pos, g, s, p, u, s2, p2):
    if self.kink is not None and pos >= self.kink:
      self.ctx.probe('steps_behind_a_kink')
      return
    if not self.prog['zero'] and any(
        not np.all(x) for x in trees.leaves(trees.to_np((g[0], p[0])))):
      self.kink = pos  # clipped to exactly zero, say
      self.ctx.probe('at_zero')
      return
    self.ctx.check()
    # optimizers differ in how smooth they are: the finest step that the
    # twins resolve decides
    got = trees.leaves(trees.to_np((p2[1], u[1])))
    if not self.differs(got, self.slope(1e-6, pos)):
      pass
    else:
      fds = [self.slope(e, pos) for e in (1e-5, 1e-6, 1e-7)]
      bad = [self.differs(got, f) for f in fds]
      if all(bad):
        if self.differs(fds[0], fds[1]) or self.differs(fds[1], fds[2]) or \
            self.one_sided(pos) or 'derivative nan' in bad[1] and \
            not self.prog['zero'] and may_feed_zeros(self.prog['tx']):
          self.kink = pos
          self.ctx.probe('kink')
          return
        raise Violation('derivative', f'step {pos}: {bad[1]}')
    if pos in self.vjp_at:
      self.reverse(pos, g, s, p)

  def one_sided(self, pos):
    """Whether the run has a corner here: left and right slopes differ."""
    e = 1e-6
    a, m, b = self.twin(e, pos), self.twin(0.0, pos), self.twin(-e, pos)
    right = [(x - y) / e for x, y in zip(trees.leaves(a), trees.leaves(m))]
    left = [(x - y) / e for x, y in zip(trees.leaves(m), trees.leaves(b))]
    return self.differs(right, left, 1e-2)

  def differs(self, got, want, tol=1e-3):
    scale = max([float(np.max(np.abs(x))) for x in want
                 if np.size(x) and np.isfinite(x).all()] + [1e-3])
    for i, (x, y) in enumerate(zip(got, want)):
      x, y = np.asarray(x), np.asarray(y)
      ok = np.isfinite(y)
      bad = ok & ~(np.abs(x - y) <= tol * (np.abs(y) + 0.03 * scale))
      if np.any(bad):
        k = int(np.argmax(bad.reshape(-1)))
        return (f'leaf {i} element {k}: derivative {x.reshape(-1)[k]:.8g}, '
                f'slope of perturbed runs {y.reshape(-1)[k]:.8g}')
    return None

  def reverse(self, pos, g, s, p):
    """<c, J d> two ways for one step."""
    (g, dg), (s, ds), (p, dp) = g, s, p
    fs, rest, join = split(s)

    def f(h, g, fs, p):
      u, s2 = self.make(h).update(g, join(fs, rest), p)
      return u, split(s2)[0]
    primals, tangents = (self.h, g, fs, p), (self.dh, dg, ds, dp)

    def both(primals, tangents):
      out, d = jax.jvp(f, primals, tangents)
      c = self.noise(out, 'c', pos, self.prog['dir'])
      _, back = jax.vjp(f, *primals)
      ct = back(c)
      dot = lambda a, b: sum(jnp.sum(x * y) for x, y in zip(
          trees.leaves(a), trees.leaves(b)))
      mag = lambda a, b: sum(jnp.sum(jnp.abs(x * y)) for x, y in zip(
          trees.leaves(a), trees.leaves(b)))
      return dot(c, d), dot(ct, tangents), mag(c, d) + mag(ct, tangents)
    a, b, m = (float(x) for x in sut(jax.jit(both), primals, tangents))
    self.ctx.check()
    self.ctx.probe('reverse_mode_steps')
    if not np.isfinite(b) and not self.prog['zero'] and may_feed_zeros(
        self.prog['tx']):
      return
    if np.isfinite(a) and not abs(a - b) <= 1e-6 * (m + 1e-9):
      raise Violation('reverse', f'step {pos}: forward mode {a:.10g}, reverse '
                      f'mode {b:.10g}')
