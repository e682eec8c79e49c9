"""Reference interpreter of optimizer expressions.

The control flow of every combinator (which step, which leaves, which state,
which hyperparameters) is decided here, in plain Python on concrete values;
only the single transformations at the leaves of the expression are the real
ones. States are plain Python values.
"""
from sim.boot import np, jnp, jax, optax
from sim import trees, zoo, schedmodel

tmap = jax.tree_util.tree_map


class Ref:
  def init(self, p):
    return None

  def update(self, g, s, p):
    raise NotImplementedError


def make(e, tree_spec, jit=True):
  name = e[0]
  sub = lambda x: make(x, tree_spec, jit)
  if name == 'chain':
    return Chain([sub(x) for x in e[1]])
  if name == 'masked':
    return Masked(sub(e[1]), zoo.build_mask(e[2], tree_spec))
  if name == 'flatten':
    return Flatten(sub(e[1]))
  if name == 'apply_if_finite':
    return Finite(sub(e[1]), e[2])
  if name == 'multisteps':
    return Multi(sub(e[1]), e[2], e[3])
  if name == 'maybe_update':
    return Maybe(sub(e[1]), e[2])
  if name == 'lookahead':
    return Look(sub(e[1]), e[2], e[3], e[4])
  if name == 'inject':
    return Inject(e[1], e[2], e[3] if len(e) > 3 else (), jit)
  if name == 'apply_every':
    return Every(e[1].get('k', 1))
  if name == 'scale_by_schedule':
    return Rate('scale', {}, 'step_size', e[1]['step_size_fn'], 1.0, jit)
  lr = e[1].get('learning_rate')
  if isinstance(lr, list) and lr[:1] == ['sched']:
    rest = {k: v for k, v in e[1].items() if k != 'learning_rate'}
    return Rate(name, rest, 'learning_rate', lr, 1.0, jit)
  return Real(zoo.build(e, tree_spec), jit)


def leafwise(u, like):
  """Updates keep the dtype of the gradients where hyperparameters widen."""
  return tmap(lambda x, y: jnp.asarray(x, dtype=jnp.asarray(y).dtype), u, like)


class Real(Ref):
  """A single real transformation."""

  def __init__(self, tx, jit):
    self.tx = tx
    self._u = jax.jit(tx.update) if jit else tx.update

  def init(self, p):
    return self.tx.init(p)

  def update(self, g, s, p):
    return self._u(g, s, p)


class Rate(Ref):
  """A factory whose rate is, at its n-th update, the schedule's value at n."""

  def __init__(self, name, kw, arg, sched, sign, jit):
    f = zoo.factory(name)
    kw = {k: zoo._val(v) for k, v in kw.items()}
    self.mk = lambda v: f(**{arg: v}, **kw)
    self.sched, self.sign = sched, sign
    upd = lambda v, g, s, p: self.mk(v).update(g, s, p)
    self._u = jax.jit(upd) if jit else upd

  def init(self, p):
    return (0, self.mk(0.0).init(p))

  def update(self, g, s, p):
    n, inner = s
    v = schedmodel.value(self.sched, n)
    v = jnp.asarray(v, jnp.float64 if jax.config.jax_enable_x64
                    else jnp.float32)
    u, inner2 = self._u(v, g, inner, p)
    inner2 = tmap(lambda a, b: jnp.asarray(a, jnp.asarray(b).dtype), inner2,
                  inner)
    return leafwise(u, g), (n + 1, inner2)


class Chain(Ref):

  def __init__(self, members):
    self.m = members

  def init(self, p):
    return [m.init(p) for m in self.m]

  def update(self, g, s, p):
    out = []
    for m, x in zip(self.m, s):
      g, x2 = m.update(g, x, p)
      out.append(x2)
    return g, out


def selection(mask, tree):
  """One boolean per leaf of the tree."""
  m = mask(tree) if callable(mask) else mask
  bits = []
  tmap(lambda b, sub: bits.extend([bool(b)] * len(trees.leaves(sub))), m, tree)
  return bits


class Masked(Ref):

  def __init__(self, inner, mask):
    self.inner, self.mask = inner, mask

  def _take(self, tree, bits):
    return [x for x, b in zip(trees.leaves(tree), bits) if b]

  def init(self, p):
    return self.inner.init(self._take(p, selection(self.mask, p)))

  def update(self, g, s, p):
    bits = selection(self.mask, g)
    u, s2 = self.inner.update(
        self._take(g, bits), s,
        None if p is None else self._take(p, bits))
    it = iter(trees.leaves(u))
    ls, td = jax.tree_util.tree_flatten(g)
    return jax.tree_util.tree_unflatten(
        td, [next(it) if b else x for x, b in zip(ls, bits)]), s2


class Flatten(Ref):

  def __init__(self, inner):
    self.inner = inner

  def _flat(self, t):
    ls = [np.asarray(x).reshape(-1) for x in trees.leaves(t)]
    return jnp.asarray(np.concatenate(ls) if ls else np.zeros(0, np.float32))

  def init(self, p):
    return self.inner.init(self._flat(p))

  def update(self, g, s, p):
    u, s2 = self.inner.update(self._flat(g), s,
                              None if p is None else self._flat(p))
    u = np.asarray(u)
    ls, td = jax.tree_util.tree_flatten(g)
    out, at = [], 0
    for x in ls:
      n = int(np.size(x))
      out.append(jnp.asarray(u[at:at + n].reshape(np.shape(x))))
      at += n
    return jax.tree_util.tree_unflatten(td, out), s2


def all_finite(t):
  return all(bool(np.isfinite(np.asarray(x).astype(np.float64)).all())
             for x in trees.leaves(t))


class Finite(Ref):
  """State: (run of bad ones, last was finite, total bad, inner)."""

  def __init__(self, inner, limit):
    self.inner, self.limit = inner, limit

  def init(self, p):
    return (0, True, 0, self.inner.init(p))

  def update(self, g, s, p):
    run, _, total, inner = s
    ok = all_finite(g)
    run = 0 if ok else run + 1
    total += not ok
    if ok or run > self.limit:
      g, inner = self.inner.update(g, inner, p)
    else:
      g = tmap(jnp.zeros_like, g)
    return g, (run, ok, total, inner)


class Multi(Ref):
  """State: (mini step, completed inner updates, gradients so far, inner)."""

  def __init__(self, inner, k, mean):
    self.inner, self.k, self.mean = inner, k, mean

  def init(self, p):
    return (0, 0, [], self.inner.init(p))

  def update(self, g, s, p):
    mini, done, seen, inner = s
    k = zoo.k_py(self.k, done)
    seen = seen + [g]
    if len(seen) < k:
      return tmap(jnp.zeros_like, g), (mini + 1, done, seen, inner)

    def total(*xs):
      t = sum(np.asarray(x).astype(np.float64) for x in xs)
      return jnp.asarray(t / k if self.mean else t, jnp.asarray(xs[0]).dtype)
    with np.errstate(invalid='ignore', over='ignore'):
      acc = tmap(total, *seen)
    u, inner = self.inner.update(acc, inner, p)
    return u, (0, done + 1, [], inner)


class Maybe(Ref):

  def __init__(self, inner, pred):
    self.inner, self.pred = inner, pred

  def init(self, p):
    return (0, self.inner.init(p))

  def update(self, g, s, p):
    n, inner = s
    if zoo.pred_py(self.pred, n):
      g, inner = self.inner.update(g, inner, p)
    return g, (n + 1, inner)


class Every(Ref):

  def __init__(self, k):
    self.k = k

  def init(self, p):
    return []

  def update(self, g, s, p):
    s = s + [g]
    if len(s) < self.k:
      return tmap(jnp.zeros_like, g), s

    def total(*xs):
      t = sum(np.asarray(x).astype(np.float64) for x in xs)
      return jnp.asarray(t, jnp.asarray(xs[0]).dtype)
    with np.errstate(invalid='ignore', over='ignore'):
      return tmap(total, *s), []


class Look(Ref):
  """Parameters are (fast, slow); state: (steps since the last sync, inner)."""

  def __init__(self, inner, period, alpha, reset):
    self.inner, self.period = inner, period
    self.alpha, self.reset = alpha, reset

  def init(self, p):
    return (0, self.inner.init(p.fast))

  def update(self, g, s, p):
    n, inner = s
    u, inner = self.inner.update(g, inner, p.fast)
    n += 1
    if n < self.period:
      return optax.LookaheadParams(
          fast=u, slow=tmap(jnp.zeros_like, p.slow)), (n, inner)

    def deltas(pf, ps, u):
      pf, ps, u = [np.asarray(x).astype(np.float64) for x in (pf, ps, u)]
      with np.errstate(invalid='ignore', over='ignore'):
        slow = ps + self.alpha * (pf + u - ps)
        return slow - pf, slow - ps
    cast = lambda x, like: jnp.asarray(x, jnp.asarray(like).dtype)
    fast = tmap(lambda a, b, c: cast(deltas(a, b, c)[0], a), p.fast, p.slow, u)
    slow = tmap(lambda a, b, c: cast(deltas(a, b, c)[1], a), p.fast, p.slow, u)
    if self.reset:
      inner = self.inner.init(p.fast)
    return optax.LookaheadParams(fast=fast, slow=slow), (0, inner)


class Inject(Ref):
  """State: (updates so far, {name: value}, inner)."""

  def __init__(self, name, kw, static, jit):
    f = zoo.factory(name)
    self.sched = {k: v for k, v in kw.items()
                  if isinstance(v, list) and v[:1] == ['sched']}
    self.plain = {k: zoo._val(v) for k, v in kw.items()
                  if k in static or isinstance(v, (bool, str)) or v is None
                  or isinstance(v, list) and v[:1] in (['dtype'], ['maskfn'])}
    import inspect
    sig = inspect.signature(f)
    self.numeric = {}
    for k, prm in sig.parameters.items():
      if k in self.sched or k in self.plain:
        continue
      v = kw[k] if k in kw else prm.default
      if isinstance(v, list) and v[:1] == ['num']:
        v = np.asarray(zoo._val(v)).item()
      if isinstance(v, (bool, str)) or v is None or callable(v):
        self.plain[k] = v
      elif v is not inspect.Parameter.empty:
        self.numeric[k] = v
    self.mk = lambda hp: f(**hp, **self.plain)
    upd = lambda hp, g, s, p: self.mk(hp).update(g, s, p)
    self._u = jax.jit(upd) if jit else upd

  def values(self, n, hp):
    out = dict(hp)
    for k, e in self.sched.items():
      out[k] = schedmodel.value(e, n)
    return out

  def init(self, p):
    hp = self.values(0, dict(self.numeric))
    return (0, hp, self.mk(self._cast(hp, p)).init(p))

  def _cast(self, hp, like):
    ls = trees.leaves(like)
    dt = jnp.asarray(ls[0]).dtype if ls else None
    return {k: (jnp.asarray(v, dt) if isinstance(v, float) else jnp.asarray(v))
            for k, v in hp.items()}

  def update(self, g, s, p):
    n, hp, inner = s
    hp = self.values(n + 1, hp)
    u, inner = self._u(self._cast(hp, g), g, inner, p)
    return u, (n + 1, hp, inner)
