"""Float64 models of the published recurrences, in plain NumPy.

A model works on lists of leaves: init(params) -> state, update(g, s, p) ->
(u, s). Written from the papers and the documentation, leaf by leaf, with
counts as Python integers; they share no code with optax.
"""
import math

from sim.boot import np
from sim import schedmodel


def rate(v, n):
  """A hyperparameter that may be a schedule, at update n (from zero)."""
  if isinstance(v, list) and v[:1] == ['sched']:
    return schedmodel.value(v, n)
  return v


NOISE = []  # [relative size, RandomState] while rounding is being simulated


def noise(shape):
  return NOISE[0] * NOISE[1].uniform(-1, 1, shape)


def avg(d, a, x):
  """d*a + (1-d)*x, however that is written."""
  out = d * a + (1 - d) * x
  if NOISE:  # a sum is rounded relative to its terms
    out = out + (np.abs(a) + np.abs(x)) * noise(np.shape(out)) / 4
  return out


class M:

  def __init__(self, **kw):
    self.kw = kw
    for k, v in kw.items():
      setattr(self, k, v)
    self.setup()

  def setup(self):
    pass

  def init(self, p):
    return ()

  def each(self, g, p):
    return g

  def update(self, g, s, p):
    return [self.each(x, y) for x, y in zip(g, p)], s


class Chain(M):

  def __init__(self, *ms):
    self.ms = ms

  def init(self, p):
    return [m.init(p) for m in self.ms]

  def update(self, g, s, p):
    out = []
    for m, x in zip(self.ms, s):
      if NOISE:
        g = [y * (1 + noise(y.shape)) for y in g]
      g, x = m.update(g, x, p)
      out.append(x)
    return g, out


class Scale(M):

  def each(self, g, p):
    return self.by * g


class Rate(M):
  """Multiplies by -schedule(n) at the n-th update."""

  def init(self, p):
    return 0

  def update(self, g, n, p):
    r = rate(self.lr, n)
    return [self.sign * r * x for x in g], n + 1


def lr_step(lr):
  return Rate(lr=lr, sign=-1)


class Adam(M):
  b1, b2, eps, eps_root, start = 0.9, 0.999, 1e-8, 0.0, 0.0

  def init(self, p):
    f = lambda: [np.full(np.shape(x), float(self.start)) for x in p]
    return (0, f(), f())

  def second(self, g, m_old, v):
    return avg(self.b2, v, g * g)

  def update(self, g, s, p):
    t, m, v = s
    t += 1
    v = [self.second(x, a, b) for x, a, b in zip(g, m, v)]
    m = [avg(self.b1, a, x) for x, a in zip(g, m)]
    return self.emit(t, m, v), (t, m, v)

  def emit(self, t, m, v):
    out = []
    with np.errstate(all='ignore'):
      for a, b in zip(m, v):
        mh = a / (1 - self.b1**t)
        vh = b / (1 - self.b2**t)
        out.append(self.step(t, mh, vh))
    return out

  def step(self, t, mh, vh):
    return mh / (np.sqrt(vh + self.eps_root) + self.eps)


class Belief(Adam):
  eps, eps_root = 0.0, 1e-16

  def second(self, g, m_old, v):
    return avg(self.b2, v, (g - m_old)**2)


class Yogi(Adam):
  eps, start = 1e-3, 1e-6

  def second(self, g, m_old, v):
    return v - (1 - self.b2) * np.sign(v - g * g) * g * g


class YogiAsIs(Yogi):
  """The deviating recurrence listed in known_findings.json."""

  def second(self, g, m_old, v):
    return avg(self.b2, v, (np.sign(v - g * g) * g * g)**2)


class RAdam(Adam):
  threshold = 5.0

  def step(self, t, mh, vh):
    rho_inf = 2 / (1 - self.b2) - 1
    rho = rho_inf - 2 * t * self.b2**t / (1 - self.b2**t)
    if rho < self.threshold:
      return mh
    r = math.sqrt((rho - 4) * (rho - 2) * rho_inf /
                  ((rho_inf - 4) * (rho_inf - 2) * rho))
    return r * mh / (np.sqrt(vh + self.eps_root) + self.eps)


class Decay(M):
  weight_decay = 0.0

  def each(self, g, p):
    return g + self.weight_decay * p


class TrustRatio(M):
  min_norm = 0.0

  def each(self, g, p):
    pn = max(math.sqrt(float(np.sum(p * p))), self.min_norm)
    gn = max(math.sqrt(float(np.sum(g * g))), self.min_norm)
    return g * (1.0 if pn == 0 or gn == 0 else pn / gn)


class Centralize(M):

  def each(self, g, p):
    if g.ndim < 2:
      return g
    return np.stack([x - x.sum() / x.size for x in g]) if len(g) else g


class Trace(M):
  decay, nesterov = 0.9, False

  def init(self, p):
    return [np.zeros(np.shape(x)) for x in p]

  def update(self, g, s, p):
    s = [x + self.decay * t for x, t in zip(g, s)]
    if self.nesterov:
      return [x + self.decay * t for x, t in zip(g, s)], s
    return s, s


class Ema(M):
  decay, debias = 0.9, True

  def init(self, p):
    return (0, [np.zeros(np.shape(x)) for x in p])

  def update(self, g, s, p):
    t, m = s
    t += 1
    m = [avg(self.decay, a, x) for x, a in zip(g, m)]
    if self.debias:
      return [a / (1 - self.decay**t) for a in m], (t, m)
    return m, (t, m)


class Rss(M):
  initial_accumulator_value, eps = 0.1, 1e-7

  def init(self, p):
    return [np.full(np.shape(x), float(self.initial_accumulator_value))
            for x in p]

  def update(self, g, s, p):
    s = [t + x * x for x, t in zip(g, s)]
    with np.errstate(all='ignore'):
      u = [np.where(t > 0, x / np.sqrt(t + self.eps), 0.0)
           for x, t in zip(g, s)]
    return u, s


class Rms(M):
  decay, eps, initial_scale = 0.9, 1e-8, 0.0
  centered = False

  def init(self, p):
    return ([np.zeros(np.shape(x)) for x in p],
            [np.full(np.shape(x), float(self.initial_scale)) for x in p])

  def update(self, g, s, p):
    m, v = s
    d = self.decay
    m = [avg(d, a, x) for x, a in zip(g, m)]
    v = [avg(d, a, x * x) for x, a in zip(g, v)]
    with np.errstate(all='ignore'):
      if self.centered:
        if NOISE:  # the difference of squares cancels
          b_ = [b * (1 + noise(b.shape)) for b in v]
          return [x / np.sqrt(np.maximum(b - a * a, 0) + self.eps)
                  for x, a, b in zip(g, m, b_)], (m, b_)
        u = [x / np.sqrt(np.maximum(b - a * a, 0) + self.eps)
             for x, a, b in zip(g, m, v)]
      else:
        u = [x / np.sqrt(b + self.eps) for x, b in zip(g, v)]
    return u, (m, v)


class Sm3(M):
  """SM3-II: a cover by slices, its per-axis accumulators, then momentum."""
  b1, b2, eps = 0.9, 1.0, 1e-8

  def init(self, p):
    mu = [[np.zeros(n) for n in np.shape(x)] or [np.zeros(())] for x in p]
    return (mu, [np.zeros(np.shape(x)) for x in p])

  def update(self, g, s, p):
    mu, mom = s
    w = 1.0 if self.b2 == 1.0 else 1.0 - self.b2
    new_mu, new_mom = [], []
    for x, acc, m in zip(g, mu, mom):
      nu = np.zeros(x.shape)
      for idx in np.ndindex(*x.shape):
        low = min(float(a[i]) for a, i in zip(acc, idx)) if idx else float(
            acc[0])
        nu[idx] = w * x[idx]**2 + self.b2 * low
      if x.ndim < 2:
        new_mu.append([nu])
      else:
        new_mu.append([np.array([nu.take(i, axis=k).max(initial=0)
                                 for i in range(x.shape[k])])
                       for k in range(x.ndim)])
      with np.errstate(all='ignore'):
        up = np.where(nu > 0, x / np.sqrt(nu + self.eps), 0.0)
      new_mom.append(avg(self.b1, m, up))
    return new_mom, (new_mu, new_mom)


def pick(kw, *names, **renamed):
  out = {k: kw[k] for k in names if k in kw}
  out.update({new: kw[old] for new, old in renamed.items() if old in kw})
  return out


def make(e, yogi=Yogi):
  """The model of an expression of named transformations and chains."""
  if e[0] == 'chain':
    return Chain(*[make(x, yogi) for x in e[1]])
  name, kw = e[0], e[1]
  a = lambda *n: pick(kw, *n)
  if name == 'scale':
    return Scale(by=kw['step_size'])
  if name == 'scale_by_schedule':
    return Rate(lr=kw['step_size_fn'], sign=1)
  if name == 'identity':
    return M()
  if name == 'scale_by_adam':
    return Adam(**kw)
  if name == 'scale_by_belief':
    return Belief(**kw)
  if name == 'scale_by_yogi':
    kw = dict(kw)
    start = kw.pop('initial_accumulator_value', 1e-6)
    return yogi(start=start, **kw)
  if name == 'scale_by_radam':
    return RAdam(**kw)
  if name == 'adam':
    return Chain(Adam(**a('b1', 'b2', 'eps', 'eps_root')),
                 lr_step(kw['learning_rate']))
  if name == 'adamw':
    return Chain(Adam(**a('b1', 'b2', 'eps', 'eps_root')),
                 Decay(weight_decay=kw.get('weight_decay', 1e-4)),
                 lr_step(kw['learning_rate']))
  if name == 'adabelief':
    return Chain(Belief(**dict(dict(eps=1e-8), **a('b1', 'b2', 'eps'))),
                 lr_step(kw['learning_rate']))
  if name == 'yogi':
    return Chain(yogi(**a('b1', 'b2', 'eps')), lr_step(kw['learning_rate']))
  if name == 'radam':
    return Chain(RAdam(**a('b1', 'b2', 'eps', 'eps_root', 'threshold')),
                 lr_step(kw['learning_rate']))
  if name == 'lamb':
    return Chain(Adam(**dict(dict(eps=1e-6), **a(
        'b1', 'b2', 'eps', 'eps_root'))),
                 Decay(weight_decay=kw.get('weight_decay', 0.0)),
                 TrustRatio(), lr_step(kw['learning_rate']))
  if name == 'fromage':
    mult = 1 / math.sqrt(1 + kw['learning_rate']**2)
    return Chain(TrustRatio(min_norm=kw.get('min_norm', 1e-6)),
                 Scale(by=-kw['learning_rate'] * mult),
                 Decay(weight_decay=mult - 1))
  if name == 'add_decayed_weights':
    return Decay(**kw)
  if name == 'scale_by_trust_ratio':
    return TrustRatio(**kw)
  if name == 'centralize':
    return Centralize()
  if name == 'trace':
    return Trace(**a('decay', 'nesterov'))
  if name == 'ema':
    return Ema(**a('decay', 'debias'))
  if name == 'scale_by_rss':
    return Rss(**kw)
  if name == 'scale_by_rms':
    return Rms(**kw)
  if name == 'scale_by_stddev':
    return Rms(centered=True, **kw)
  if name == 'scale_by_sm3':
    return Sm3(**kw)
  if name == 'sm3':
    return Chain(Sm3(b1=kw.get('momentum', 0.9)),
                 Scale(by=-kw['learning_rate']))
  if name == 'adagrad':
    return Chain(Rss(**a('initial_accumulator_value', 'eps')),
                 lr_step(kw['learning_rate']))
  if name == 'sgd':
    ms = [lr_step(kw['learning_rate'])]
    if kw.get('momentum') is not None:
      ms.insert(0, Trace(decay=kw['momentum'],
                         nesterov=kw.get('nesterov', False)))
    return Chain(*ms)
  if name == 'rmsprop':
    ms = [Rms(centered=kw.get('centered', False),
              **a('decay', 'eps', 'initial_scale')),
          lr_step(kw['learning_rate'])]
    if kw.get('momentum') is not None:
      ms.append(Trace(decay=kw['momentum'],
                      nesterov=kw.get('nesterov', False)))
    return Chain(*ms)
  raise KeyError(name)
