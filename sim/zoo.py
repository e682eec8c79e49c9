"""Optimizers, transformations and compositions of them, as data.

An expression is JSON, ["name", {kwargs}] for a factory of optax, or one of
the composed forms below; build() turns it into a GradientTransformation by
calling the real factories. `Caps` says what the surroundings allow.
"""
from typing import Any, NamedTuple

from sim.boot import np, jnp, jax, optax, _wrappers
from optax._src import transform as _tr
from sim.base import wchoice


# ---------------------------------------------------------------- schedules

def build_sched(e):
  name = e[1]
  if name == 'join':
    return optax.join_schedules([build_sched(s) for s in e[2]], list(e[3]))
  if name == 'sgdr':
    return optax.sgdr_schedule([dict(k) for k in e[2]])
  kw = dict(e[2])
  if kw.get('boundaries_and_scales') is not None:
    kw['boundaries_and_scales'] = {
        int(k): v for k, v in kw['boundaries_and_scales'].items()}
  return getattr(optax, name)(**kw)


def _q(rng, lo, hi, bits=5):
  return round(rng.uniform(lo, hi) * 2**bits) / 2**bits


def gen_sched(rng, horizon=30, depth=0, scale=1.0):
  """A schedule of magnitude about `scale`; horizon is the length of a run."""
  h = lambda lo=1: rng.randint(lo, max(lo + 1, horizon))
  v = lambda: scale * max(_q(rng, 0.0, 1.0), 1 / 32)
  c = rng.randrange(12 if depth == 0 or (
      depth == 1 and rng.random() < 0.2) else 9)
  if c == 0:
    return ['sched', 'constant_schedule', {'value': v()}]
  if c == 1:
    return ['sched', 'polynomial_schedule', dict(
        init_value=v(), end_value=v(), power=rng.choice([1, 2, 3, 0.5]),
        transition_steps=h(), transition_begin=rng.choice([0, 0, h(0)]))]
  if c == 2:
    return ['sched', 'linear_schedule', dict(
        init_value=v(), end_value=v(), transition_steps=h(),
        transition_begin=rng.choice([0, 0, h(0)]))]
  if c == 3:
    bs = sorted({h(1) for _ in range(rng.choice([1, 2, 3, 4, 8]))})
    return ['sched', 'piecewise_constant_schedule', dict(
        init_value=v(), boundaries_and_scales={
            str(b): rng.choice([0.5, 0.25, 2.0, 0.125, 1.5]) for b in bs})]
  if c == 4:
    d = dict(init_value=v(), transition_steps=h(),
             decay_rate=rng.choice([0.5, 0.9, 0.25, 1.1, 1.5]),
             transition_begin=rng.choice([0, 0, h(0)]),
             staircase=rng.random() < 0.4)
    if rng.random() < 0.4:
      d['end_value'] = v() * (0.25 if d['decay_rate'] < 1 else 2.0)
    return ['sched', 'exponential_decay', d]
  if c == 5:
    return ['sched', 'cosine_decay_schedule', dict(
        init_value=v(), decay_steps=h(), alpha=rng.choice([0.0, 0.1, 0.5]))]
  if c == 6:
    bs = sorted({h(1) for _ in range(rng.choice([1, 2, 3, 4, 8]))})
    return ['sched', 'piecewise_interpolate_schedule', dict(
        interpolate_type=rng.choice(['linear', 'cosine']), init_value=v(),
        boundaries_and_scales={
            str(b): rng.choice([0.5, 0.25, 2.0, 1.5]) for b in bs})]
  if c == 7:
    return ['sched', rng.choice(['linear_onecycle_schedule',
                                 'cosine_onecycle_schedule']), dict(
        transition_steps=rng.randint(8, max(9, horizon)), peak_value=v())]
  if c == 8:
    w = rng.randint(rng.choice([0, 1, 1]), max(2, horizon // 2))
    return ['sched', 'warmup_cosine_decay_schedule', dict(
        init_value=v() * 0.125, peak_value=v(), warmup_steps=w,
        decay_steps=w + h(), end_value=v() * 0.0625)]
  if c == 9:
    d = dict(init_value=v() * 0.125, peak_value=v(),
             warmup_steps=rng.randint(1, max(2, horizon // 2)),
             transition_steps=h(), decay_rate=rng.choice([0.5, 0.9]),
             transition_begin=rng.choice([0, 2, 5]),
             staircase=rng.random() < 0.4)
    if rng.random() < 0.4:
      d['end_value'] = d['peak_value'] * 0.125
    return ['sched', 'warmup_exponential_decay_schedule', d]
  if c == 10:
    cycles = []
    for _ in range(rng.choice([1, 2, 3, 4, 6])):
      w = rng.randint(rng.choice([0, 1]), max(2, horizon // 6))
      cycles.append(dict(init_value=v() * 0.125, peak_value=v(),
                         warmup_steps=w,
                         decay_steps=w + rng.randint(2, max(3, horizon // 3)),
                         end_value=v() * 0.0625))
    return ['sched', 'sgdr', cycles]
  n = rng.choice([2, 2, 3, 3, 4, 5])
  bounds = sorted(rng.sample(range(1, horizon + 5), n - 1))
  return ['sched', 'join', [gen_sched(rng, horizon, depth + 1, scale)
                            for _ in range(n)], bounds]


# --------------------------------------------------------- masks, predicates

def build_mask(m, tree_spec):
  """m = ["full", bits] | ["fn", bits] | ["ndim", n] | ["prefix", bits]."""
  bits = m[1]
  kind = np.bool_ if m[0] != 'ndim' and bits & (1 << 29) else bool
  counter = lambda i: kind((bits >> (i % 30)) & 1)

  def by_leaf(tree):
    ls, td = jax.tree_util.tree_flatten(tree)
    return jax.tree_util.tree_unflatten(
        td, [counter(i) for i in range(len(ls))])

  if m[0] == 'ndim':
    return lambda t: jax.tree_util.tree_map(lambda x: jnp.ndim(x) != bits, t)
  if m[0] == 'fn':
    return by_leaf
  from sim import trees
  shaped = trees.build(tree_spec, lambda l: l[1])
  if m[0] == 'prefix':
    is_leaf = lambda x: x is not shaped
    ls, td = jax.tree_util.tree_flatten(shaped, is_leaf=is_leaf)
    return jax.tree_util.tree_unflatten(
        td, [counter(i) for i in range(len(ls))])
  return by_leaf(shaped)


def build_pred(p):
  kind, a = p[0], p[1]
  if kind == 'mod':
    return lambda step: step % a == p[2]
  if kind == 'ge':
    return lambda step: step >= a
  if kind == 'lt':
    return lambda step: step < a
  if kind == 'bits':
    table = np.array([(a >> i) & 1 for i in range(24)], dtype=bool)
    return lambda step: jnp.asarray(table)[step % 24]
  return lambda step: jnp.asarray(bool(a))


def pred_py(p, step):
  kind, a = p[0], p[1]
  if kind == 'mod':
    return step % a == p[2]
  if kind == 'ge':
    return step >= a
  if kind == 'lt':
    return step < a
  if kind == 'bits':
    return bool((a >> (step % 24)) & 1)
  return bool(a)


def gen_pred(rng):
  c = rng.randrange(5)
  if c == 0:
    a = rng.randint(1, 5)
    return ['mod', a, rng.randrange(a)]
  if c == 1:
    return ['ge', rng.randint(0, 12)]
  if c == 2:
    return ['lt', rng.randint(0, 12)]
  if c == 3:
    return ['bits', rng.getrandbits(24)]
  return ['const', int(rng.random() < 0.5)]


def build_k(k):
  if isinstance(k, int):
    return k
  table = np.array(k, dtype=np.int32)
  return lambda step: jnp.asarray(table)[jnp.minimum(step, len(table) - 1)]


def k_py(k, step):
  return k if isinstance(k, int) else k[min(step, len(k) - 1)]


def gen_k(rng):
  if rng.random() < 0.5:
    return rng.randint(1, 6)
  return [rng.randint(1, 5) for _ in range(rng.randint(2, 6))]


# -------------------------------------------------------------- expressions

def _val(v):
  if isinstance(v, list) and v and v[0] == 'sched':
    return build_sched(v)
  if isinstance(v, list) and v and v[0] == 'dtype':
    return {'f32': jnp.float32, 'bf16': jnp.bfloat16,
            'f64': jnp.float64}[v[1]]
  if isinstance(v, list) and v and v[0] == 'maskfn':
    return build_mask(['fn', v[1]], None)
  if isinstance(v, list) and v and v[0] == 'arr':
    return jnp.asarray(v[1])
  if isinstance(v, list) and v and v[0] == 'num':  # a number in some guise
    return {'int': int, 'np32': np.float32, 'np64': np.float64,
            'arr': np.asarray, 'dev': jnp.asarray, 'npint': np.int32}[v[1]](
                v[2])
  return v


class ProbeState(NamedTuple):
  count: Any
  acc: Any


def probe(a, b, c, d):
  """A linear recorder: sees gradients, their history, parameters and count."""
  def init(params):
    return ProbeState(jnp.zeros([], jnp.int32),
                      jax.tree_util.tree_map(jnp.zeros_like, params))

  def update(g, s, p=None):
    acc = jax.tree_util.tree_map(lambda x, y: x + 0.5 * y, g, s.acc)
    n = (s.count % 7)
    f = lambda x, y, *z: (-a * x + b * y - c * (z[0] if z else 0)
                          + d * n.astype(x.dtype)).astype(x.dtype)
    rest = () if p is None or c == 0 else (p,)
    return (jax.tree_util.tree_map(f, g, acc, *rest),
            ProbeState(s.count + 1, acc))
  return optax.GradientTransformation(init, update)


def gen_probe(rng, caps):
  return ['probe', dict(a=rng.choice([0.5, 1.0]), b=rng.choice([0.25, -0.125]),
                        c=rng.choice([0.125, 0.25])
                        if caps.get('params', True) else 0,
                        d=rng.choice([0.0, 0.03125]))]


def decayed_momentum(learning_rate, weight_decay=0.01, momentum=0.5,
                     nesterov=False):
  """A factory as a user would write it to inject into."""
  return optax.chain(optax.add_decayed_weights(weight_decay),
                     optax.trace(momentum, nesterov),
                     optax.scale(-1.0 * learning_rate))


def masked_decay(weight_decay, mask, step_size=1.0):
  return optax.chain(
      optax.masked(optax.add_decayed_weights(weight_decay), mask),
      optax.scale(step_size))


def scaled_adam(learning_rate, b1=0.9, b2=0.99, eps=1e-4, norm=1.0):
  return optax.chain(optax.clip_by_global_norm(norm),
                     optax.scale_by_adam(b1, b2, eps),
                     optax.scale(-1.0 * learning_rate))


CUSTOM = dict(probe=probe, decayed_momentum=decayed_momentum,
              masked_decay=masked_decay, scaled_adam=scaled_adam)


def factory(name):
  if name in CUSTOM:
    return CUSTOM[name]
  f = getattr(optax, name, None)
  return f if f is not None else getattr(_tr, name)


def build(e, tree_spec):
  """Calls the real factories."""
  name = e[0]
  if name == 'chain':
    return optax.chain(*[build(x, tree_spec) for x in e[1]])
  if name == 'masked':
    return optax.masked(build(e[1], tree_spec), build_mask(e[2], tree_spec))
  if name == 'flatten':
    return optax.flatten(build(e[1], tree_spec))
  if name == 'apply_if_finite':
    return optax.apply_if_finite(build(e[1], tree_spec), e[2])
  if name == 'multisteps':
    return _wrappers.MultiSteps(build(e[1], tree_spec), build_k(e[2]),
                                use_grad_mean=e[3]).gradient_transformation()
  if name == 'maybe_update':
    return _wrappers.maybe_update(build(e[1], tree_spec), build_pred(e[2]))
  if name == 'lookahead':
    return optax.lookahead(build(e[1], tree_spec), e[2], e[3], e[4])
  if name == 'inject':
    return optax.inject_hyperparams(
        factory(e[1]), **({'static_args': e[3]} if len(e) > 3 else {}))(
            **{k: _val(v) for k, v in e[2].items()})
  return factory(name)(**{k: _val(v) for k, v in e[1].items()})


def walk(e):
  """All subexpressions."""
  yield e
  name = e[0]
  if name == 'chain':
    for x in e[1]:
      yield from walk(x)
  elif name in ('masked', 'flatten', 'apply_if_finite', 'multisteps',
                'maybe_update', 'lookahead'):
    yield from walk(e[1])


def names(e):
  return [x[0] if x[0] != 'inject' else x[1] for x in walk(e)]


def uses_lookahead(e):
  return e[0] == 'lookahead'


def has_scheds(e):
  return '"sched"' in __import__('json').dumps(e)


LR = [0.5, 0.25, 0.125, 0.1, 0.01, 1.0]
B1 = [0.9, 0.5, 0.0, 0.75, 0.99]
B2 = [0.999, 0.9, 0.5, 0.99, 0.95]


def lr(rng, caps):
  if caps.get('sched', True) and rng.random() < 0.3:
    return gen_sched(rng, caps.get('horizon', 30), scale=rng.choice(
        [1.0, 0.1]))
  return rng.choice(LR)


def _opt_kw(rng, **choices):
  """Each keyword present with probability 1/2."""
  return {k: (rng.choice(v) if isinstance(v, (list, tuple)) else v(rng))
          for k, v in choices.items() if rng.random() < 0.5}


def gen_base(rng, caps):
  """One optimizer or transformation."""
  return gen_named(rng, wchoice(rng, base_table(caps)), caps)


def base_table(caps):
  """The optimizers and transformations allowed, with weights."""
  cap = lambda k: caps.get(k, True)
  table = [
      (3, 'adam'), (2, 'adamw'), (2, 'adabelief'), (2, 'adagrad'),
      (1.5, 'fromage'), (2, 'lamb'), (2, 'radam'), (2, 'rmsprop'),
      (2, 'sgd'), (1.5, 'sm3'), (1.5, 'yogi'),
      (1, 'trace'), (1.5, 'ema'), (1, 'scale_by_rss'), (1, 'scale_by_rms'),
      (1, 'scale_by_stddev'), (1, 'scale_by_adam'), (1, 'scale'),
      (1, 'scale_by_belief'), (1, 'scale_by_yogi'), (1, 'scale_by_radam'),
      (1, 'add_decayed_weights'), (1.5, 'scale_by_schedule'),
      (1, 'scale_by_trust_ratio'), (1.5, 'apply_every'), (1, 'centralize'),
      (1, 'scale_by_sm3'), (1, 'clip'), (1, 'clip_by_global_norm'),
      (1, 'adaptive_grad_clip'), (1, 'zero_nans'),
      (1, 'keep_params_nonnegative'), (0.5, 'identity')]
  if cap('noise'):
    table += [(1.5, 'noisy_sgd'), (1.5, 'add_noise')]
  if not cap('params'):
    table = [t for t in table if t[1] not in (
        'adamw', 'fromage', 'lamb', 'add_decayed_weights',
        'scale_by_trust_ratio', 'adaptive_grad_clip',
        'keep_params_nonnegative')]
  if 'only' in caps:
    table = [t for t in table if t[1] in caps['only']]
  if 'avoid' in caps:
    table = [t for t in table if t[1] not in caps['avoid']]
  return table


def gen_named(rng, name, caps):
  L = lambda: lr(rng, caps)
  e8 = [1e-8, 1e-6, 1e-4, 2.0**-10, 0.125]
  root = [0.0, 1e-8, 2.0**-10, 0.125]
  if name == 'adam':
    return [name, dict(learning_rate=L(), **_opt_kw(
        rng, b1=B1, b2=B2, eps=e8, eps_root=root))]
  if name == 'adamw':
    return [name, dict(learning_rate=L(), **_opt_kw(
        rng, b1=B1, b2=B2, eps=e8, eps_root=root,
        weight_decay=[0.0, 0.1, 0.01, 0.5]))]
  if name == 'adabelief':
    return [name, dict(learning_rate=L(), **_opt_kw(
        rng, b1=B1, b2=B2, eps=[1e-8, 1e-4, 1e-2]))]
  if name == 'adagrad':
    return [name, dict(learning_rate=L(), **_opt_kw(
        rng, initial_accumulator_value=[0.0, 0.1, 1.0], eps=[1e-7, 1e-4, 0.125]))]
  if name == 'fromage':
    return [name, dict(learning_rate=rng.choice(LR), **_opt_kw(
        rng, min_norm=[1e-6, 0.1, 0.0]))]
  if name == 'lamb':
    return [name, dict(learning_rate=L(), **_opt_kw(
        rng, b1=B1, b2=B2, eps=e8, eps_root=root,
        weight_decay=[0.0, 0.1, 0.01]))]
  if name == 'radam':
    return [name, dict(learning_rate=L(), **_opt_kw(
        rng, b1=B1, b2=[0.9, 0.5, 0.95, 0.75], eps=e8, eps_root=root,
        threshold=[4.5, 5.0, 6.0]))]
  if name == 'rmsprop':
    return [name, dict(learning_rate=L(), **_opt_kw(
        rng, decay=B1, eps=[1e-8, 1e-4, 0.125], initial_scale=[0.0, 1.0],
        centered=[False, True], momentum=[0.9, 0.5, 0.0],
        nesterov=[False, True]))]
  if name == 'sgd':
    return [name, dict(learning_rate=L(), **_opt_kw(
        rng, momentum=[0.9, 0.5, 0.0], nesterov=[False, True]))]
  if name == 'sm3':
    return [name, dict(learning_rate=rng.choice(LR), **_opt_kw(
        rng, momentum=[0.9, 0.5, 0.0]))]
  if name == 'yogi':
    return [name, dict(learning_rate=L(), **_opt_kw(
        rng, b1=B1, b2=B2, eps=[1e-3, 1e-2, 0.25]))]
  if name == 'noisy_sgd':
    return [name, dict(learning_rate=L(), **_opt_kw(
        rng, eta=[0.01, 1.0], gamma=[0.55, 1.0, 0.0], seed=[1, 2, 77]))]
  if name == 'add_noise':
    return [name, dict(eta=rng.choice([0.01, 1.0]),
                       gamma=rng.choice([0.55, 1.0, 0.0]),
                       seed=rng.randrange(1000))]
  if name == 'trace':
    d = dict(decay=rng.choice(B1), **_opt_kw(rng, nesterov=[False, True]))
    if caps.get('accum') and rng.random() < 0.4:
      d['accumulator_dtype'] = ['dtype', rng.choice(caps['accum'])]
    return [name, d]
  if name == 'ema':
    d = dict(decay=rng.choice(B1), **_opt_kw(rng, debias=[False, True]))
    if caps.get('accum') and rng.random() < 0.4:
      d['accumulator_dtype'] = ['dtype', rng.choice(caps['accum'])]
    return [name, d]
  if name == 'scale_by_rss':
    return [name, _opt_kw(rng, initial_accumulator_value=[0.0, 0.1, 1.0],
                          eps=[1e-7, 1e-4, 0.125])]
  if name in ('scale_by_rms', 'scale_by_stddev'):
    return [name, _opt_kw(rng, decay=B1, eps=[1e-8, 1e-4, 0.125],
                          initial_scale=[0.0, 1.0])]
  if name == 'scale_by_adam':
    return [name, _opt_kw(rng, b1=B1, b2=B2, eps=e8, eps_root=root)]
  if name == 'scale_by_belief':
    return [name, _opt_kw(rng, b1=B1, b2=B2, eps=[0.0, 1e-8, 1e-2],
                          eps_root=[1e-16, 1e-8, 0.125])]
  if name == 'scale_by_yogi':
    return [name, _opt_kw(rng, b1=B1, b2=B2, eps=[1e-3, 1e-2, 0.25],
                          eps_root=root,
                          initial_accumulator_value=[1e-6, 0.1])]
  if name == 'scale_by_radam':
    return [name, _opt_kw(rng, b1=B1, b2=[0.9, 0.5, 0.95, 0.75], eps=e8,
                          eps_root=root, threshold=[4.5, 5.0, 6.0])]
  if name == 'scale':
    return [name, dict(step_size=rng.choice([-0.5, 2.0, -0.1, 0.0, 1.0]))]
  if name == 'add_decayed_weights':
    return [name, dict(weight_decay=rng.choice([0.0, 0.1, 0.5, 0.01]))]
  if name == 'scale_by_schedule':
    return [name, dict(step_size_fn=gen_sched(rng, caps.get('horizon', 30)))]
  if name == 'scale_by_trust_ratio':
    return [name, _opt_kw(rng, min_norm=[0.0, 1e-3, 0.5])]
  if name == 'apply_every':
    return [name, dict(k=rng.randint(1, 5))]
  if name == 'scale_by_sm3':
    return [name, _opt_kw(rng, b1=B1, b2=[1.0, 0.9, 0.5], eps=[1e-8, 1e-4])]
  if name == 'clip':
    return [name, dict(max_delta=rng.choice([0.25, 1.0, 3.0]))]
  if name == 'clip_by_global_norm':
    return [name, dict(max_norm=rng.choice([0.5, 1.0, 4.0]))]
  if name == 'adaptive_grad_clip':
    return [name, dict(clipping=rng.choice([0.01, 0.5, 1.0]),
                       **_opt_kw(rng, eps=[1e-3, 0.1]))]
  return [name, {}]


INJECTABLE = ['adam', 'adamw', 'adabelief', 'adagrad', 'rmsprop', 'sgd',
              'trace', 'ema', 'scale_by_adam', 'scale_by_rms', 'scale',
              'add_decayed_weights', 'scale_by_rss', 'scale_by_trust_ratio',
              'clip', 'clip_by_global_norm', 'scale_by_stddev',
              'scale_by_yogi', 'scale_by_belief']


def gen_inject(rng, caps, name=None):
  pool = [n for n in INJECTABLE if caps.get('params', True) or n not in (
      'adamw', 'add_decayed_weights', 'scale_by_trust_ratio')]
  if name is None and caps.get('custom') and rng.random() < 0.3:
    return gen_custom(rng, caps)
  name = name or rng.choice(pool)
  kw = gen_named(rng, name, dict(caps, sched=False, accum=None))[1]
  kw = dict(kw)
  return ['inject', name, schedule_some(rng, kw, caps)]


def gen_custom(rng, caps):
  name = rng.choice(['decayed_momentum', 'masked_decay', 'scaled_adam']
                    if caps.get('params', True) else ['scaled_adam'])
  if name == 'decayed_momentum':
    kw = dict(learning_rate=rng.choice(LR), **_opt_kw(
        rng, weight_decay=[0.1, 0.01], momentum=[0.5, 0.9],
        nesterov=[False, True]))
    return ['inject', name, schedule_some(rng, kw, caps)]
  if name == 'masked_decay':
    kw = dict(weight_decay=rng.choice([0.1, 0.5]), **_opt_kw(
        rng, step_size=[-0.5, 1.0]))
    kw = schedule_some(rng, kw, caps)
    return ['inject', name, dict(kw, mask=['maskfn', rng.getrandbits(30)]),
            ['mask']]
  kw = dict(learning_rate=rng.choice(LR), **_opt_kw(
      rng, b1=B1, b2=B2, norm=[0.5, 4.0]))
  return ['inject', name, schedule_some(rng, kw, caps)]


def schedule_some(rng, kw, caps):
  """Turns some of the numeric hyperparameters into schedules."""
  for k, v in list(kw.items()):
    if isinstance(v, float) and rng.random() < 0.35:
      if k in ('b1', 'b2', 'decay'):
        a, b = sorted([rng.choice([0.5, 0.75, 0.9]), rng.choice([0.5, 0.9])])
        kw[k] = ['sched', 'linear_schedule', dict(
            init_value=a, end_value=b,
            transition_steps=rng.randint(1, caps.get('horizon', 30)))]
      elif k in ('learning_rate', 'step_size', 'weight_decay', 'max_norm',
                 'max_delta', 'norm'):
        kw[k] = gen_sched(rng, caps.get('horizon', 30), scale=0.5)
  return kw


def gen_mask(rng, caps=None):
  c = rng.random()
  bits = rng.getrandbits(30)
  if caps and caps.get('reshaped'):  # the inner tree is not the given one
    return ['fn', bits] if c < 0.7 else ['ndim', rng.randint(0, 2)]
  if c < 0.35:
    return ['full', bits]
  if c < 0.6:
    return ['fn', bits]
  if c < 0.75:
    return ['prefix', bits]
  return ['ndim', rng.randint(0, 2)]


def gen_tx(rng, caps, depth=0):
  """A random composition, at most 3 deep."""
  cap = lambda k: caps.get(k, True)
  r = rng.random()
  if depth >= 2 or r < 0.45:
    return gen_base(rng, caps)
  if r < 0.62:
    return ['chain', [gen_tx(rng, caps, depth + 1)
                      for _ in range(rng.randint(1, 3))]]
  opts = [(2, 'masked'), (2, 'maybe_update'), (2, 'multisteps'),
          (2, 'apply_if_finite')]
  if cap('flatten'):
    opts.append((2, 'flatten'))
  if cap('inject'):
    opts.append((3, 'inject'))
  if cap('lookahead') and depth == 0:
    opts.append((2, 'lookahead'))
  k = wchoice(rng, opts)
  # Inside lax.cond the updates must keep the dtype of the gradients.
  strict = dict(caps, accum=None)
  if k == 'masked':
    return [k, gen_tx(rng, dict(caps, reshaped=True, flatten=False),
                      depth + 1), gen_mask(rng, caps)]
  if k == 'maybe_update':
    return [k, gen_tx(rng, strict, depth + 1), gen_pred(rng)]
  if k == 'multisteps':
    return [k, gen_tx(rng, strict, depth + 1), gen_k(rng),
            rng.random() < 0.7]
  if k == 'apply_if_finite':
    return [k, gen_tx(rng, strict, depth + 1), rng.randint(0, 4)]
  if k == 'flatten':
    return [k, gen_tx(rng, dict(caps, reshaped=True), depth + 1)]
  if k == 'inject':
    return gen_inject(rng, caps)
  return [k, gen_tx(rng, strict, depth + 1), rng.randint(1, 5),
          rng.choice([0.5, 0.25, 1.0, 0.0, 0.8]), rng.random() < 0.5]
