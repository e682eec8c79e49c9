"""Executes the operations of a simulated training cluster on real optax.

Everything here is deterministic given the program. The parts of a node that
survive a crash are its disk and the shared gradient log; its parameters,
optimizer state and the optimizer object itself live in memory and are lost.
"""
import pickle
import zlib

from sim.boot import np, jnp, jax, optax
from sim.base import Violation, HarnessError
from sim import trees, cmp, seam


def sut(fn, *a, **k):
  """Calls the system under test: an exception there is its failure."""
  try:
    return fn(*a, **k)
  except (Violation, HarnessError, seam.SimAbort, seam.SimKill,
          seam.SimMemory):
    raise
  except Exception as e:  # pylint: disable=broad-except
    raise Violation('raised', f'{type(e).__name__}: {str(e)[:300]}') from e


def fingerprint(tree):
  """Identity, type and exact content of a nest of containers and arrays."""
  if isinstance(tree, dict):
    return ('d', id(tree), tuple((k, fingerprint(v)) for k, v in tree.items()))
  if isinstance(tree, (list, tuple)):
    return (type(tree).__name__, id(tree), tuple(fingerprint(v) for v in tree))
  if isinstance(tree, trees.Box):
    return ('box', id(tree), fingerprint(tree.parts))
  if tree is None or isinstance(tree, (int, float, bool, str)):
    return repr(tree)
  a = np.asarray(tree)
  return (id(tree), str(a.dtype), a.shape, zlib.crc32(a.tobytes()))


class Process:
  """One incarnation of a trainer: builds its optimizer from scratch."""

  def __init__(self, make_tx):
    self.tx = sut(make_tx)
    self.traces = 0
    self._jit = self._scan = None

  def _body(self, g, s, p):
    u, s2 = self.tx.update(g, s, p)
    return u, s2, optax.apply_updates(p, u)

  def eager(self, g, s, p):
    return sut(self._body, g, s, p)

  def jit(self, g, s, p):
    if self._jit is None:
      def f(g, s, p):
        self.traces += 1
        return self._body(g, s, p)
      self._jit = jax.jit(f)
    return sut(self._jit, g, s, p)

  def scan(self, gs, s, p):
    if self._scan is None:
      def body(carry, g):
        u, s2, p2 = self._body(g, *carry)
        return (s2, p2), (u, s2, p2)

      def f(gs, s, p):
        return jax.lax.scan(body, (s, p), gs)
      self._scan = jax.jit(f)
    return sut(self._scan, gs, s, p)


class Oracle:
  """Base: sees every committed step of every node."""

  def start(self, node):
    pass

  def step(self, node, pos, entry, g, s, p, u, s2, p2):
    pass

  def end(self):
    pass


class Node:

  def __init__(self, world, n):
    self.w, self.n = world, n
    self.mode = world.program.get('mode', 'jit')
    self.disk = []      # [(id, blob)], oldest first
    self.inflight = {}  # id -> blob
    self.history = {}   # pos -> (g, s, p) arguments seen in this incarnation
    self.up = True
    self.pending = None
    self.restarts = 0
    self.boot(None)

  # ------------------------------------------------------------- lifecycle
  def boot(self, opts):
    w = self.w
    if opts is None or w.fresh or w.shared is None:
      self.proc = Process(w.make_tx)
      if w.shared is None:
        w.shared = self.proc
    else:
      self.proc = w.shared
    self.history = {}
    blob = None
    while self.disk:
      i, b = self.disk[-1]
      if len(b) > 8 and zlib.crc32(b[4:]) == int.from_bytes(b[:4], 'little'):
        blob = b[4:]
        break
      self.disk.pop()
      w.ctx.fault('ckpt_discarded')
    if blob is None:
      self.pos = 0
      self.params = w.init_params()
      self.state = sut(self.proc.tx.init, self.params)
      if opts is not None:
        w.ctx.probe('restart_from_scratch')
    else:
      pos, params, state = pickle.loads(blob)
      self.pos = pos
      if opts and opts.get('init'):
        like = sut(self.proc.tx.init, w.init_params())
        if trees.structure(like) != trees.structure(state):
          raise Violation('restore', 'saved state has structure '
                          f'{trees.structure(state)}, a fresh process expects '
                          f'{trees.structure(like)}')
      if not (opts and opts.get('host')):
        params, state = trees.to_jnp(params), trees.to_jnp(state)
      else:
        w.ctx.probe('restored_as_host_arrays')
      self.params, self.state = params, state
      w.ctx.probe('restart_from_checkpoint')
    w.oracle.start(self)

  def begin_ckpt(self, i):
    body = pickle.dumps((self.pos, trees.to_np(self.params),
                         trees.to_np(self.state)), protocol=4)
    self.inflight[i] = zlib.crc32(body).to_bytes(4, 'little') + body

  def end_ckpt(self, i, fate):
    blob = self.inflight.pop(i, None)
    if blob is None:
      return
    ctx = self.w.ctx
    if fate == 'ok':
      self.disk.append((i, blob))
      ctx.op('ckpt_durable')
    elif fate == 'torn':
      ctx.fault('ckpt_torn')
      self.disk.append((i, blob[:max(5, len(blob) * (i * 37 % 97) // 100)]))
    elif fate == 'bitrot':
      ctx.fault('ckpt_bitrot')
      b = bytearray(blob)
      b[4 + (i * 7919) % (len(b) - 4)] ^= 1 << (i % 8)
      self.disk.append((i, bytes(b)))
    else:
      ctx.fault('ckpt_' + fate)
    if len(self.disk) > 4:
      self.disk.pop(0)

  def crash(self):
    self.up = False
    self.w.ctx.fault('crash')
    self.params = self.state = self.proc = None
    self.history = {}
    # writes in flight stay half done
    self.pending = None

  # ------------------------------------------------------------------ steps
  def grads(self, pos):
    return self.w.grads(pos)

  def step(self):
    w = self.w
    pos, g = self.pos, self.grads(self.pos)
    w.before_step(self, pos)
    s, p = self.state, self.params
    if w.track_args:
      self.history[pos] = (g, s, p)
    extra, self.pending = self.pending, None
    fp = None
    if extra is not None or w.check_args:
      fp = (fingerprint(g), fingerprint(s), fingerprint(p))
    if extra is not None:
      if extra[0] == 'a':
        hook = seam.abort_at(extra[1], extra[2])
        fired = False
        try:
          with seam.armed(hook):
            self.proc.eager(g, s, p)
        except (seam.SimAbort, seam.SimKill, seam.SimMemory):
          fired = True
        w.ctx.fault('abort_in_update' if fired else 'result_dropped')
        w.ctx.sig('abort', self.n, extra[1], fired)
      elif extra[0] == 'd':
        for _ in range(extra[1]):
          self.run_one(g, s, p)
          w.ctx.fault('speculative_execution')
      now = (fingerprint(g), fingerprint(s), fingerprint(p))
      for name, x, y in zip(('gradients', 'state', 'parameters'), fp, now):
        if x != y:
          raise Violation('argument-changed', f'{name} passed to an update '
                          f'that was {"interrupted" if extra[0] == "a" else "repeated"} changed', pos=pos)
    u, s2, p2 = self.run_one(g, s, p)
    if w.check_args:
      now = (fingerprint(g), fingerprint(s), fingerprint(p))
      for name, x, y in zip(('gradients', 'state', 'parameters'), fp, now):
        if x != y:
          raise Violation('argument-changed',
                          f'{name} changed during an update', pos=pos)
    self.commit(pos, g, s, p, u, s2, p2)

  def run_one(self, g, s, p):
    return (self.proc.eager if self.mode == 'eager' else self.proc.jit)(g, s, p)

  def commit(self, pos, g, s, p, u, s2, p2):
    w = self.w
    self.state, self.params, self.pos = s2, p2, pos + 1
    w.ctx.steps += 1
    w.ctx.op('step_' + self.mode)
    if w.log_steps:
      w.ctx.log('step', self.n, pos, trees.digest(u))
    w.oracle.step(self, pos, w.log[pos], g, s, p, u, s2, p2)

  def chunk(self, k):
    w = self.w
    k = min(k, len(w.log) - self.pos)
    if k != w.chunk:
      for _ in range(k):
        self.step()
      return
    gs = [self.grads(self.pos + i) for i in range(k)]
    stacked = jax.tree_util.tree_map(lambda *x: np.stack(x), *gs)
    w.before_step(self, self.pos)
    s, p = self.state, self.params
    _, (us, ss, ps) = self.proc.scan(stacked, s, p)
    us, ss, ps = trees.to_np(us), trees.to_np(ss), trees.to_np(ps)
    w.ctx.op('scan_chunks')
    for i in range(k):
      pick = lambda t: jax.tree_util.tree_map(lambda x: jnp.asarray(x[i]), t)
      u, s2, p2 = pick(us), pick(ss), pick(ps)
      self.commit(self.pos, gs[i], s, p, u, s2, p2)
      s, p = s2, p2

  def stale(self, back):
    """Repeats an earlier update with its old arguments; drops the result."""
    pos = self.pos - back
    if pos not in self.history:
      return
    g, s, p = self.history[pos]
    r = self.run_one(g, s, p)
    self.w.ctx.fault('stale_reexecution')
    self.w.oracle.replayed(self, pos, r)


class World:

  def __init__(self, program, ctx, oracle, make_tx, *, fresh=False,
               grads_fn=None, params_fn=None, check_args=False,
               track_args=False, host_grads=False, before_step=None,
               log_steps=True):
    self.program, self.ctx, self.oracle = program, ctx, oracle
    self.make_tx, self.fresh = make_tx, fresh
    self.log = program['log']
    self.chunk = program.get('chunk', 0)
    self.shared = None
    self.check_args, self.track_args = check_args, track_args
    self._grads = {}
    self._gfn = grads_fn
    self._pfn = params_fn
    self.host_grads = host_grads
    self.log_steps = log_steps
    self._before = before_step
    for e in self.log:
      if e.get('f'):
        ctx.fault('grad_' + e['f'])
    oracle.world = self

  def before_step(self, node, pos):
    if self._before is not None:
      self._before(node, pos)

  def init_params(self):
    if self._pfn is not None:
      return self._pfn()
    return trees.to_jnp(trees.params_tree(self.program['tree']))

  def grads(self, pos):
    if pos not in self._grads:
      if self._gfn is not None:
        g = self._gfn(pos)
      else:
        g = trees.grads_tree(self.program['tree'], self.log[pos])
      if not self.host_grads:
        g = trees.to_jnp(g)
      self._grads[pos] = g
    return self._grads[pos]

  def run(self, drain=True):
    prog, ctx = self.program, self.ctx
    n = prog.get('nodes', 1)
    self.nodes = [Node(self, i) for i in range(n)]
    ctx.sim_ms += prog.get('sim_ms', 0)
    for f, c in prog.get('planned', {}).items():
      if f in ('stall', 'net_delay'):
        ctx.fault(f, c)
    for op in prog['ops']:
      self.apply(op)
    if drain:  # faults have stopped: every node must reach the end
      for nd in self.nodes:
        if not nd.up:
          nd.up = True
          nd.boot({'init': 1})
        nd.pending = None
        while nd.pos < len(self.log):
          nd.step()
    self.oracle.end()

  def apply(self, op):
    kind, ctx = op[0], self.ctx
    nd = self.nodes[op[1] % len(self.nodes)]
    if kind == 'r':
      if not nd.up:
        nd.up = True
        nd.restarts += 1
        nd.boot(op[2])
        ctx.sig('r', op[1], nd.pos)
        ctx.log('restart', op[1], nd.pos)
      return
    if not nd.up:
      if kind == 'cd':
        nd.end_ckpt(op[2], 'torn')
      return
    if kind == 's':
      if nd.pos < len(self.log):
        ctx.sig('s', op[1], nd.pos, nd.mode)
        nd.step()
    elif kind == 'S':
      if nd.pos < len(self.log):
        ctx.sig('S', op[1], nd.pos)
        nd.chunk(op[2])
    elif kind == 'cb':
      nd.begin_ckpt(op[2])
      ctx.sig('cb', op[1])
    elif kind == 'cd':
      nd.end_ckpt(op[2], op[3])
      ctx.sig('cd', op[1], op[3])
    elif kind == 'x':
      ctx.sig('x', op[1], nd.pos)
      nd.crash()
    elif kind in 'ad':
      nd.pending = [kind] + op[2:]
    elif kind == 'z':
      nd.stale(op[2])
    elif kind == 'm':
      nd.mode = op[2]
      ctx.sig('m', op[1], op[2])
