"""Discrete-event simulation of a training cluster in virtual time.

Gradient workers send messages over a lossy network to a log (the order in
which the trainers consume gradients); trainer replicas consume the log, take
asynchronous checkpoints to a simulated disk, stall, crash and restart. The
seed decides every delay, fault and interleaving. The result is the log (the
delivered gradients, as data) and the operations of the trainers in the order
of their virtual times; executing them needs no further random choice.
"""
import heapq

from sim.base import wchoice

# kinds of operations of a trainer n (ops are lists: [kind, n, ...])
#  s        one training step on the next log entry
#  S k      k steps in one compiled loop
#  cb i     begin asynchronous checkpoint i: snapshot now, durable later
#  cd i f   checkpoint i reaches the disk with fate f
#  x        crash: memory is lost
#  r o      restart from the newest intact checkpoint, options o
#  a l e    the next step is interrupted by an exception at line l
#  d m      the next step is executed m extra times, results dropped
#  z b      re-execution of the step b back, with its old arguments
#  m mode   execution mode from now on


class Knobs(dict):
  __getattr__ = dict.get


DEFAULT = dict(
    steps=24, nodes=1, kinds=((6, 'n'), (1, 'sp'), (0.6, 'one')),
    exps=(-2, 2), p_lost=0.05, p_dup=0.05, p_reorder=0.1, p_stuck=0.02,
    p_spike=0.03, p_tiny=0.02, p_cancel=0.02, p_poison=0.0, poison_runs=True,
    p_crash=0.04, p_ckpt=0.15, p_abort=0.0, p_spec=0.0, p_stale=0.0,
    p_mode=0.0, modes=('jit',), chunk=0, p_chunk=0.0, p_stall=0.05,
    lines=120, p_noinit=0.3, p_host=0.4)


def swarm(rng, knobs):
  """Per-run subset of fault kinds and rates (swarm testing)."""
  k = Knobs(DEFAULT)
  k.update(knobs)
  for f in list(k):
    if f.startswith('p_') and f not in ('p_noinit', 'p_host') and k[f]:
      r = rng.random()
      if r < 0.3 and f not in knobs.get('keep', ()):
        k[f] = 0.0
      elif r > 0.8:
        k[f] = min(0.6, k[f] * 3)
  return k


class Network:
  """Workers -> log. Returns the delivered entries in order of arrival."""

  def __init__(self, rng, k, stats):
    self.rng, self.k, self.stats = rng, k, stats

  def run(self):
    rng, k = self.rng, self.k
    q, seq, now = [], 0, 0.0
    n_workers = rng.randint(1, 4)
    next_at = [rng.uniform(0, 5) for _ in range(n_workers)]
    stuck = [None] * n_workers
    slow = [rng.choice([1, 1, 1, 4]) for _ in range(n_workers)]
    last = None
    made = 0
    log = []
    poison_left = 0
    timeout = 40.0
    while len(log) < k.steps:
      # the next worker finishes its gradient
      w = min(range(n_workers), key=lambda i: next_at[i])
      if made < k.steps * 3 and (not q or next_at[w] <= q[0][0]):
        now = next_at[w]
        next_at[w] += rng.uniform(2, 10) * slow[w]
        made += 1
        if stuck[w] is not None and stuck[w][1] > 0:
          e = dict(stuck[w][0])
          stuck[w] = (stuck[w][0], stuck[w][1] - 1)
          e['f'] = 'stuck'
        else:
          stuck[w] = None
          e = {'k': wchoice(rng, k.kinds), 's': rng.randrange(1 << 24),
               'e': rng.randint(*k.exps)}
          r = rng.random()
          if r < k.p_spike:
            e['e'] += rng.choice([6, 10, 14])
            e['f'] = 'spike'
          elif r < k.p_spike + k.p_tiny:
            e['e'] -= rng.choice([10, 20])
            e['f'] = 'tiny'
          elif r < k.p_spike + k.p_tiny + k.p_stuck:
            e['k'] = 'c'
            stuck[w] = (e, rng.choice([5, 20, 60, 200]))
            e['f'] = 'stuck'
          elif r < k.p_spike + k.p_tiny + k.p_stuck + k.p_cancel and last:
            e = dict(last, g=-last.get('g', 1), f='cancel')
            e.pop('p', None)
        last = e
        r = rng.random()
        delay = rng.uniform(1, 8)
        if rng.random() < k.p_reorder:
          delay += rng.uniform(5, 30)
          self.stats['net_delay'] = self.stats.get('net_delay', 0) + 1
        if r < k.p_lost:
          # the receiver times out and uses no gradient for this slot
          seq += 1
          heapq.heappush(q, (now + timeout, seq, dict(
              k='z', f='lost')))
        else:
          seq += 1
          heapq.heappush(q, (now + delay, seq, e))
          if r > 1 - k.p_dup:
            seq += 1
            heapq.heappush(q, (now + delay * 2, seq, dict(e, f='dup')))
        continue
      now, _, e = heapq.heappop(q)
      # corruption on the wire
      if k.p_poison:
        if poison_left == 0 and rng.random() < k.p_poison:
          poison_left = rng.choice([1, 1, 1, 2, 3, 4, 5, 8]) \
              if k.poison_runs else 1
        if poison_left:
          poison_left -= 1
          e = dict(e, p=[[rng.randrange(64), rng.randrange(64),
                          rng.choice(['nan', 'inf', '-inf'])]
                         for _ in range(rng.choice([1, 1, 1, 2]))],
                   f='poison')
      if e.get('f'):
        self.stats[e['f']] = self.stats.get(e['f'], 0) + 1
      e['t'] = round(now, 1)
      log.append(e)
    return log, now


class Replica:

  def __init__(self, n):
    self.n, self.pos, self.up = n, 0, True
    self.inflight = []
    self.next_ckpt = 0


def simulate(rng, knobs):
  """Returns (log, ops, virtual milliseconds, fault counts planned)."""
  k = swarm(rng, knobs)
  stats = {}
  log, t_net = Network(rng, k, stats).run()
  ops = []
  reps = [Replica(i) for i in range(k.nodes)]
  q, seq = [], 0
  horizon_pos = len(log)

  def push(t, what, n, *a):
    nonlocal seq
    seq += 1
    heapq.heappush(q, (t, seq, what, n, a))

  ck = 0
  for r in reps:
    push(rng.uniform(0, 3), 'work', r.n)
  if len(k.modes) > 1 or k.modes[0] != 'jit':
    for r in reps:
      ops.append(['m', r.n, rng.choice(k.modes)])
  budget = k.steps * k.nodes * 4 + 40
  crashes = [0] * k.nodes
  now = 0.0
  while q and budget > 0:
    budget -= 1
    now, _, what, n, a = heapq.heappop(q)
    r = reps[n]
    if what == 'work':
      if not r.up or a and a[0] != crashes[n]:
        continue
      if r.pos >= horizon_pos:
        continue
      if len(k.modes) > 1 and rng.random() < k.p_mode:
        ops.append(['m', n, rng.choice(k.modes)])
      x = rng.random()
      if x < k.p_abort:
        ops.append(['a', n, rng.randrange(k.lines), rng.randrange(3)])
      elif x < k.p_abort + k.p_spec:
        ops.append(['d', n, rng.randint(1, 2)])
      elif x < k.p_abort + k.p_spec + k.p_stale:
        ops.append(['z', n, rng.randint(1, 6)])
      if k.chunk and rng.random() < k.p_chunk and r.pos + k.chunk <= \
          horizon_pos:
        ops.append(['S', n, k.chunk])
        r.pos += k.chunk
      else:
        ops.append(['s', n])
        r.pos += 1
      if rng.random() < k.p_ckpt:
        ck += 1
        ops.append(['cb', n, ck])
        fate = wchoice(rng, [(7, 'ok'), (1, 'full'), (1, 'lost'),
                             (1, 'bitrot')])
        push(now + rng.uniform(0.5, 25), 'durable', n, ck, fate, crashes[n])
        if k.p_crash and rng.random() < 0.25:  # crash near a checkpoint
          push(now + rng.uniform(0, 20), 'crash', n, crashes[n])
      if k.p_crash and rng.random() < k.p_crash:
        push(now + rng.uniform(0, 4), 'crash', n, crashes[n])
      d = rng.uniform(2, 8)
      if rng.random() < k.p_stall:
        d += rng.uniform(20, 200)
        stats['stall'] = stats.get('stall', 0) + 1
      push(now + d, 'work', n, crashes[n])
    elif what == 'durable':
      i, fate, epoch = a
      if epoch != crashes[n]:
        fate = 'torn'  # the writer died half way
      ops.append(['cd', n, i, fate])
    elif what == 'crash':
      if not r.up or a[0] != crashes[n] or crashes[n] >= 4:
        continue
      crashes[n] += 1
      r.up = False
      ops.append(['x', n])
      push(now + rng.uniform(5, 60), 'restart', n)
    elif what == 'restart':
      r.up = True
      o = {'init': int(rng.random() >= k.p_noinit),
           'host': int(rng.random() < k.p_host)}
      ops.append(['r', n, o])
      r.pos = max(0, r.pos - 3)  # planning only: execution knows better
      push(now + rng.uniform(1, 3), 'work', n, crashes[n])
  return log, ops, round(max(now, t_net), 1), stats
