"""Shared vocabulary: violations, run context, seeded randomness."""
import hashlib
import json
import random


class Violation(Exception):
  """The property does not hold in this execution."""

  def __init__(self, kind, msg, **data):
    super().__init__(f'{kind}: {msg}')
    self.kind = kind
    self.msg = msg
    self.data = data


class HarnessError(Exception):
  pass


class Ctx:
  """Collects what one execution did; never influences it."""

  def __init__(self):
    self.faults = {}
    self.probes = {}
    self.ops = {}
    self.checks = 0
    self.steps = 0
    self.sim_ms = 0.0
    self.known = {}
    self._sig = hashlib.sha256()
    self._log = hashlib.sha256()
    self.trace = None

  def fault(self, kind, n=1):
    self.faults[kind] = self.faults.get(kind, 0) + n

  def probe(self, name, n=1):
    self.probes[name] = self.probes.get(name, 0) + n

  def op(self, name, n=1):
    self.ops[name] = self.ops.get(name, 0) + n

  def check(self, n=1):
    self.checks += n

  def sig(self, *a):
    """Feeds the schedule signature: what happened, in which order."""
    self._sig.update(repr(a).encode())

  def log(self, *a):
    """Feeds the event log used to prove determinism, and the trace."""
    s = repr(a)
    self._log.update(s.encode())
    if self.trace is not None:
      self.trace.append(s)

  def finding(self, key, what):
    self.known.setdefault(key, what)

  def schedule_hash(self):
    return self._sig.hexdigest()[:16]

  def log_hash(self):
    return self._log.hexdigest()[:16]


def rng_for(*parts):
  return random.Random('|'.join(str(p) for p in parts))


def canon(obj):
  return json.dumps(obj, sort_keys=True, separators=(',', ':'))


def wchoice(rng, pairs):
  """Weighted choice from [(weight, value), ...]."""
  total = sum(w for w, _ in pairs)
  r = rng.random() * total
  for w, v in pairs:
    r -= w
    if r < 0:
      return v
  return pairs[-1][1]
