"""A seam at every executed source line of optax.

sys.monitoring delivers a callback before each line of optax code; the
simulator uses it to raise an exception at a chosen point of an update, or to
park the running thread and let another one run. Nothing in /repo is changed.
"""
import sys
import threading
import types

from sim.boot import optax, REPO
from sim.base import HarnessError

_mon = sys.monitoring
_TOOL = 4
_tls = threading.local()
_installed = False
lines_seen = 0


class SimAbort(Exception):
  """Injected: e.g. allocation failure, lost device."""


class SimKill(BaseException):
  """Injected: e.g. KeyboardInterrupt, SystemExit."""


class SimMemory(MemoryError):
  pass


FLAVOURS = (SimAbort, SimKill, SimMemory)


def _code_objects():
  seen = set()

  def walk(c):
    if c in seen:
      return
    seen.add(c)
    for k in c.co_consts:
      if isinstance(k, types.CodeType):
        walk(k)
  prefix = REPO.rstrip('/') + '/optax/'
  for name, mod in list(sys.modules.items()):
    if not name.startswith('optax'):
      continue
    for v in list(vars(mod).values()):
      if isinstance(v, types.FunctionType):
        walk(v.__code__)
      elif isinstance(v, type):
        for w in vars(v).values():
          w = getattr(w, '__func__', w)
          w = getattr(w, 'fget', w) or w
          if isinstance(w, types.FunctionType):
            walk(w.__code__)
  return [c for c in seen if c.co_filename.startswith(prefix)]


def _on_line(code, line):
  hook = getattr(_tls, 'hook', None)
  if hook is not None:
    hook(code, line)


def install():
  global _installed
  if _installed:
    return
  _mon.use_tool_id(_TOOL, 'verif-sim')
  _mon.register_callback(_TOOL, _mon.events.LINE, _on_line)
  n = 0
  for c in _code_objects():
    _mon.set_local_events(_TOOL, c, _mon.events.LINE)
    n += 1
  if n < 50:
    raise HarnessError(f'seam: only {n} optax code objects found')
  _installed = True


class armed:
  """Runs the body with a hook on the lines executed by this thread."""

  def __init__(self, hook):
    self.hook = hook

  def __enter__(self):
    install()
    self.old = getattr(_tls, 'hook', None)
    _tls.hook = self.hook
    return self

  def __exit__(self, *a):
    _tls.hook = self.old
    return False


def abort_at(n, flavour):
  """Hook raising the exception at the n-th line (0 = first)."""
  left = [n]

  def hook(code, line):
    if left[0] == 0:
      left[0] = -1
      raise FLAVOURS[flavour % 3](f'{code.co_name}:{line}')
    left[0] -= 1
  hook.left = left
  return hook


def in_jax_internals():
  """Whether the current line runs under JAX tracing or compilation."""
  f = sys._getframe(2)
  while f is not None:
    fn = f.f_code.co_filename
    if '/jax/' in fn and not fn.endswith('tree_util.py'):
      return True
    f = f.f_back
  return False


class Threads:
  """Real threads of which exactly one runs, chosen by the schedule.

  `preempt` is [[lines, thread], ...]: after that many further optax lines
  (or operation boundaries) the running thread is parked and that one runs.
  """

  def __init__(self, bodies, preempt, ctx):
    self.bodies, self.ctx = bodies, ctx
    self.n = len(bodies)
    self.plan = list(preempt)
    self.left = self.plan[0][0] if self.plan else -1
    self.sems = [threading.Semaphore(0) for _ in bodies]
    self.done = [False] * self.n
    self.errors = [None] * self.n
    self.main = threading.Semaphore(0)
    self.current = 0
    self.switches = 0
    self.inside = 0

  def _tick(self, code=None, line=None):
    if self.left < 0 or not self.plan:
      return
    if self.left > 0:
      self.left -= 1
      return
    if code is not None and in_jax_internals():
      return  # not a place where a thread can be parked; try the next line
    _, target = self.plan.pop(0)
    self.left = self.plan[0][0] if self.plan else -1
    target %= self.n
    me = self.current
    if target == me or self.done[target]:
      return
    self.switches += 1
    if code is not None:
      self.inside += 1
    self.ctx.log('switch', me, target, code.co_name if code else 'op')
    self.ctx.sig('switch', me, target)
    self.current = target
    self.sems[target].release()
    self.sems[me].acquire()

  def boundary(self):
    self._tick()

  def _run(self, i):
    self.sems[i].acquire()
    try:
      with armed(self._tick):
        self.bodies[i](self)
    except BaseException as e:  # pylint: disable=broad-except
      self.errors[i] = e
    self.done[i] = True
    for k in range(1, self.n + 1):
      j = (i + k) % self.n
      if not self.done[j]:
        self.current = j
        self.sems[j].release()
        return
    self.main.release()

  def run(self):
    install()
    ts = [threading.Thread(target=self._run, args=(i,), daemon=True)
          for i in range(self.n)]
    for t in ts:
      t.start()
    self.sems[0].release()
    if not self.main.acquire(timeout=300):
      raise HarnessError('threads did not finish')
    for t in ts:
      t.join(10)
    for e in self.errors:
      if e is not None:
        raise e
