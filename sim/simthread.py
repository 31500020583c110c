"""The standard library's threading, queue and time on the simulator.

The real sources of `threading` and `queue` are executed once more on top of
simulated locks, thread starts and clocks, so that code importing them runs
under the scheduler without changes.
"""
import sys
import threading as real_threading
import time as real_time
import types
import _thread as real__thread

from sim import sched


def _task():
  return getattr(sched._local, "task", None)  # pylint: disable=protected-access


class Lock(sched.SimLock):

  def _at_fork_reinit(self):
    self.__init__()


def get_ident():
  t = _task()
  return real__thread.get_ident() if t is None else 10**6 + (
      sched.ACTIVE.tasks.index(t))


def start_new_thread(fn, args, kwargs=None):
  sim = sched.ACTIVE
  daemon = bool(getattr(getattr(fn, "__self__", None), "daemon", False))
  name = "thread%d" % len(sim.tasks)

  def body():
    try:
      fn(*args, **(kwargs or {}))
    finally:
      for l in getattr(t, "sentinels", ()):
        if l.locked():
          l.release()
  t = sim.spawn(name, body, daemon)
  sched.point("thread start")
  return 10**6 + sim.tasks.index(t)


def _set_sentinel():
  l = Lock()
  t = _task()
  if t is not None:
    if not hasattr(t, "sentinels"):
      t.sentinels = []
    t.sentinels.append(l)
  return l


class Clock:
  """time, with the simulation's clock."""

  def __getattr__(self, name):
    return getattr(real_time, name)

  @staticmethod
  def time():
    sim = sched.ACTIVE
    return 1.6e9 + (sim.now if sim else 0.0)

  @staticmethod
  def monotonic():
    sim = sched.ACTIVE
    return sim.now if sim else 0.0

  perf_counter = monotonic

  @staticmethod
  def sleep(s):
    sleep(s)


def sleep(s):
  sim, t = sched.ACTIVE, _task()
  if sim is None or t is None:
    return
  if s > 0:
    sim.block(t, "sleep", float(s))
  else:
    sched.point("sleep")


def _fake_thread():
  m = types.ModuleType("_thread")
  for k in dir(real__thread):
    if not k.startswith("__") and k != "RLock":
      setattr(m, k, getattr(real__thread, k))
  m.allocate_lock = m.allocate = Lock
  m.LockType = Lock
  m.get_ident = get_ident
  m.get_native_id = get_ident
  m.start_new_thread = m.start_new = start_new_thread
  m._set_sentinel = _set_sentinel
  m._excepthook = lambda args: None
  return m


def _exec(name, real, subst):
  m = types.ModuleType(name)
  with open(real.__file__) as f:
    code = compile(f.read(), real.__file__, "exec")
  old = {k: sys.modules.get(k) for k in subst}
  sys.modules.update(subst)
  try:
    exec(code, m.__dict__)  # pylint: disable=exec-used
  finally:
    for k, v in old.items():
      if v is None:
        sys.modules.pop(k, None)
      else:
        sys.modules[k] = v
  return m


def build():
  """New simulated threading, queue and time modules."""
  import queue as real_queue  # pylint: disable=g-import-not-at-top
  import os  # pylint: disable=g-import-not-at-top
  clock = Clock()
  fork = os.register_at_fork
  os.register_at_fork = lambda **k: None
  try:
    th = _exec("threading", real_threading, {
        "_thread": _fake_thread(), "time": clock})
  finally:
    os.register_at_fork = fork
  no_c = types.ModuleType("_queue")  # forces the Python SimpleQueue
  q = _exec("queue", real_queue, {
      "threading": th, "time": clock, "_queue": no_c})
  th.excepthook = lambda args: None
  return {"threading": th, "queue": q, "time": clock}


class Patched:
  """While importing: modules get the simulated ones."""

  def __init__(self, mods):
    self.mods = mods

  def __enter__(self):
    self.old = {k: sys.modules.get(k) for k in self.mods}
    sys.modules.update(self.mods)

  def __exit__(self, *exc):
    for k, v in self.old.items():
      if v is None:
        sys.modules.pop(k, None)
      else:
        sys.modules[k] = v
    return False
