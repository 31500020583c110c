"""Deterministic scheduler for real threads, and the fault plane.

Exactly one simulated task runs at any time; it gives up the baton only inside
`Sim.point`, which runs at every monitored event of Haiku code (sys.monitoring)
and at every explicit point of the workload. Which task runs next is decided by
a seeded policy or by an explicit list of decisions (replay).
"""
import dis
import random
import sys
import threading
import zlib
import _thread

_CALL_EX = dis.opmap["CALL_FUNCTION_EX"]
MON = sys.monitoring
TOOL = 4
E = MON.events

_real_Lock = _thread.allocate_lock
_real_RLock = threading.RLock

ACTIVE = None          # the Sim that is running, if any
_local = threading.local()

EVENT_SETS = {
    "line": E.LINE,
    "line+call": E.LINE | E.PY_START | E.PY_RETURN | E.CALL,
    "instr": E.INSTRUCTION | E.PY_START | E.PY_RETURN,
}
_current_events = {}
_installed = False
_mode_events = 0


class Deadlock(Exception):
  pass


class StepLimit(Exception):
  pass


class HarnessError(Exception):
  """Something is wrong with the simulator, not with the code under test."""


class _Abort(BaseException):
  """Unwinds a task that can never run again."""


# ---------------------------------------------------------------- monitoring


def _ensure_tool():
  global _installed
  if _installed:
    return
  MON.use_tool_id(TOOL, "haiku-sim")
  MON.register_callback(TOOL, E.LINE, _on_line)
  MON.register_callback(TOOL, E.PY_START, _on_start)
  MON.register_callback(TOOL, E.PY_RETURN, _on_return)
  MON.register_callback(TOOL, E.INSTRUCTION, _on_instr)
  MON.register_callback(TOOL, E.CALL, _on_call)
  _installed = True


def instrument(codes):
  """Called for newly compiled Haiku code objects."""
  _ensure_tool()
  for c in codes:
    MON.set_local_events(TOOL, c, _mode_events)


def set_mode(events):
  """Selects which events of Haiku code are seam points."""
  global _mode_events
  _ensure_tool()
  if events == _mode_events:
    return
  _mode_events = events
  from sim import load  # pylint: disable=g-import-not-at-top
  for c in load.all_codes():
    MON.set_local_events(TOOL, c, events)


def _on_line(code, line):
  sim = ACTIVE
  if sim is not None:
    task = getattr(_local, "task", None)
    if task is not None and not task.nopreempt:
      sim.hit(task, code, line)


def _on_start(code, off):
  sim = ACTIVE
  if sim is not None:
    task = getattr(_local, "task", None)
    if task is not None and not task.nopreempt:
      sim.hit(task, code, 0)


def _on_return(code, off, val):
  sim = ACTIVE
  if sim is not None:
    task = getattr(_local, "task", None)
    if task is not None and not task.nopreempt:
      sim.hit(task, code, -1)


def _on_instr(code, off):
  sim = ACTIVE
  if sim is not None:
    task = getattr(_local, "task", None)
    if task is not None and not task.nopreempt:
      sim.hit(task, code, 100000 + off)


def _on_call(code, off, callee, arg0):
  plane = getattr(_local, "plane", None)
  if plane is not None and plane.armed:
    mod = getattr(callee, "__module__", None)
    if mod.__class__ is str and mod.startswith("jax"):
      # Raising at f(*args) corrupts memory in CPython 3.12 (the argument list
      # is released twice), so those call sites cannot fail.
      if code.co_code[off] != _CALL_EX:
        plane.on_jax_call(code, callee)


class FaultPlane:
  """Makes the k-th call from Haiku into JAX fail, on the thread it belongs to."""

  def __init__(self):
    self.armed = False
    self.countdown = None
    self.exc = None
    self.seen = 0
    self.fired = []

  def arm(self, k, exc):
    self.countdown = k
    self.exc = exc
    self.seen = 0
    self.armed = True

  def disarm(self):
    """Returns whether the armed fault fired."""
    self.armed = False
    fired = self.countdown == -1
    self.countdown = None
    self.exc = None
    return fired

  def on_jax_call(self, code, callee):
    self.seen += 1
    if self.countdown is None or self.countdown < 0:
      return
    if self.countdown == 0:
      self.countdown = -1
      self.armed = False
      exc = self.exc
      self.fired.append((code.co_name, getattr(callee, "__name__", "?")))
      raise exc
    self.countdown -= 1


def plane():
  p = getattr(_local, "plane", None)
  if p is None:
    p = _local.plane = FaultPlane()
  return p


def point(label="user"):
  """An explicit preemption point in workload code."""
  sim = ACTIVE
  if sim is not None:
    task = getattr(_local, "task", None)
    if task is not None and not task.nopreempt:
      sim.hit(task, None, label)


def on_thread(fn):
  """Runs fn on a new thread and waits for it. Returns or raises its outcome."""
  sim = ACTIVE
  me = getattr(_local, "task", None)
  box = []

  def target():
    try:
      box.append((fn(), None))
    except _Abort:
      raise
    except BaseException as e:  # pylint: disable=broad-except
      box.append((None, e))
  if sim is not None and me is not None:
    me.children += 1

    def task():
      try:
        target()
      finally:
        if me.blocked is not None:
          sim.unblock(me)
    sim.spawn("%s.%d" % (me.name, me.children), task)
    sim.block(me, "join")
  else:
    t = threading.Thread(target=target)
    t.start()
    t.join()
  r, e = box[0]
  if e is not None:
    raise e
  return r


class Worker:
  """A long lived thread that executes functions one at a time."""

  def __init__(self):
    self.go = _real_Lock()
    self.done = _real_Lock()
    self.go.acquire()
    self.done.acquire()
    self.fn = None
    _thread.start_new_thread(self._loop, ())

  def _loop(self):
    while True:
      self.go.acquire()
      if self.fn is None:
        return
      try:
        self.out = (self.fn(), None)
      except BaseException as e:  # pylint: disable=broad-except
        self.out = (None, e)
      self.done.release()

  def call(self, fn):
    self.fn = fn
    self.go.release()
    self.done.acquire()
    r, e = self.out
    if e is not None:
      raise e
    return r

  def stop(self):
    self.fn = None
    self.go.release()


# ----------------------------------------------------------------- policies


_place = {}      # code object -> (file, line, name)
_code_at = {}    # the inverse
_write_cache = {}
_MUTATORS = frozenset((
    "append", "appendleft", "add", "pop", "popleft", "push", "update",
    "setdefault", "extend", "insert", "clear", "remove", "discard", "popitem"))


def _writes(f):
  """{location: weight} of what may change shared data in a function."""
  out = _write_cache.get(f)
  if out is not None:
    return out
  out = _write_cache[f] = {}
  code = _code_at.get(f)
  if code is None:
    return out
  line = None
  outer = False    # the line refers to a variable of an enclosing scope
  for i in dis.get_instructions(code):
    if i.starts_line is not None:
      line, outer = i.starts_line, False
    op = i.opname
    w = 0
    if op in ("LOAD_DEREF", "LOAD_GLOBAL"):
      outer = outer or op == "LOAD_DEREF" or str(i.argval).islower()
    if op in ("STORE_GLOBAL", "DELETE_GLOBAL") or (
        op in ("STORE_DEREF", "DELETE_DEREF")
        and i.argval in code.co_freevars):
      w = 6
    elif op in ("STORE_SUBSCR", "DELETE_SUBSCR") or (
        op in ("LOAD_ATTR", "LOAD_METHOD") and i.argval in _MUTATORS):
      w = 3 if outer else 1
    elif op in ("STORE_ATTR", "DELETE_ATTR"):
      w = 2 if outer else 1
    if w:
      for loc in (line, 100000 + i.offset):
        out[loc] = max(out.get(loc, 0), w)
  return out


# ------------------------------------------------------------------- policy


class Policy:
  """Decides at each point whether to switch, and to whom."""

  def __init__(self, spec):
    self.spec = spec
    self.kind = spec["kind"]
    self.rng = random.Random(spec.get("seed", 0))
    self.locs = {}
    if self.kind == "walk":
      self.p = spec["p"]
    elif self.kind == "pct":
      self.horizon = spec["horizon"]
      self.change = sorted(
          self.rng.randrange(self.horizon) for _ in range(spec["depth"]))
      self.prio = {}
      self.low = 0
    elif self.kind == "loc":
      # Switch only at a random subset of code locations, chosen lazily.
      self.frac = spec["frac"]
      self.p = spec["p"]
    elif self.kind == "record":
      self.seen = {}          # (task, function, location) -> times reached
    elif self.kind == "site":
      self.seen = {}
      self.sites = {}         # place -> {occurrence: points until the switch}
      self.due = {}           # task -> points at which to switch
      self._plan(spec["points"], spec["depth"])
    elif self.kind == "explicit":
      self.table = {(d[0], d[1]): d[2] for d in spec["switches"]}
      self.order = list(spec.get("order", ()))

  def _plan(self, points, depth):
    """Chooses the few points to switch at, by place and not by time.

    A place that is passed once is as likely as one that is passed a thousand
    times. Most choices are a few points after a place that writes to something
    that may be shared, the rest is uniform over functions and over places.
    """
    r = self.rng
    tasks = sorted({t for t, _, _ in points})
    places = {}
    for (t, f, l), n in points.items():
      places[f, l] = max(places.get((f, l), 0), n)
    if not places:
      return
    allp = sorted(places, key=repr)
    fns = {}
    for f, l in allp:
      fns.setdefault(f, []).append((f, l))
    names = sorted(fns, key=repr)
    weights = [_writes(f).get(l, 0) for f, l in allp]
    writers = any(weights)
    near = None
    for _ in range(depth):
      k = r.random()
      later = 0
      if near is not None and k < 0.3:
        place = r.choice(fns[near])
      elif writers and k < 0.7:
        place = r.choices(allp, weights)[0]
        later = r.choice([1, 1, 1, 2, 2, 3, 4, 6, 10, 30])
      elif k < 0.85:
        place = r.choice(fns[r.choice(names)])
      else:
        place = r.choice(allp)
      near = place[0]
      n = places[place]
      k = r.random()
      occ = 1 if k < 0.5 else n if k < 0.75 else r.randrange(1, n + 1)
      task = r.choice(tasks)
      self.sites.setdefault((task,) + place, {})[occ] = later

  def passed(self, task, code, loc):
    """Counts how often this task reached this place."""
    if code is None:
      f = ("user",)
    else:
      f = _place.get(code)
      if f is None:
        f = _place[code] = (
            code.co_filename, code.co_firstlineno, code.co_qualname)
        _code_at[f] = code
    key = (task.name, f, loc)
    n = self.seen[key] = self.seen.get(key, 0) + 1
    if self.kind == "site":
      at = self.sites.get(key)
      if at is not None and n in at:
        self.due.setdefault(task.name, set()).add(task.points + at[n])
      due = self.due.get(task.name)
      self.here = due is not None and task.points in due

  def start(self, names):
    if self.kind == "pct":
      prios = list(range(len(names)))
      self.rng.shuffle(prios)
      self.prio = {n: 1000 + p for n, p in zip(names, prios)}

  def choose(self, sim, task, code, loc, runnable):
    """Returns the name of the task to run next (runnable excludes `task`)."""
    k = self.kind
    if k == "walk":
      if self.rng.random() < self.p:
        return runnable[self.rng.randrange(len(runnable))].name
    elif k == "pct":
      if self.change and sim.steps >= self.change[0]:
        self.change.pop(0)
        self.low -= 1
        self.prio[task.name] = self.low
      best = max(runnable, key=lambda t: self.prio[t.name])
      if self.prio[best.name] > self.prio[task.name]:
        return best.name
    elif k == "loc":
      key = (code, loc)
      on = self.locs.get(key)
      if on is None:
        on = self.locs[key] = self.rng.random() < self.frac
      if on and self.rng.random() < self.p:
        return runnable[self.rng.randrange(len(runnable))].name
    elif k == "site":
      if self.here:
        return runnable[self.rng.randrange(len(runnable))].name
    elif k == "explicit":
      to = self.table.get((task.name, task.points))
      if to is not None and any(t.name == to for t in runnable):
        return to
    return None

  def pick(self, sim, runnable):
    """Chooses among runnable tasks when the current one cannot continue."""
    if self.kind == "pct":
      return max(runnable, key=lambda t: self.prio[t.name])
    if self.kind == "explicit":
      while self.order:
        want = self.order.pop(0)
        for t in runnable:
          if t.name == want:
            return t
      return runnable[0]
    if self.kind == "record":
      return runnable[0]
    return runnable[self.rng.randrange(len(runnable))]


class Task:

  def __init__(self, name, fn):
    self.name = name
    self.fn = fn
    self.gate = _real_Lock()
    self.gate.acquire()
    self.points = 0
    self.done = False
    self.blocked = None     # what it waits for
    self.wake_at = None     # virtual deadline of the wait
    self.timed_out = False
    self.result = None
    self.error = None
    self.nopreempt = 0
    self.daemon = False
    self.children = 0
    self.ident = None

  def stack(self):
    """The (file, function) pairs this task is in, innermost first."""
    f = sys._current_frames().get(self.ident)  # pylint: disable=protected-access
    out = []
    while f is not None:
      out.append((f.f_code.co_filename, f.f_code.co_name))
      f = f.f_back
    return out


class Sim:
  """One simulated run."""

  def __init__(self, policy, max_steps=2_000_000, wall=120.0):
    self.policy = policy if isinstance(policy, Policy) else Policy(policy)
    self.count = self.policy.kind in ("record", "site")
    self.tasks = []
    self.steps = 0
    self.switches = []
    self.order = []
    self.sig = 0
    self.max_steps = max_steps
    self.wall = wall
    self.now = 0.0
    self.failure = None
    self.main_gate = _real_Lock()
    self.main_gate.acquire()
    self.current = None
    self.aborting = False

  def spawn(self, name, fn, daemon=False):
    t = Task(name, fn)
    t.daemon = daemon
    self.tasks.append(t)
    if self.current is not None:  # spawned by a running task
      if hasattr(self.policy, "prio"):
        self.policy.prio.setdefault(
            name, self.policy.rng.randrange(1000, 2000))
      self._start_thread(t)
    return t

  def _start_thread(self, t):
    _thread.start_new_thread(self._body, (t,))

  def _body(self, t):
    t.gate.acquire()
    _local.task = t
    t.ident = _thread.get_ident()
    try:
      if not self.aborting:
        t.result = t.fn()
    except _Abort:
      pass
    except BaseException as e:  # pylint: disable=broad-except
      t.error = e
    _local.task = None
    t.done = True
    self._next_after(t)

  def runnable(self):
    return [t for t in self.tasks if not t.done and t.blocked is None]

  def _next_after(self, t):
    """Called by a task that cannot continue: hands the baton on."""
    if self.aborting:
      self._abort_next()
      return
    r = self.runnable()
    while not r:
      live = [x for x in self.tasks if not x.done]
      if all(x.daemon for x in live):
        break
      waiting = [x for x in live if x.wake_at is not None]
      if not waiting:
        self.failure = Deadlock(
            "no task can run: " + ", ".join(
                "%s waits for %s" % (x.name, x.blocked) for x in live))
        self.failure.stacks = {x.name: x.stack() for x in live}
        break
      nxt = min(waiting, key=lambda x: (x.wake_at, x.name))
      self.now = max(self.now, nxt.wake_at)
      nxt.blocked = None
      nxt.wake_at = None
      nxt.timed_out = True
      r = self.runnable()
    if not r:
      self.aborting = True
      self._abort_next()
      return
    nxt = self.policy.pick(self, r) if len(r) > 1 else r[0]
    if len(r) > 1:
      self.order.append(nxt.name)
    self._note(nxt)
    nxt.gate.release()

  def _abort_next(self):
    for x in self.tasks:
      if not x.done:
        x.blocked = None
        self.current = x
        x.gate.release()
        return
    self.main_gate.release()

  def _note(self, nxt):
    self.current = nxt
    self.sig = zlib.crc32(b"%s:%d" % (nxt.name.encode(), self.steps), self.sig)

  def hit(self, task, code, loc):
    if self.aborting:
      return
    self.steps += 1
    task.points += 1
    if self.steps > self.max_steps:
      if self.failure is None:
        self.failure = StepLimit("more than %d steps" % self.max_steps)
      self.aborting = True
      raise _Abort()
    if self.count:
      self.policy.passed(task, code, loc)
    runnable = [t for t in self.tasks
                if t is not task and not t.done and t.blocked is None]
    if not runnable:
      return
    to = self.policy.choose(self, task, code, loc, runnable)
    if to is None:
      return
    for t in runnable:
      if t.name == to:
        break
    else:
      return
    self.switches.append((task.name, task.points, to))
    self._note(t)
    t.gate.release()
    task.gate.acquire()
    if self.aborting:
      raise _Abort()

  def block(self, task, what, timeout=None):
    """Blocks the running task. Returns False if the timeout expired."""
    task.blocked = what
    task.timed_out = False
    task.wake_at = None if timeout is None else self.now + timeout
    self._next_after(task)
    task.gate.acquire()
    if self.aborting:
      raise _Abort()
    return not task.timed_out

  def unblock(self, task):
    task.blocked = None
    task.wake_at = None

  def run(self):
    global ACTIVE
    assert ACTIVE is None
    self.policy.start([t.name for t in self.tasks])
    for t in self.tasks:
      self._start_thread(t)
    ACTIVE = self
    try:
      r = self.runnable()
      first = self.policy.pick(self, r) if len(r) > 1 else r[0]
      if len(r) > 1:
        self.order.append(first.name)
      self._note(first)
      first.gate.release()
      if not self.main_gate.acquire(timeout=self.wall):
        raise HarnessError("simulated run did not finish in %ss of real time"
                           % self.wall)
    finally:
      ACTIVE = None
    return self

  def explicit(self):
    return {"kind": "explicit", "switches": [list(s) for s in self.switches],
            "order": list(self.order)}


# --------------------------------------------------------------- primitives


class SimLock:
  """threading.Lock for code under simulation."""
  reentrant = False

  def __init__(self):
    self.owner = None
    self.count = 0
    self.waiters = []

  def _me(self):
    t = getattr(_local, "task", None)
    return t if t is not None else _thread.get_ident()

  def acquire(self, blocking=True, timeout=-1):
    me = self._me()
    sim = ACTIVE
    point("lock")
    while True:
      if self.owner is None or (self.reentrant and self.owner == me):
        self.owner = me
        self.count += 1
        return True
      if not blocking:
        return False
      if sim is None or not isinstance(me, Task):
        raise Deadlock("lock is already held and nobody can release it")
      self.waiters.append(me)
      ok = sim.block(me, "lock", None if timeout < 0 else timeout)
      if me in self.waiters:
        self.waiters.remove(me)
      if not ok:
        return False

  def release(self):
    if self.owner is None:
      raise RuntimeError("release unlocked lock")
    if self.reentrant and self.owner != self._me():
      raise RuntimeError("cannot release un-acquired lock")
    self.count -= 1
    if self.count == 0:
      self.owner = None
      for w in self.waiters:
        ACTIVE.unblock(w)
      self.waiters = []
    point("unlock")

  def locked(self):
    return self.owner is not None

  def __enter__(self):
    self.acquire()
    return True

  def __exit__(self, *a):
    self.release()


class SimRLock(SimLock):
  reentrant = True


def _factory(real, fake):
  def make(*a, **k):
    from sim import load  # pylint: disable=g-import-not-at-top
    f = sys._getframe(1)
    if f.f_code.co_filename.startswith(load.REPO):
      return fake()
    return real(*a, **k)
  return make


def patch_locks():
  threading.Lock = _factory(_real_Lock, SimLock)
  threading.RLock = _factory(_real_RLock, SimRLock)
