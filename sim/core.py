"""Runs cases of the program language: histories, threads, restarts, faults."""
import functools
import gc
import json
import os
import pickle
import re
import zlib

from sim import hist
from sim import lang
from sim import load
from sim import sched
from sim import zoo as zoo_lib


def digest(x):
  return zlib.crc32(json.dumps(x, sort_keys=True, default=str).encode())


KNOWN_FILE = os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), "KNOWN_FINDINGS.txt")


@functools.lru_cache(None)
def listed():
  """The listed findings: name -> (property, what fails)."""
  out = {}
  if os.path.exists(KNOWN_FILE):
    with open(KNOWN_FILE) as f:
      for line in f:
        m = re.match(r"known: property=(\w+) \[([\w-]+)\] (.*)", line)
        if m:
          out[m.group(2)] = (m.group(1), m.group(3))
  return out


class Res:
  """The result of one simulated run."""

  def __init__(self):
    self.violation = None     # (class, message)
    self.judged = True
    self.stats = {}
    self.sig = 0              # identifies the execution
    self.nontrivial = False
    self.steps = 0
    self.sim_time = 0.0
    self.explicit = None      # schedule to replay
    self.trace = None

  def fail(self, cls, msg):
    if self.violation is None:
      self.violation = (cls, msg)

  def known(self, name, cls, msg):
    """A failure that KNOWN_FINDINGS.txt may list under this name."""
    if name in listed():
      self.count("known finding " + name)
      return True
    self.fail(cls, msg)
    return False

  def count(self, k, n=1):
    if n:
      self.stats[k] = self.stats.get(k, 0) + n


def has_efault(x):
  if isinstance(x, dict):
    return bool(x.get("efault")) or any(has_efault(v) for v in x.values())
  if isinstance(x, list):
    return (bool(x) and x[0] == "efault") or any(has_efault(v) for v in x)
  return False


class World:
  """One simulated process: a loaded Haiku and the programs on it."""

  def __init__(self, progs):
    self.progs = progs
    self.start()

  def start(self):
    self.hk = load.fresh()
    self.rt = lang.Runtime(self.hk, self.progs)
    self.zoo = zoo_lib.Zoo(self.hk)
    self.workers = {}

  def on_worker(self, n, fn):
    """Runs fn on a long lived thread of this process."""
    w = self.workers.get(n)
    if w is None:
      w = self.workers[n] = sched.Worker()
    return w.call(fn)

  def stop(self):
    for w in self.workers.values():
      w.stop()
    self.workers = {}

  def restart(self, slots, how):
    """Process death and restart: only serialised params and state survive."""
    if how == "dict":
      kept = {k: tuple({b: dict(p) for b, p in t.items()} for t in v)
              for k, v in slots.items()}
      blob = pickle.dumps(kept)
    else:
      blob = pickle.dumps(dict(slots))
    slots.clear()
    self.stop()
    self.start()
    slots.update(pickle.loads(blob))


def run_calls(world, calls, slots, record, ops=None):
  """Executes the calls of one task. record(i, call, outcome, info)."""
  for i, call in enumerate(calls):
    if call["op"] == "restart":
      world.restart(slots, call.get("how", "pickle"))
      continue
    info = {}
    if ops and call["op"] in ops:
      ex = lambda: ops[call["op"]](world, call, slots, info)
    elif call.get("zoo"):
      ex = lambda: hist.exec_zoo(world.zoo, call, slots, info)
    else:
      ex = lambda: hist.exec_call(world.rt, call, slots, info)
    if call.get("worker") is not None and sched.ACTIVE is None:
      r = world.on_worker(call["worker"], ex)
    else:
      r = sched.on_thread(ex) if call.get("thread") else ex()
    record(i, call, r, info)
    sched.point("between calls")


def model_calls(progs, calls, slots, infos):
  """Outcomes according to the model; None entries are not judged."""
  out = []
  for i, call in enumerate(calls):
    if call["op"] == "restart":
      out.append({"restart": True})
      continue
    m = hist.model_call(progs, call, slots, infos.get(i, {}).get("efired", ()))
    out.append(m)
    if m is None:
      break
  return out


def modes(case):
  ev = sched.EVENT_SETS.get(case.get("mode"), 0) if case.get("sched") else 0
  if has_efault(case):
    ev |= sched.E.CALL
  return ev


def planned(case, run):
  """The schedule; if it is made of places, they are learned by a first run."""
  spec = case.get("sched")
  if spec and spec["kind"] == "site" and spec.get("points") is None:
    points = getattr(run(dict(case, sched={"kind": "record"})), "points", None)
    spec = dict(spec, points=points or {})
  return spec


def schedules(case, res):
  """The case under several schedules, until one of them is a violation."""
  spec = case.get("sched")
  n = spec.get("reps", 1) if spec else 1
  for r in range(n):
    if res.violation is not None:
      return
    res.count("schedules", bool(spec))
    if n == 1:
      yield case
    else:
      yield dict(case, sched=dict(spec, seed=spec["seed"] + 7919 * r,
                                  points=getattr(res, "planned", None)))


def run_case(case, res, ops=None):
  """Executes a case. Returns ({task: {i: outcome}}, {task: {i: info}})."""
  def record(c):
    r = Res()
    run_case(dict(c, after=[]), r, ops)
    return r
  spec = planned(case, record)
  if spec:
    res.planned = spec.get("points")
  gc.disable()
  sched.set_mode(modes(case))
  world = World(case["progs"])
  base = {}
  setup = {}
  run_calls(world, case.get("setup", []), base,
            lambda i, c, r, info: setup.__setitem__(i, r), ops)
  outs, infos = {}, {}

  def body(t):
    o, n = outs.setdefault(t["name"], {}), infos.setdefault(t["name"], {})

    def rec(i, call, r, info):
      o[i] = r
      n[i] = info
    slots = dict(base)
    run_calls(world, t["calls"], slots, rec, ops)

  if spec:
    sim = sched.Sim(spec)
    for t in case["tasks"]:
      sim.spawn(t["name"], lambda t=t: body(t))
    sim.run()
    res.steps += sim.steps
    res.sig = sim.sig
    res.points = getattr(sim.policy, "seen", None)
    res.explicit = sim.explicit()
    res.count("context switches", len(sim.switches))
    if sim.failure is not None:
      res.fail(type(sim.failure).__name__, str(sim.failure))
    for t in sim.tasks:
      if t.error is not None:
        raise t.error
    res.switches = len(sim.switches)
  else:
    for t in case["tasks"]:
      body(t)
  run_calls(world, case.get("after", []), dict(base),
            lambda i, c, r, info: outs.setdefault("after", {}).__setitem__(i, r),
            ops)
  world.stop()
  gc.enable()
  for n in infos.values():
    for i in n.values():
      e = i.get("env")
      if e is not None:
        res.count("statements", e.stmts)
        for x in e.injected:
          res.count("fault " + type(x).__name__)
        res.count("failing JAX call", sum(i.get("efired", ())))
  for o in outs.values():
    for r in o.values():
      if "raise" in r:
        res.count("calls that raised " + r["raise"][0])
      elif "skip" not in r:
        res.count("calls that returned")
  return outs, infos, setup, base


def diff(a, b):
  """A short description of the first difference of two outcomes."""
  if a == b:
    return None
  if a.keys() != b.keys():
    return "real %s, expected %s" % (short(a), short(b))
  for k in a:
    if a[k] != b[k]:
      if isinstance(a[k], str) and isinstance(b[k], str):
        n = next((i for i, (p, q) in enumerate(zip(a[k], b[k])) if p != q),
                 min(len(a[k]), len(b[k])))
        n = max(0, n - 100)
        return "%s (from character %d): real %s, expected %s" % (
            k, n, short(a[k][n:]), short(b[k][n:]))
      return "%s: real %s, expected %s" % (k, short(a[k]), short(b[k]))


def short(x):
  s = json.dumps(x, default=str)
  return s if len(s) < 300 else s[:300] + "..."


def judge_model(case, res, outs, infos):
  """Every call must behave as the model says."""
  base = {}
  for i, c in enumerate(model_calls(
      case["progs"], case.get("setup", []), base, {})):
    if c is None:
      res.judged = False
      return
  for t in case["tasks"]:
    name = t["name"]
    o = outs.get(name, {})
    ms = model_calls(case["progs"], t["calls"], dict(base), infos.get(name, {}))
    for i, m in enumerate(ms):
      if m is None:
        res.count("calls not judged", len(t["calls"]) - i)
        break
      if m.get("restart"):
        continue
      if i not in o:
        if res.violation is None:
          res.fail("missing", "task %s call %d did not finish" % (name, i))
        break
      r = {k: v for k, v in o[i].items() if k != "keys"}
      res.count("calls judged")
      d = diff(r, m)
      if d:
        res.fail("mismatch", "task %s call %d (%s): %s%s" % (
            name, i, t["calls"][i]["op"], d,
            " [" + infos[name][i]["exc"] + "]" if "exc" in infos[name][i] else ""))
        return
