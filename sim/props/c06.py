"""C06: a training job killed at any point resumes bit for bit."""
from sim import core
from sim import job
from sim import zoo
from sim.lang import EXC_ANY, EXC_ENV
from sim.props import common

QUICK, THOROUGH = 700, 60000
CROSS = 160
RULE = ("a case is a training job on a library model (any module of Haiku, "
        "with gradients and parameter updates) or on a generated program, run "
        "eagerly or under jax.jit, through 4-16 events: steps, evaluations, "
        "steps that fail by faults in the function or in a JAX call, calls of "
        "other models, checkpoints in 8 forms, and crashes, between or inside "
        "calls, after which a new process loads Haiku anew and continues from "
        "the last checkpoint. Non-trivial: a restart happened and a step ran "
        "after it. Oracle: every step's outputs, gradients, parameters and "
        "state are bit for bit those of the same step of the same job run "
        "without any interruption in a fresh process. The first seeds run "
        "again in processes with another string hash seed and must give the "
        "same results.")
REAL = common.REAL
STUB = common.STUB + "; checkpoint files (bytes in memory)"
ASSUME = ["XLA's CPU compiler gives the same code for the same program within "
          "one simulated run"]
FORMS = ["pickle", "pickle", "copy", "dict", "shuffled", "mutable", "leaves",
         "leaves", "map", "paths"]


def how(rng):
  h = {"form": rng.choice(FORMS)}
  if h["form"] == "pickle":
    h["protocol"] = rng.choice([0, 1, 2, 3, 4, 5])
  if h["form"] == "copy":
    h["deep"] = rng.random() < 0.5
  k = rng.random()
  if k < 0.15:
    h["immutable"] = True
  elif k < 0.25:
    h["merge"] = True
  return h


def fault(rng, case, g):
  if "zoo" in case:
    if rng.random() < 0.4:
      return {"active": {rng.choice(["in", "end"]): rng.choice(EXC_ANY)}}
  else:
    a = g.active(case["prog"], 1.0)
    if a and rng.random() < 0.7:
      return {"active": a}
  return {"efault": [rng.choice([0, 1, 2, 3, 5, 8, 12, 20, 30, 50, 80]),
                     rng.choice(EXC_ENV)]}


def gen(seed, tier):
  rng = common.seeded(seed)
  case = {"key": rng.randrange(1 << 20),
          "xs": [rng.randrange(1000) for _ in range(6)]}
  g = None
  if rng.random() < 0.6:
    case["zoo"] = rng.choice(zoo.NAMES)
    case["form"] = rng.choices(["eager", "jit", "kept"], [8, 1, 1])[0]
  else:
    w = dict(sets=6, gets=5, creator=2, getter=2, try_=3, raise_=3, scope=3,
             spawn=0.5)
    if rng.random() < 0.1:
      w.update(common.WRAP)
    g, pis = common.programs(rng, w, {}, 1, keep_bad=0)
    case["progs"] = g.progs
    case["prog"] = pis[0]
    case["form"] = rng.choices(["eager", "jit", "kept"], [12, 1, 1])[0]
  evs = case["calls"] = []
  for _ in range(rng.randrange(4, 17)):
    k = rng.random()
    if k < 0.38:
      ev = {"ev": "step"}
    elif k < 0.50:
      ev = {"ev": "eval", "x": rng.randrange(1000)}
      if rng.random() < 0.2:
        ev.update(fault(rng, case, g))
    elif k < 0.62:
      ev = dict(fault(rng, case, g), ev="fail")
      if rng.random() < 0.4:
        evs.append(ev)
        ev = {"ev": "restart"}  # killed inside the call
    elif k < 0.80:
      ev = {"ev": "save", "how": how(rng)}
    elif k < 0.92:
      ev = {"ev": "restart"}
    else:
      if rng.random() < 0.6 or g is None:
        n = rng.choice(zoo.LIGHT)
        cs = [common.zoo_call(rng, n, "init", "o"),
              common.zoo_call(rng, n, "apply", "o", ["flat"], 0.3)]
      else:
        pi = case["prog"]
        cs = [common.init_call(g, rng, pi, "o", 0.3)]
      ev = {"ev": "other", "calls": cs}
    if ev["ev"] in ("step", "fail", "eval"):
      k = rng.random()
      if k < 0.1:
        ev["thread"] = True
      elif k < 0.2:
        ev["worker"] = rng.choice([0, 1])
    evs.append(ev)
  if rng.random() < 0.8:
    evs += [{"ev": "save", "how": how(rng)}, {"ev": "restart"}]
  evs += [{"ev": "step"}]
  return case


def run(case):
  import gc
  from sim import sched
  gc.disable()
  sched.set_mode(core.modes(case))
  res = core.Res()
  j = job.Job(case, res)
  crashed = after = 0
  try:
    for ev in case["calls"]:
      j.event(ev)
      crashed += ev["ev"] == "restart"
      after += crashed > 0 and ev["ev"] == "step"
  finally:
    j.stop()
  log = j.log
  # The job that nothing ever happened to.
  sched.set_mode(0)
  steps = max([s for s, w, _ in log if w == "step"] + [-1])
  ref = job.Job(case, core.Res())
  try:
    want = {}
    trees = []
    for s in range(steps + 2):
      trees.append((ref.params, ref.state))
      if s <= steps:
        ref.event({"ev": "step"})
    for s, w, o in ref.log:
      want[s, w] = o
    for s, w, o in sorted(log, key=lambda l: (l[0], l[1])):
      if w.startswith("eval") and (s, w) not in want and s < len(trees):
        ref.step = s
        ref.params, ref.state = trees[s]
        n = len(ref.log)
        ref.event({"ev": "eval", "x": int(w.split()[1])})
        if len(ref.log) > n:
          want[s, w] = ref.log[n][2]
  finally:
    ref.stop()
  gc.enable()
  for s, w, o in log:
    if w == "inside":
      res.fail("inside", "step %d left the thread inside a transform" % s)
      break
    if (s, w) not in want:
      res.fail("extra", "step %d %s: %s, but the uninterrupted job failed" % (
          s, w, core.short(o)))
      break
    if o != want[s, w]:
      res.fail("mismatch", "step %d %s: %s" % (s, w, first(o, want[s, w])))
      break
  res.count("restarts", crashed)
  res.nontrivial = crashed > 0 and after > 0 and steps >= 0
  res.sig = common.sig_of(case.get("zoo", case.get("progs")), log)
  res.digest = core.digest(log)
  return res


def first(a, b):
  names = ["params", "state", "outputs", "gradients"] if len(a) == 4 else (
      ["params", "state"] if len(a) == 2 else [])
  for n, p, q in zip(names, a, b):
    if p != q:
      for x, y in zip(p, q):
        if x != y:
          return "%s: %s, uninterrupted %s" % (n, core.short(x), core.short(y))
      return "%s: %s, uninterrupted %s" % (n, core.short(p), core.short(q))
  return "%s, uninterrupted %s" % (core.short(a), core.short(b))
