"""C02: a failed init or apply leaves nothing behind."""
import json

from sim import core
from sim import zoo
from sim.lang import EXC_ENV
from sim.props import common

QUICK, THOROUGH = 2000, 100000
RULE = ("a case is a history of 3-9 init/apply calls on the main thread, on "
        "long lived worker threads and on short lived ones (or 2-3 concurrent "
        "histories under the seeded scheduler), in which user code, "
        "initialisers, hooks, constructors, methods, arguments and the k-th "
        "call from Haiku into JAX fail with any exception type. Non-trivial: at "
        "least one call failed by an injected fault and a later call returned. "
        "Oracles: the exception object that reaches the caller is the injected "
        "one; Haiku reports being outside a transform; the same history "
        "without the failed calls, in a freshly loaded Haiku, has the same "
        "outcomes; the reference model where it is defined.")
REAL, STUB = common.REAL, common.STUB
ASSUME = ["faults are raised at calls and at user code, not between arbitrary "
          "bytecodes of Haiku (asynchronous exceptions are out of scope)"]


def has_try(x):
  if isinstance(x, list):
    return (bool(x) and x[0] == "try") or any(has_try(v) for v in x)
  if isinstance(x, dict):
    return any(has_try(v) for v in x.values())
  return False


def disturb(rng, c, jax_ok=True):
  k = rng.random()
  if k < 0.45 and jax_ok:
    c["efault"] = [rng.choice([0, 0, 1, 1, 2, 3, 4, 6, 8, 12, 20, 40]),
                   rng.choice(EXC_ENV)]
    c["active"] = {}
  elif k < 0.52 and c.get("form") != "jit" and not c.get("zoo"):
    c["bad"] = rng.choice(["rng", "params", "state"])
    c["active"] = {}


def gen(seed, tier):
  rng = common.seeded(seed)
  k = rng.random()
  conc = rng.random() < 0.2
  wrapped = k < 0.1
  use_zoo = 0.65 < k
  case = {"setup": [], "tasks": [], "progs": []}
  if use_zoo:
    pool = zoo.NAMES if rng.random() < 0.15 else zoo.LIGHT
    names = [rng.choice(pool) for _ in range(rng.choice([1, 2]))]
    for n in names:
      case["setup"].append(common.zoo_call(rng, n, "init", "z" + n))
  else:
    w = dict(spawn=0.5, raise_=5, try_=rng.choice([0, 0, 3]), creator=3,
             getter=3, icept=3, scope=3, rng=3, reserve=2)
    if wrapped:
      w.update(common.WRAP)
    g, pis = common.programs(rng, w, {"opt": 0.15}, rng.choice([1, 2]))
    case["progs"] = g.progs
    for pi in pis:
      case["setup"].append(common.init_call(g, rng, pi, "p%d" % pi, 0, 0))
  n = 1 if not conc else rng.choice([2, 2, 3])
  if conc:
    case["sched"], case["mode"] = common.spec(rng, reps=2)
  for t in range(n):
    calls = []
    for _ in range(rng.randrange(3, 8) if not conc else rng.randrange(2, 4)):
      if use_zoo:
        name = rng.choice(names)
        op = rng.choice(["init", "apply", "apply"])
        c = common.zoo_call(rng, name, op,
                            "z" + name if op == "apply" else "q%d" % t,
                            common.FORMS, 0.15)
      else:
        pi = rng.choice(pis)
        if rng.random() < 0.3:
          c = common.init_call(g, rng, pi, "q%d" % t, 0.5)
        else:
          forms = common.FORMS + (["jit"] if rng.random() < 0.02 else [])
          c = common.history(g, rng, pi, 1, "p%d" % pi, 0.5, forms, 0.03)[0]
      if rng.random() < 0.5:
        disturb(rng, c)
      if not conc:
        c.pop("thread", None)
        c["worker"] = rng.choice([None, None, 0, 1])
      calls.append(c)
    # A last call that nothing disturbs, on every thread.
    for wk in ((None, 0, 1) if not conc else (None,)):
      if use_zoo:
        c = common.zoo_call(rng, names[0], "apply", "z" + names[0])
      else:
        c = common.history(g, rng, pis[0], 1, "p%d" % pis[0], 0, norng=0,
                           p_drop=0)[0]
        c.pop("thread", None)
      c["worker"] = wk
      calls.append(c)
    case["tasks"].append({"name": "t%d" % t, "calls": calls})
  for t in case["tasks"]:
    for c in t["calls"]:
      if c.get("form") == "jit":
        for s, kind in list(c.get("active", {}).items()):
          if kind in ("StopIteration", "GeneratorExit"):
            c["active"][s] = "InjError"
  return case


def run(case):
  res = core.Res()
  seen = []
  alone = {}
  for one in core.schedules(case, res):
    outs, infos, setup, _ = core.run_case(one, res)
    judge_run(case, res, outs, infos, setup, alone)
    seen.append([res.sig, outs, res.explicit])
  failed = sum(1 for o in outs.values() for r in o.values() if "raise" in r)
  res.nontrivial = failed > 0 and any(
      "raise" not in r and "skip" not in r for o in outs.values()
      for r in o.values())
  res.count("calls that failed", failed)
  res.sig = common.sig_of([s[:2] for s in seen], case.get("progs"))
  res.digest = core.digest(seen)
  return res


def judge_run(case, res, outs, infos, setup, alone):
  judge_identity(case, res, outs, infos)
  if res.violation is None:
    judge_without(case, res, outs, setup, alone)
  if res.violation is None and not any(
      c.get("zoo") for c in case["setup"]):
    clean = json.loads(json.dumps(case))
    for t in clean["tasks"]:
      for i, c in enumerate(t["calls"]):
        if c.get("efault") or c.get("bad"):
          c["skip"] = True
    judge_model(clean, res, outs, infos)


def judge_model(case, res, outs, infos):
  """The model judges the calls without environment faults."""
  sub = dict(case)
  sub["tasks"] = []
  so, si = {}, {}
  for t in case["tasks"]:
    keep = [i for i, c in enumerate(t["calls"])
            if not c.get("skip") and i in outs.get(t["name"], {})]
    sub["tasks"].append({"name": t["name"],
                         "calls": [t["calls"][i] for i in keep]})
    so[t["name"]] = {n: outs[t["name"]][i] for n, i in enumerate(keep)}
    si[t["name"]] = {n: infos[t["name"]][i] for n, i in enumerate(keep)}
    # A disturbed call that returned changes what later calls see.
    for i, c in enumerate(t["calls"]):
      if c.get("skip") and "raise" not in outs[t["name"]].get(i, {}):
        return
  core.judge_model(sub, res, so, si)


def judge_identity(case, res, outs, infos):
  for t in case["tasks"]:
    o, n = outs.get(t["name"], {}), infos.get(t["name"], {})
    for i, c in enumerate(t["calls"]):
      r = o.get(i)
      if r is None:
        if res.violation is None:
          res.fail("missing", "task %s call %d did not finish" % (t["name"], i))
        return
      if "skip" in r:
        continue
      if not r["outside"]:
        res.fail("inside", "after task %s call %d the thread is still inside a "
                 "transform" % (t["name"], i))
        return
      zoo_c = c.get("zoo")
      fired = n[i].get("callfault") or (zoo_c and any(n[i].get("efired", ())))
      quiet = zoo_c or not has_try([case["progs"][c["prog"]], case["progs"]])
      if fired and quiet and r.get("raise") not in (
          ["inj", "env"], ["chained", "env"]):
        res.fail("identity", "task %s call %d: a failing JAX call was reported "
                 "as %s" % (t["name"], i, core.short(r.get("raise", "success"))))
        return
      if zoo_c and c.get("active") and not c.get("efault"):
        site = list(c["active"])[0]
        if r.get("raise") != ["inj", site]:
          res.fail("identity", "task %s call %d: the user's exception was "
                   "reported as %s" % (t["name"], i,
                                       core.short(r.get("raise", "success"))))
          return


def judge_without(case, res, outs, setup, alone):
  """The same history without the failed calls has the same outcomes."""
  for t in case["tasks"]:
    o = outs.get(t["name"], {})
    keep = [i for i, c in enumerate(t["calls"])
            if "raise" not in o[i]]
    if len(keep) == len(t["calls"]) and not case.get("sched"):
      continue
    key = (t["name"], tuple(keep))
    if key not in alone:
      solo = dict(case)
      solo["sched"] = None
      solo["tasks"] = [{"name": "t", "calls": [t["calls"][i] for i in keep]}]
      so, _, ss, _ = core.run_case(solo, core.Res())
      alone[key] = so, ss
    so, ss = alone[key]
    if ss != setup:
      res.fail("setup", "setup calls differ between two fresh processes")
      return
    for n, i in enumerate(keep):
      d = core.diff(o[i], so["t"][n])
      if d:
        res.fail("footprint", "task %s call %d after failed calls: %s" % (
            t["name"], i, d.replace("expected", "without them")))
        return
