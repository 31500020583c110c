"""C01: concurrent calls do not affect each other."""
from sim import core
from sim import zoo
from sim.props import common

QUICK, THOROUGH = 750, 80000
RULE = ("a case is 2-4 threads with 1-3 init/apply calls each, on the same or "
        "different functions (generated programs with hooks, scopes, RNG "
        "scopes, faults, inner threads; or models of Haiku's own modules) "
        "sharing params, state and initialisers, under a seeded scheduler that "
        "may preempt at every line, call or instruction of Haiku. Non-trivial: "
        "at least one preemption and at least two tasks that made calls. "
        "Oracle: every task run alone in a freshly loaded Haiku.")
REAL, STUB = common.REAL, common.STUB
ASSUME = ["JAX itself is thread safe", "preemption inside JAX is not explored",
          "a jax.jit wrapper object is not shared by threads"]


def gen_lang(rng, wrapped):
  w = dict(spawn=1, raise_=2, try_=2, creator=3, getter=3, icept=3, scope=3,
           rng=3, key=5)
  if wrapped:
    w.update(common.WRAP)
  return common.programs(rng, w, {"opt": 0.15}, rng.choice([1, 1, 2, 3]))


def gen_case(seed, tier):
  rng = common.seeded(seed)
  case = {"tasks": [], "setup": []}
  case["sched"], case["mode"] = common.spec(rng, reps=2)
  k = rng.random()
  wrapped = k < 0.12
  use_zoo = k > 0.6
  mixed = k > 0.9
  progs = []
  g = None
  if not use_zoo or mixed:
    g, pis = gen_lang(rng, wrapped)
    progs = g.progs
    for pi in pis:
      case["setup"].append(common.init_call(g, rng, pi, "p%d" % pi, 0, 0))
  if use_zoo:
    pool = zoo.NAMES if rng.random() < 0.2 else zoo.LIGHT
    names = [rng.choice(pool) for _ in range(rng.choice([1, 1, 2, 3]))]
    if 0.6 < k < 0.72:
      # Which initialiser they share, and different shapes.
      b = rng.choice([rng.randrange(6), rng.randrange(12)])
      names = ["inits:%d" % (b + 12 * rng.randrange(100)) for _ in range(3)]
    for n in names:
      case["setup"].append(common.zoo_call(rng, n, "init", "z" + n))
  ntask = rng.choice([2, 2, 2, 3, 4])
  same = rng.random() < 0.5
  for i in range(ntask):
    calls = []
    for _ in range(rng.choice([1, 1, 2, 3]) if not wrapped else 1):
      if use_zoo and not (mixed and rng.random() < 0.5):
        inits = names[0].startswith("inits:")
        n = names[0] if same and not inits else rng.choice(names)
        op = "init" if inits else rng.choice(["init", "apply", "apply"])
        slot = "z" + n if op == "apply" else "q%d" % i
        forms = common.FORMS + (["jit"] if rng.random() < 0.1 else [])
        calls.append(common.zoo_call(rng, n, op, slot, forms, 0.08))
      else:
        pi = pis[0] if same else rng.choice(pis)
        if rng.random() < 0.4:
          calls.append(common.init_call(g, rng, pi, "q%d" % i, 0.2))
        else:
          forms = common.FORMS + (["jit"] if rng.random() < 0.03 else [])
          calls.extend(common.history(g, rng, pi, 1, "p%d" % pi, 0.3, forms,
                                      0.02))
    case["tasks"].append({"name": "t%d" % i, "calls": calls})
  case["progs"] = progs
  if g:
    fix_jit(g, case)
  return case


def fix_jit(g, case):
  """StopIteration and GeneratorExit do not pass through jax.jit unchanged."""
  for t in case["tasks"]:
    for c in t["calls"]:
      if c.get("form") == "jit":
        for s, k in list(c.get("active", {}).items()):
          if k in ("StopIteration", "GeneratorExit"):
            c["active"][s] = "InjError"


def run(case):
  res = core.Res()
  alone = {}
  seen = []
  for one in core.schedules(case, res):
    outs, infos, setup, _ = core.run_case(one, res)
    seen.append([res.sig, outs, res.explicit])
    res.nontrivial = res.nontrivial or (
        bool(case.get("sched")) and res.switches > 0 and sum(
            1 for o in outs.values() if o) > 1)
    judge(case, res, outs, setup, alone)
  res.sig = common.sig_of([s[:2] for s in seen])
  res.digest = core.digest(seen)
  return res


def judge(case, res, outs, setup, alone):
  """Every task must do what it does alone: same world, same setup."""
  for t in case["tasks"]:
    if res.violation is not None:
      break
    if t["name"] not in alone:
      solo = dict(case)
      solo["tasks"] = [t]
      solo["sched"] = None
      so, _, ss, _ = core.run_case(solo, core.Res())
      alone[t["name"]] = so[t["name"]], ss
    want, ss = alone[t["name"]]
    if setup != ss:
      res.fail("setup", "setup calls differ between two fresh processes: %s" %
               core.diff(str(setup), str(ss)))
    real = outs.get(t["name"], {})
    for i in want:
      if i not in real:
        res.fail("missing", "task %s call %d did not finish" % (t["name"], i))
      elif real[i] != want[i]:
        res.fail("mismatch", "task %s call %d: concurrent %s" % (
            t["name"], i, core.diff(real[i], want[i]).replace(
                "expected", "alone")))


gen = gen_case
