"""C05: RNG keys never repeat and depend only on the key and the requests."""
import numpy as np

from sim import core
from sim import load
from sim import model as model_lib
from sim import sched
from sim.lang import EXC_ENV, EXC, key_of
from sim.props import common
from sim.props import modelled

QUICK, THOROUGH = 4200, 200000
RULE = ("a case is (a) a generated program full of single, multiple and "
        "optional key requests, reservations, RNG scopes, optimize_rng_use, "
        "nested transforms, hooks and initialisers that draw keys, with "
        "failing and retried requests (the k-th JAX call fails), on one or on "
        "several scheduled threads; (b) such a program with JAX control flow "
        "drawing keys inside; (c) a sequence of operations on several "
        "hk.PRNGSequence objects with failing JAX calls. Non-trivial: a call "
        "returned and drew at least two keys. Oracles: (a) the reference model "
        "says which split every key is; (b) all keys of one call are pairwise "
        "distinct and the same in a fresh process after other calls; (c) a "
        "model of the sequence and pairwise distinctness.")
REAL, STUB = common.REAL, common.STUB
ASSUME = ["jax.random.split never returns a key twice (checked as observed)"]


def gen(seed, tier):
  rng = common.seeded(seed)
  k = rng.random()
  if k < 0.2:
    return gen_seq(rng)
  if k < 0.35:
    return gen_flow(rng)
  w = dict(key=14, reserve=5, rng=6, opt=3, efault=6, try_=4, raise_=3,
           nested=2, spawn=0.7, scope=1, mod=4, pdict=0, creator=2, getter=2,
           icept=1, gets=3, sets=2, loop=2)
  g, pis = common.programs(rng, w, {"opt": 0.3}, rng.choice([1, 1, 2]))
  case = {"kind": "exact", "progs": g.progs, "setup": [], "tasks": []}
  for pi in pis:
    case["setup"].append(common.init_call(g, rng, pi, pi, 0, 0))
  n = 1
  if rng.random() < 0.25:
    n = rng.choice([2, 3])
    case["sched"], case["mode"] = common.spec(rng, 600)
  for t in range(n):
    calls = []
    for _ in range(rng.randrange(2, 6) if n == 1 else rng.randrange(1, 3)):
      pi = rng.choice(pis)
      if rng.random() < 0.3:
        c = common.init_call(g, rng, pi, "q", 0.5)
      else:
        c = common.history(g, rng, pi, 1, pi, 0.5, p_drop=0.02, norng=0.04)[0]
      es = [s for q in g.reach(pi) for s in g.progs[q]["sites"]
            if s in g.esites]
      for s in es:
        if rng.random() < 0.5:
          c["active"][s] = rng.choice(EXC_ENV)
      c["kbuf"] = c["op"] == "apply" and not c.get("thread")
      calls.append(c)
    case["tasks"].append({"name": "t%d" % t, "calls": calls})
  return case


def gen_flow(rng):
  w = dict(key=14, reserve=4, rng=4, efault=4, try_=4, raise_=2, nested=0,
           lift=0, mod=3, pdict=0, creator=0, getter=0, icept=0, gets=2, sets=2,
           loop=2, jit=3, cond=3, switch=3, scan=4, fori=4, while_=4, vmap=1,
           grad=2, eshape=2)
  g, (pi,) = common.programs(rng, w, {"inexact": True})
  calls = []
  for _ in range(rng.randrange(1, 4)):
    c = common.history(g, rng, pi, 1, pi, 0.3, forms=["flat"], norng=0)[0]
    c.pop("drop", None)
    c["kbuf"] = True
    c["commit"] = False
    c.pop("thread", None)
    es = [s for q in g.reach(pi) for s in g.progs[q]["sites"]
          if s in g.esites]
    if es and rng.random() < 0.6:
      c["active"][rng.choice(es)] = rng.choice(EXC_ENV)
    calls.append(c)
  return {"kind": "flow", "progs": g.progs,
          "setup": [common.init_call(g, rng, pi, pi, 0, 0)],
          "tasks": [{"name": "t", "calls": calls}]}


def dup(keys):
  seen = set()
  for k in keys:
    k = tuple(k)
    if k in seen:
      return k
    seen.add(k)
  return None


def run(case):
  if case["kind"] == "seq":
    return run_seq(case)
  res = core.Res()
  outs, infos, _, _ = core.run_case(case, res)
  for t in case["tasks"]:
    for i, r in sorted(outs.get(t["name"], {}).items()):
      keys = r.get("keys")
      if keys is None:
        continue
      res.count("keys observed", len(keys))
      d = dup_of_call(case, t["calls"][i], keys)
      if d is not None:
        res.fail("repeat", "task %s call %d: key %s was handed out twice" % (
            t["name"], i, list(d)))
  if res.violation is None and case["kind"] == "exact":
    core.judge_model(case, res, outs, infos)
  if res.violation is None and case["kind"] == "flow":
    # Each call alone, in a fresh process.
    for t in case["tasks"]:
      for i, c in enumerate(t["calls"]):
        if "keys" not in outs[t["name"]].get(i, {}) or i == 0:
          continue
        solo = dict(case)
        solo["tasks"] = [{"name": "t", "calls": [c]}]
        so, _, _, _ = core.run_case(solo, core.Res())
        if so["t"][0].get("keys") != outs[t["name"]][i]["keys"]:
          res.fail("history", "call %d: keys depend on earlier calls: %s" % (
              i, core.diff(outs[t["name"]][i], so["t"][0])))
  modelled.finish(case, res, outs)
  res.nontrivial = res.stats.get("keys observed", 0) > 1
  return res


def dup_of_call(case, call, keys):
  """Two RNG scopes opened with equal keys hand out equal keys: not judged."""
  seeds = []

  def walk(x):
    if isinstance(x, list):
      if x and x[0] == "rng":
        seeds.append(x[1])
      if x and x[0] in ("loop", "scan", "fori", "while"):
        inner = []
        find(x, inner)
        seeds.extend(inner * 2)
      for v in x:
        walk(v)
    elif isinstance(x, dict):
      for v in x.values():
        walk(v)

  def find(x, out):
    if isinstance(x, list):
      if x and x[0] == "rng":
        out.append(x[1])
      for v in x:
        find(v, out)
    elif isinstance(x, dict):
      for v in x.values():
        find(v, out)
  p = case["progs"][call["prog"]]
  walk(p["body"])
  scopes = []
  find(p["classes"], scopes)  # methods may be called any number of times
  if scopes or len(seeds) != len(set(seeds)) or call["rng"] in seeds:
    return None
  return dup(keys)


# ------------------------------------------------------------- PRNGSequence


def gen_seq(rng):
  n = rng.choice([1, 1, 2])
  ops = []
  for _ in range(rng.randrange(3, 16)):
    s = rng.randrange(n)
    k = rng.random()
    if k < 0.35:
      op = ["next", s]
    elif k < 0.55:
      op = ["take", s, rng.randrange(0, 5)]
    elif k < 0.75:
      op = ["reserve", s, rng.randrange(0, 5)]
    elif k < 0.88:
      op = ["state", s]
    else:
      op = ["clone", s]
    if op[0] != "state" and op[0] != "clone" and rng.random() < 0.25:
      op = ["fault", rng.choice([0, 0, 0, 1, 2]), rng.choice(EXC_ENV), op]
    ops.append(op)
  return {"kind": "seq", "seeds": [rng.randrange(1000) + 1000 * i
                                   for i in range(n)], "ops": ops,
          "form": rng.choice(["int", "key", "jnp"])}


def run_seq(case):
  import jax.numpy as jnp  # pylint: disable=g-import-not-at-top
  res = core.Res()
  sched.set_mode(sched.E.CALL)
  hk = load.fresh()
  form = {"int": int, "key": key_of, "jnp": lambda s: jnp.asarray(key_of(s))}
  seqs = [hk.PRNGSequence(form[case["form"]](s)) for s in case["seeds"]]
  models = [model_lib.Seq((0, s)) for s in case["seeds"]]
  got = [[] for _ in seqs]
  log = []
  plane = sched.plane()

  def t(k):
    return tuple(int(v) for v in np.asarray(k))

  def real(op):
    q = seqs[op[1]]
    if op[0] == "next":
      return [t(next(q))]
    if op[0] == "take":
      return [t(k) for k in q.take(op[2])]
    if op[0] == "reserve":
      q.reserve(op[2])
    return []

  def model(op):
    m = models[op[1]]
    if op[0] == "next":
      return [m.next()]
    if op[0] == "take":
      m.reserve(op[2] - len(m.sub))
      return [m.next() for _ in range(op[2])]
    m.reserve(op[2])
    return []

  for n, op in enumerate(case["ops"]):
    if op[0] == "fault":
      exc = EXC[op[2]]("injected")
      plane.arm(op[1], exc)
      try:
        try:
          keys = real(op[3])
          raised = None
        finally:
          fired = plane.disarm()
      except BaseException as e:  # pylint: disable=broad-except
        raised = e
        keys = None
      op = op[3]
      if fired:
        res.count("failing JAX call")
        if raised is not exc:
          res.fail("identity", "op %d: the failure of a JAX call did not reach "
                   "the caller" % n)
          break
        log.append("failed")
        continue
    elif op[0] == "state":
      st = seqs[op[1]].internal_state
      seqs[op[1]].replace_internal_state(st)
      continue
    elif op[0] == "clone":
      # A sequence made from the internal state goes on like the original.
      c = hk.PRNGSequence(seqs[op[1]].internal_state)
      m = models[op[1]].clone()
      a, b = [t(next(c)) for _ in range(2)], [m.next() for _ in range(2)]
      if a != b:
        res.fail("clone", "op %d: a copy of the sequence hands out %s, not %s" %
                 (n, a, b))
        break
      continue
    else:
      keys = real(op)
    want = model(op)
    got[op[1]].extend(keys)
    log.append(keys)
    if keys != want:
      res.fail("mismatch", "op %d %s: real %s, expected %s" % (
          n, op, keys, want))
      break
  for g in got:
    res.count("keys observed", len(g))
    d = dup(g)
    if d is not None:
      res.fail("repeat", "key %s was handed out twice" % (d,))
  res.nontrivial = sum(len(g) for g in got) > 1
  res.sig = res.digest = core.digest([log, case])
  return res
