"""C08: module names are unique and reproducible across calls and restarts."""
from sim.props import common
from sim.props import modelled

QUICK, THOROUGH = 6500, 400000
RULE = ("a case is a generated program rich in modules (explicit, numbered and "
        "clashing names, constructors, methods, transparent methods, "
        "properties, inheritance, modules handed to others, name scopes, lift, "
        "loops, params_dict and state_dict) and a history of init and apply "
        "calls on several threads with failing and caught constructors and "
        "methods, and process restarts. Non-trivial: more than 5 statements "
        "ran and a call returned. Oracle: the reference model; every module's "
        "name and full name is part of the observed output.")
REAL, STUB = common.REAL, common.STUB
ASSUME = ["the reference model (sim/model.py) states the documented semantics"]


def gen(seed, tier):
  rng = common.seeded(seed)
  w = dict(mod=10, call=10, scope=6, pdict=5, lift=2, nested=1, try_=4,
           raise_=3, loop=3, creator=0.5, getter=0.5, icept=0.5, key=1, rng=1,
           reserve=0.3, spawn=0.5)
  if rng.random() < 0.09:
    w.update(common.WRAP)
  g, pis = common.programs(rng, w, {"chain": 0.25}, rng.choice([1, 1, 2]))
  calls = [common.init_call(g, rng, pi, pi, 0, 0) for pi in pis]
  for _ in range(rng.randrange(3, 7)):
    pi = rng.choice(pis)
    k = rng.random()
    if k < 0.25:
      c = common.init_call(g, rng, pi, pi, 0.4)
      c["thread"] = rng.random() < 0.3
    elif k < 0.4:
      c = {"op": "restart", "how": rng.choice(["pickle", "dict"])}
    else:
      c = common.history(g, rng, pi, 1, pi, 0.4)[0]
    if c["op"] != "restart" and not c.get("thread"):
      c["worker"] = rng.choice([None, None, None, 0, 1])
    calls.append(c)
  return {"progs": g.progs, "setup": [], "tasks": [
      {"name": "t", "calls": calls}]}


run = modelled.run
