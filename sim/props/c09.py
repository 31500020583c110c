"""C09: params and state are an exact ledger over any history of calls."""
from sim.props import common
from sim.props import modelled

QUICK, THOROUGH = 9000, 400000
RULE = ("a case is a generated program (parameters, state with and without "
        "initialisers, creators, nested transforms, lift, handlers) and a "
        "history of 4-10 init and apply calls whose states are carried on or "
        "discarded, with faults of any type, params or state entries removed, "
        "all forms of params and state mappings, several threads and process "
        "restarts from serialised params and state. Non-trivial: more than 5 "
        "statements ran and a call returned. Oracle: the reference model, a "
        "plain ledger of params and state.")
REAL, STUB = common.REAL, common.STUB
ASSUME = ["the reference model (sim/model.py) states the documented semantics"]


def gen(seed, tier):
  rng = common.seeded(seed)
  w = dict(param=9, gets=8, getsn=2, sets=8, lift=3, nested=3, try_=4, raise_=3,
           creator=2, getter=1, icept=0.5, key=2, rng=1, reserve=0.3, spawn=0.5,
           scope=2, ifinit=2)
  if rng.random() < 0.08:
    w.update(common.WRAP)
  g, pis = common.programs(rng, w, {}, rng.choice([1, 1, 2]))
  calls = [common.init_call(g, rng, pi, pi, 0, 0) for pi in pis]
  for _ in range(rng.randrange(4, 10)):
    pi = rng.choice(pis)
    k = rng.random()
    if k < 0.15:
      c = common.init_call(g, rng, pi, pi, 0.5)
    elif k < 0.25:
      c = {"op": "restart", "how": rng.choice(["pickle", "dict"])}
    else:
      c = common.history(g, rng, pi, 1, pi, 0.4, p_drop=0.12)[0]
      if rng.random() < 0.1:
        c["reshape"] = rng.randrange(9)
        c["how"] = rng.randrange(6)
    calls.append(c)
  return {"progs": g.progs, "setup": [], "tasks": [
      {"name": "t", "calls": calls}]}


run = modelled.run
