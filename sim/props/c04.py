"""C04: JAX control flow commits all of its effects or none."""
from sim.props import common
from sim.props import modelled

QUICK, THOROUGH = 3000, 140000
RULE = ("a case is a generated program that uses hk.jit, remat, named_call, "
        "grad, value_and_grad, cond (all call forms), switch, scan (forward, "
        "reverse, unrolled), fori_loop, while_loop, vmap and eval_shape, nested "
        "in each other, in modules and under hooks, with parameters, state and "
        "single key requests inside; user code in the bodies and the k-th call "
        "from Haiku into JAX fail and are caught or not. Non-trivial: more "
        "than 5 statements ran and a call returned. Oracle: the reference "
        "model, which executes bodies in plain Python.")
REAL, STUB = common.REAL, common.STUB
ASSUME = ["the reference model (sim/model.py) states the documented semantics"]


def gen(seed, tier):
  rng = common.seeded(seed)
  w = dict(try_=4, raise_=3, efault=7, creator=1, getter=1, icept=1, scope=1,
           rng=3, nested=0.5, lift=1, key=6, gets=5, sets=6)
  # A random subset of the transformations, each more often.
  for k, v in common.WRAP.items():
    w[k] = v * 2 if rng.random() < 0.5 else 0.3
  guarded = []
  g, (pi,) = common.programs(rng, w, {"guarded": guarded})
  guarded = [x for x in guarded if x in g.all_sites(pi)]
  calls = [common.init_call(g, rng, pi, 0, 0, 0)]
  if rng.random() < 0.3:
    calls.append(common.init_call(g, rng, pi, 0, 0.6))
  for _ in range(rng.randrange(2, 4)):
    c = common.history(g, rng, pi, 1, 0, 0.6, p_drop=0.02)[0]
    es = [s for q in g.reach(pi) for s in g.progs[q]["sites"] if s in g.esites]
    if es and rng.random() < 0.6:
      c["active"][rng.choice(es)] = rng.choice(
          ["ValueError", "TypeError", "RuntimeError", "MemoryError",
           "KeyboardInterrupt", "InjBase"])
    if guarded and rng.random() < 0.6:
      c["active"][rng.choice(guarded)] = rng.choice(
          ["ValueError", "RuntimeError", "KeyboardInterrupt", "InjBase"])
    calls.append(c)
  case = {"progs": g.progs, "setup": [], "tasks": [
      {"name": "t", "calls": calls}]}
  return case


run = modelled.run
