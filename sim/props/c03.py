"""C03: scopes cover exactly their block, also when it fails and is caught."""
from sim.props import common
from sim.props import modelled

QUICK, THOROUGH = 12000, 480000
RULE = ("a case is a generated program (modules with constructors, methods, "
        "properties, inheritance; name scopes, RNG scopes, creators, getters, "
        "interceptors, nested transforms, lift, inner threads, handlers) and a "
        "history of init and apply calls; faults of any exception type fire at "
        "seeded sites inside blocks, constructors, initialisers and hooks, and "
        "key requests fail in JAX. Non-trivial: more than 5 statements ran and "
        "a call returned. Oracle: the reference model, call by call, on "
        "outputs, names, params, state and keys.")
REAL, STUB = common.REAL, common.STUB
ASSUME = ["the reference model (sim/model.py) states the documented semantics"]


def gen(seed, tier):
  rng = common.seeded(seed)
  wrapped = rng.random() < 0.06
  w = dict(try_=6, raise_=4, creator=4, getter=4, icept=4, scope=4, rng=4,
           spawn=0.7, reserve=1, efault=1)
  if wrapped:
    w.update(common.WRAP)
  g, (pi,) = common.programs(rng, w, {"opt": 0.05})
  calls = [common.init_call(g, rng, pi, 0, 0, 0),
           common.init_call(g, rng, pi, 0, 0.7)]
  calls += common.history(g, rng, pi, rng.randrange(2, 5), 0, 0.8, p_drop=0.03)
  case = {"progs": g.progs, "setup": [], "tasks": [
      {"name": "t", "calls": calls}]}
  return case


run = modelled.run
