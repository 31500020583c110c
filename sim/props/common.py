"""Pieces shared by the property modules."""
import random

from sim import core
from sim import gen
from sim import hist
from sim import zoo
from sim.lang import EXC_ANY, EXC_ENV

WRAP = dict(jit=3, cond=3, switch=2, scan=3, fori=3, while_=3, vmap=2, grad=2,
            eshape=2)
FORMS = ["flat", "flat", "dict", "mixed", "mutable"]

REAL = ("all of haiku/ from /repo's working tree, real Python threads, real JAX "
        "tracing and XLA CPU execution")
STUB = ("thread scheduling (baton passed by the simulator at sys.monitoring "
        "events of Haiku code), locks created by Haiku, process start (modules "
        "executed anew), failing JAX calls (raised at Haiku's call sites)")


def spec(rng, horizon=1500, reps=1, sites=5):
  """A scheduling policy and the granularity of the preemption points."""
  k = rng.randrange(10 + sites)
  if k >= 10:
    s = {"kind": "site", "depth": rng.choice([1, 1, 2, 2, 3])}
  elif k < 4:
    s = {"kind": "walk", "p": rng.choice([0.01, 0.03, 0.1, 0.3])}
  elif k < 7:
    s = {"kind": "pct", "depth": rng.randrange(1, 5),
         "horizon": rng.choice([200, horizon, 5 * horizon])}
  else:
    s = {"kind": "loc", "frac": rng.choice([0.02, 0.1, 0.3]),
         "p": rng.choice([0.3, 0.7])}
  s["seed"] = rng.randrange(1 << 30)
  if reps > 1:
    s["reps"] = 2 * reps if s["kind"] == "site" else reps
  mode = rng.choices(["line", "line+call", "instr"], [5, 3, 3])[0]
  return s, mode


def history(g, rng, pi, n, slot=0, p_fault=0.4, forms=FORMS, p_drop=0.06,
            kinds=None, norng=0.05):
  """n apply calls of program pi."""
  out = []
  for _ in range(n):
    c = dict(op="apply", prog=pi, slot=slot, x=rng.randrange(1000),
             rng=None if rng.random() < norng else rng.randrange(1000),
             active=g.active(pi, p_fault), commit=rng.random() < 0.7,
             form=rng.choice(forms))
    if rng.random() < p_drop:
      c["drop"] = rng.randrange(9)
    if rng.random() < p_drop:
      c["sdrop"] = rng.randrange(9)
    if rng.random() < 0.08:
      c["thread"] = True
    if rng.random() < 0.15 and c["form"] != "jit":
      c["rform"] = rng.choice(["int", "jnp"])
    out.append(c)
  return out


def init_call(g, rng, pi, slot=0, p_fault=0.15, norng=0.05):
  return dict(op="init", prog=pi, slot=slot, x=rng.randrange(1000),
              rng=None if rng.random() < norng else rng.randrange(1000),
              active=g.active(pi, p_fault))


def zoo_call(rng, name, op, slot, forms=FORMS, fault=0.0):
  c = dict(op=op, zoo=name, slot=slot, x=rng.randrange(1000),
           rng=rng.randrange(1000), tr=rng.random() < 0.7,
           commit=rng.random() < 0.7, form=rng.choice(forms), active={})
  if op == "init":
    c["form"] = "flat"
    c["tr"] = True
  if rng.random() < fault:
    kind = rng.choice(list(EXC_ANY))
    k = rng.randrange(3)
    if k == 0:
      c["active"] = {rng.choice(["in", "end"]): kind}
    else:
      c["efault"] = [rng.choice([0, 1, 2, 3, 5, 8, 12, 20, 30, 50]),
                     rng.choice(EXC_ENV)]
  return c


def seeded(seed):
  return random.Random(seed)


def sig_of(*things):
  return core.digest(things)


def works(g, pi):
  """Whether init and apply of the program succeed without faults."""
  slots = {}
  m = hist.model_call(g.progs, dict(op="init", prog=pi, slot=0, x=1, rng=1,
                                    active={}), slots, ())
  if m is None or "raise" in m:
    return False
  m = hist.model_call(g.progs, dict(op="apply", prog=pi, slot=0, x=1, rng=1,
                                    active={}), slots, ())
  return m is not None and "raise" not in m


def programs(rng, weights, opts=None, n=1, keep_bad=0.15, size=None):
  """A generator holding n programs, most of which work when nothing fails."""
  g = gen.G(rng, weights, opts)
  g.esites = []
  pis = []
  for _ in range(n):
    for _ in range(6):
      mark = len(g.progs)
      pi = g.program(size=size)
      if rng.random() < keep_bad or works(g, pi):
        break
      del g.progs[mark:]
    else:
      pi = g.program(size=size)
    pis.append(pi)
  return g, pis
