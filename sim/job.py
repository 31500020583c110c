"""A simulated training job: steps, evaluations, checkpoints and crashes.

The job is what a user of Haiku writes: init, then a loop of steps, each of
which calls apply (for models of floats also differentiates it) and updates the
parameters. All it keeps is params, state and the step number; keys and inputs
are functions of the step number.
"""
import copy
import pickle

import jax
import jax.numpy as jnp
import numpy as np

from sim import core
from sim import hist
from sim import lang
from sim import sched


class Died(BaseException):
  """The process is gone."""


def step_key(case, i):
  return lang.key_of((case["key"] + 7919 * i) % (1 << 30))


def tree_bits(t):
  return [hist.leaf_digest(v) for v in jax.tree_util.tree_leaves(t)]


class Model:
  """What the job trains, on one simulated process."""

  def __init__(self, world, case):
    self.world, self.case = world, case
    self.jits = {}

  def input(self, x):
    if "zoo" in self.case:
      return self.world.zoo.get(self.case["zoo"])[1](x)
    return np.int32(x)

  def init(self, rng, env, x):
    if "zoo" in self.case:
      t, _ = self.world.zoo.get(self.case["zoo"])
      return t.init(rng, env, x, True)
    return self.world.rt.do_init(self.case["prog"], rng, env, x)

  def apply(self, params, state, rng, env, x, tr):
    if "zoo" in self.case:
      t, _ = self.world.zoo.get(self.case["zoo"])
      return t.apply(params, state, rng, env, x, tr)
    return self.world.rt.do_apply(
        self.case["prog"], params, state, rng, env, x)

  def _train(self, params, state, rng, env, x):
    if "zoo" not in self.case:
      out, state = self.apply(params, state, rng, env, x, True)
      new = jax.tree_util.tree_map(lambda p: p * 3 + 1, params)
      return new, state, out, None

    def loss(params):
      out, new = self.apply(params, state, rng, env, x, True)
      l = sum(jnp.sum(v * 0.1) for v in jax.tree_util.tree_leaves(out)
              if jnp.issubdtype(v.dtype, jnp.floating))
      return jnp.float32(l), (out, new)
    (_, (out, new)), g = jax.value_and_grad(loss, has_aux=True)(params)
    params = jax.tree_util.tree_map(
        lambda p, d: (p - 0.05 * d).astype(p.dtype), params, g)
    return params, new, out, g

  def run(self, fn, form, env, args):
    """Eagerly, under a jax.jit made for this call, or one kept for all calls."""
    if form == "jit":
      return jax.jit(lambda *a: fn(*a[:3], env, a[3]))(*args)
    if form == "kept":
      j = self.jits.get(fn.__name__)
      if j is None:
        quiet = lang.Env(self.world.hk, {}, 0)
        j = self.jits[fn.__name__] = jax.jit(
            lambda *a: fn(*a[:3], quiet, a[3]))
      return j(*args)
    return fn(*args[:3], env, args[3])

  def train(self, params, state, rng, env, x, form):
    return self.run(self._train, form, env, (params, state, rng, x))

  def _evaluate(self, params, state, rng, env, x):
    return self.apply(params, state, rng, env, x, False)

  def evaluate(self, params, state, rng, env, x, form):
    return self.run(self._evaluate, form, env, (params, state, rng, x))


def names(t):
  return sorted((b, k) for b in t for k in t[b])


def shuffled(d, n):
  """The same mapping in another order."""
  ks = sorted(d, key=lambda k: (lang.crc("%d:%s" % (n, k)), k))
  return {k: d[k] for k in ks}


def host(v):
  return jax.tree_util.tree_map(np.asarray, v)


def save(hk, params, state, how, n):
  """Serialises params and state to bytes."""
  kind = how["form"]
  t = (params, state)
  if kind == "pickle":
    return pickle.dumps(t, protocol=how.get("protocol", 4))
  if kind == "copy":
    return pickle.dumps(copy.deepcopy(t) if how.get("deep") else
                        (copy.copy(params), copy.copy(state)))
  if kind in ("dict", "shuffled"):
    out = [{b: {k: host(v) for k, v in p.items()} for b, p in m.items()}
           for m in t]
    if kind == "shuffled":
      out = [shuffled({b: shuffled(p, n) for b, p in m.items()}, n)
             for m in out]
    return pickle.dumps(out)
  if kind == "mutable":
    return pickle.dumps([hk.data_structures.to_mutable_dict(m) for m in t])
  if kind == "leaves":
    return pickle.dumps([np.asarray(v) for v in jax.tree_util.tree_leaves(t)])
  if kind == "map":
    rows = [[], []]
    for m, r in zip(t, rows):
      hk.data_structures.map(
          lambda b, k, v, r=r: r.append((b, k, host(v))), m)
    return pickle.dumps(rows)
  if kind == "paths":
    flat, _ = jax.tree_util.tree_flatten_with_path(
        [hk.data_structures.to_mutable_dict(m) for m in t])
    return pickle.dumps([(jax.tree_util.keystr(p), np.asarray(v))
                         for p, v in flat])
  raise ValueError(kind)


def restore(hk, blob, how, template):
  """Reads back what save wrote. template() is a fresh (params, state)."""
  kind = how["form"]
  if kind in ("pickle", "copy", "dict", "shuffled", "mutable"):
    params, state = pickle.loads(blob)
  elif kind == "leaves":
    treedef = jax.tree_util.tree_structure(template())
    params, state = jax.tree_util.tree_unflatten(treedef, pickle.loads(blob))
  elif kind == "map":
    params, state = {}, {}
    for m, rows in zip((params, state), pickle.loads(blob)):
      for b, k, v in rows:
        m.setdefault(b, {})[k] = v
  elif kind == "paths":
    rows = dict(pickle.loads(blob))
    flat, treedef = jax.tree_util.tree_flatten_with_path(
        [hk.data_structures.to_mutable_dict(m) for m in template()])
    params, state = jax.tree_util.tree_unflatten(
        treedef, [rows[jax.tree_util.keystr(p)] for p, _ in flat])
  # NumPy promotes its scalars differently, so put everything on the device.
  params = jax.tree_util.tree_map(jnp.asarray, params)
  state = jax.tree_util.tree_map(jnp.asarray, state)
  if how.get("immutable"):
    params = hk.data_structures.to_immutable_dict(params)
    state = hk.data_structures.to_immutable_dict(state)
  elif how.get("merge"):
    params = hk.data_structures.merge(params)
    state = hk.data_structures.merge(state)
  return params, state


class Job:
  """The job, run through a list of events."""

  def __init__(self, case, res):
    self.case, self.res = case, res
    self.world = core.World(case.get("progs", []))
    self.saved = None          # (blob, how, step)
    self.log = []              # (step, what, outcome)
    self.begin()

  def stop(self):
    self.world.stop()

  def call(self, ev, fn):
    """Runs a call with the faults the event asks for; returns its outcome."""
    env = lang.Env(self.world.hk, ev.get("active", {}), ev.get("x", 0))
    plane = sched.plane()
    ef = ev.get("efault")
    box = []

    def go():
      plane = sched.plane()
      try:
        if ef:
          plane.arm(ef[0], env.make_exc(ef[1], "env"))
        try:
          box.append(("ok", fn(env)))
        finally:
          if ef:
            fired = plane.disarm()
            env.efired.append(fired)
            self.res.count("failing JAX call", fired)
      except sched._Abort:  # pylint: disable=protected-access
        raise
      except BaseException as e:  # pylint: disable=broad-except
        box.append(("raise", hist.classify(e, env), repr(e)[:200]))
    if ev.get("thread"):
      sched.on_thread(go)
    elif ev.get("worker") is not None:
      self.world.on_worker(ev["worker"], go)
    else:
      go()
    self.quiet = not env.injected and not any(env.efired)
    for x in env.injected:
      self.res.count("fault " + type(x).__name__)
    if not hist.is_outside(self.world.hk):
      return ("inside", None)
    return box[0]

  def begin(self):
    """A process starts: from the last checkpoint, or from nothing."""
    self.model = Model(self.world, self.case)
    self.step = 0
    self.params = self.state = None

    def init(env):
      return self.model.init(lang.key_of(self.case["key"]), env,
                             self.model.input(self.case["xs"][0]))
    if self.saved is None:
      r = self.call({"x": self.case["xs"][0]}, init)
      if r[0] == "ok":
        self.params, self.state = jax.tree_util.tree_map(jnp.asarray, r[1])
        self.init_names = names(self.state)
        self.note("init", [sorted(hist.tree_digest(self.params).items()),
                           sorted(hist.tree_digest(self.state).items())])
      else:
        self.note("init", list(r[:2]))
    else:
      blob, how, step = self.saved

      def template():
        r = self.call({"x": self.case["xs"][0]}, lambda env: self.model.init(
            lang.key_of(3), env, self.model.input(self.case["xs"][0])))
        return r[1]
      self.params, self.state = restore(
          self.world.hk, blob, how, template)
      self.step = step

  def note(self, what, outcome):
    self.log.append((self.step, what, outcome))

  def event(self, ev):
    k = ev["ev"]
    self.res.count("events " + k)
    if k == "restart":
      self.world.stop()
      self.world = core.World(self.case.get("progs", []))
      self.begin()
      return
    if self.params is None:
      return
    form = ev.get("form", self.case["form"])
    if k == "save":
      how = ev["how"]
      if "prog" in self.case and names(self.state) != self.init_names:
        # Entries that only apply creates: init gives no template for leaves.
        how = dict(how, form="dict")
      blob = save(self.world.hk, self.params, self.state, how, self.step)
      self.saved = (blob, how, self.step)
      self.res.count("checkpoint " + ev["how"]["form"])
    elif k in ("step", "fail"):
      x = self.case["xs"][self.step % len(self.case["xs"])]
      p, s = self.params, self.state
      ev = dict(ev, x=x)
      r = self.call(ev, lambda env: self.model.train(
          p, s, step_key(self.case, self.step), env, self.model.input(x),
          form))
      if r[0] == "ok" and not self.quiet:
        return  # the function handled the fault, its result is its own
      if r[0] == "ok":
        params, state, out, g = r[1]
        o = [sorted(hist.tree_digest(params).items()),
             sorted(hist.tree_digest(state).items()), tree_bits(out),
             tree_bits(g)]
        self.note("step", o)
        if k == "step":
          self.params, self.state = params, state
          self.step += 1
      elif k == "step":
        self.note("step", list(r[:2]))
      elif r[0] == "inside":
        self.note("inside", True)
    elif k == "eval":
      p, s = self.params, self.state
      r = self.call(ev, lambda env: self.model.evaluate(
          p, s, lang.key_of(ev["x"]), env, self.model.input(ev["x"]), form))
      if not self.quiet:
        return
      if r[0] == "ok":
        out, state = r[1]
        o = [sorted(hist.tree_digest(state).items()), tree_bits(out)]
        if ev.get("commit"):
          self.state = state
      else:
        o = list(r[:2])
      self.log.append((self.step, "eval %d" % ev["x"], o))
    elif k == "other":
      core.run_calls(self.world, ev["calls"], {}, lambda *a: None)
