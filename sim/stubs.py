"""Stand-ins for the packages the examples need and this sandbox lacks."""
import sys
import types

import jax
import jax.numpy as jnp


class GradientTransformation:

  def __init__(self, init, update):
    self.init, self.update = init, update


def adam(lr, b1=0.9, b2=0.999, eps=1e-8, **_):
  def init(params):
    z = jax.tree_util.tree_map(jnp.zeros_like, params)
    return {"n": jnp.zeros([], jnp.int32), "mu": z, "nu": z}

  def update(g, s, params=None):
    del params
    tm = jax.tree_util.tree_map
    n = s["n"] + 1
    mu = tm(lambda m, x: b1 * m + (1 - b1) * x, s["mu"], g)
    nu = tm(lambda m, x: b2 * m + (1 - b2) * x * x, s["nu"], g)
    u = tm(lambda m, v: -lr * (m / (1 - b1 ** n)) /
           (jnp.sqrt(v / (1 - b2 ** n)) + eps), mu, nu)
    return u, {"n": n, "mu": mu, "nu": nu}
  return GradientTransformation(init, update)


def rmsprop(lr, decay=0.9, eps=1e-8, **_):
  def init(params):
    return {"nu": jax.tree_util.tree_map(jnp.zeros_like, params)}

  def update(g, s, params=None):
    del params
    tm = jax.tree_util.tree_map
    nu = tm(lambda m, x: decay * m + (1 - decay) * x * x, s["nu"], g)
    return tm(lambda x, v: -lr * x / jnp.sqrt(v + eps), g, nu), {"nu": nu}
  return GradientTransformation(init, update)


def sgd(lr, **_):
  return GradientTransformation(
      lambda p: (), lambda g, s, params=None: (
          jax.tree_util.tree_map(lambda x: -lr * x, g), s))


def clip_by_global_norm(m):
  def update(g, s, params=None):
    del params
    n = jnp.sqrt(sum(jnp.sum(x * x) for x in jax.tree_util.tree_leaves(g)))
    k = jnp.minimum(1.0, m / (n + 1e-9))
    return jax.tree_util.tree_map(lambda x: x * k, g), s
  return GradientTransformation(lambda p: (), update)


def chain(*ts):
  def update(g, s, params=None):
    out = []
    for t, x in zip(ts, s):
      g, x = t.update(g, x, params)
      out.append(x)
    return g, tuple(out)
  return GradientTransformation(lambda p: tuple(t.init(p) for t in ts), update)


def apply_updates(params, updates):
  return jax.tree_util.tree_map(lambda p, u: p + u, params, updates)


def mod(name, **attrs):
  m = sys.modules.get(name)
  if m is None or not getattr(m, "_stub", False):
    m = types.ModuleType(name)
    m._stub = True  # pylint: disable=protected-access
    m.__path__ = []
    sys.modules[name] = m
  for k, v in attrs.items():
    setattr(m, k, v)
  return m


def install_optax():
  return mod("optax", GradientTransformation=GradientTransformation, adam=adam,
             rmsprop=rmsprop, sgd=sgd, chain=chain, apply_updates=apply_updates,
             clip_by_global_norm=clip_by_global_norm, OptState=object)


class _Anything:

  def __getattr__(self, name):
    if name.startswith("__"):
      raise AttributeError(name)
    return _Anything()

  def __call__(self, *a, **k):
    return _Anything()


def install_tensorflow():
  a = _Anything()
  v2 = mod("tensorflow.compat.v2", data=a, enable_v2_behavior=lambda: None)
  compat = mod("tensorflow.compat", v2=v2)
  mod("tensorflow", compat=compat, data=a)
  mod("tensorflow_datasets", load=a)


def install_rl():
  """dm_env, rlax and bsuite, as far as the IMPALA examples use them."""
  import collections  # pylint: disable=g-import-not-at-top
  import enum  # pylint: disable=g-import-not-at-top

  class StepType(enum.IntEnum):
    FIRST = 0
    MID = 1
    LAST = 2

  class TimeStep(collections.namedtuple("TimeStep", [
      "step_type", "reward", "discount", "observation"])):
    __slots__ = ()

    def first(self):
      return self.step_type == StepType.FIRST

    def mid(self):
      return self.step_type == StepType.MID

    def last(self):
      return self.step_type == StepType.LAST

  mod("dm_env", StepType=StepType, TimeStep=TimeStep, Environment=object,
      restart=lambda obs: TimeStep(StepType.FIRST, None, None, obs),
      transition=lambda r, o: TimeStep(StepType.MID, r, 1.0, o),
      termination=lambda r, o: TimeStep(StepType.LAST, r, 0.0, o))

  def logp(logits, a):
    return jnp.take_along_axis(
        jax.nn.log_softmax(logits), a[..., None].astype("int32"), -1)[..., 0]

  Vtrace = collections.namedtuple("V", ["errors", "pg_advantage", "q_estimate"])

  def vtrace(v_tm1, v_t, r, d, rho):
    e = jnp.minimum(rho, 1.0) * (r + d * v_t - v_tm1)
    return Vtrace(e, jax.lax.stop_gradient(e), v_tm1 + e)

  def entropy(logits, w):
    p = jax.nn.softmax(logits)
    return jnp.mean(w * jnp.sum(p * jax.nn.log_softmax(logits), -1))
  mod("rlax",
      categorical_importance_sampling_ratios=lambda p, q, a: jnp.exp(
          logp(p, a) - logp(q, a)),
      vtrace_td_error_and_advantage=vtrace,
      policy_gradient_loss=lambda l, a, adv, w: jnp.mean(
          -logp(l, a) * adv * w),
      entropy_loss=entropy)
  catch = mod("bsuite.environments.catch", Catch=object)
  envs = mod("bsuite.environments", catch=catch)
  mod("bsuite", environments=envs)
  # What the examples use of the JAX of their time.
  import jax.experimental  # pylint: disable=g-import-not-at-top
  if not hasattr(jax, "tree_multimap"):
    jax.tree_multimap = jax.tree_util.tree_map
  opt = mod("jax.experimental.optimizers", l2_norm=lambda t: jnp.sqrt(
      sum(jnp.sum(x * x) for x in jax.tree_util.tree_leaves(t))))
  jax.experimental.optimizers = opt
  return TimeStep, StepType
