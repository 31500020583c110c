"""Models made of Haiku's own modules, for differential simulation.

Each entry builds a function of (x, training) on a given loaded Haiku. `sh` is
a dict of initialiser objects shared by every model of one simulated process.
Inputs are small NumPy arrays, a pure function of an integer.
"""
import random

import jax
import jax.numpy as jnp
import numpy as np

from sim import sched


def arr(n, *shape):
  r = np.random.RandomState(n % (2 ** 31))
  return r.uniform(-1, 1, shape).astype(np.float32)


def ints(n, hi, *shape):
  return np.random.RandomState(n % (2 ** 31)).randint(0, hi, shape)


def shared(hk):
  i = hk.initializers
  return {
      "tn": i.TruncatedNormal(0.3),
      "vs": i.VarianceScaling(1.0, "fan_avg", "uniform"),
      "vs2": i.VarianceScaling(2.0, "fan_in", "truncated_normal"),
      "rn": i.RandomNormal(0.5),
      "ru": i.RandomUniform(-1.0, 1.0),
      "const": i.Constant(0.25),
      "vs3": i.VarianceScaling(0.5, "fan_out", "normal"),
      "vs4": i.VarianceScaling(1.5, "fan_avg", "truncated_normal"),
      "orth": i.Orthogonal(),
      "orth2": i.Orthogonal(2.0, axis=0),
      "uns": i.UniformScaling(1.0),
      "ident": i.Identity(),
  }


def reg(d, heavy=False, noise=False):
  def dec(f):
    d[f.__name__] = {"fn": f, "heavy": heavy}
    return f
  return dec


ZOO = {}


@reg(ZOO)
def linear(hk, sh):
  def f(x, tr):
    return hk.Linear(3, w_init=sh["vs"], b_init=sh["const"])(x)
  return f, lambda n: arr(n, 2, 4)


@reg(ZOO)
def mlp(hk, sh):
  def f(x, tr):
    m = hk.nets.MLP([5, 3], w_init=sh["vs2"], b_init=sh["rn"])
    return m(x, 0.5 if tr else None, hk.next_rng_key() if tr else None)
  return f, lambda n: arr(n, 2, 4)


@reg(ZOO)
def shared_linear(hk, sh):
  def f(x, tr):
    l = hk.Linear(4, w_init=sh["orth"])
    m = hk.Linear(4, w_init=sh["tn"], name="head")
    return m(l(l(x))) + hk.Linear(4, name="linear")(x)
  return f, lambda n: arr(n, 2, 4)


@reg(ZOO)
def conv(hk, sh):
  def f(x, tr):
    y = hk.Conv2D(2, 2, w_init=sh["vs2"])(x)
    y = hk.avg_pool(y, 2, 1, "SAME")
    y = hk.Flatten()(y)
    return hk.Linear(2, w_init=sh["uns"])(y)
  return f, lambda n: arr(n, 1, 3, 3, 2)


@reg(ZOO)
def conv_more(hk, sh):
  def f(x, tr):
    y = hk.Conv1D(2, 2, w_init=sh["rn"])(x)
    y = hk.Conv1DTranspose(2, 2, w_init=sh["ru"])(y)
    y = hk.max_pool(y, (2, 1), (1, 1), "SAME")
    return hk.Bias()(y)
  return f, lambda n: arr(n, 1, 4, 2)


@reg(ZOO)
def depthwise(hk, sh):
  def f(x, tr):
    y = hk.DepthwiseConv2D(1, 2, w_init=sh["tn"])(x)
    return hk.SeparableDepthwiseConv2D(1, 2, w_init=sh["ru"])(y)
  return f, lambda n: arr(n, 1, 3, 3, 2)


@reg(ZOO)
def embed(hk, sh):
  def f(x, tr):
    e = hk.Embed(5, 3, w_init=sh["tn"])(x)
    e1 = hk.Embed(5, 3, lookup_style="ONE_HOT")(x)
    return hk.Linear(2)(e + e1)
  return f, lambda n: ints(n, 5, 4)


@reg(ZOO)
def attention(hk, sh):
  def f(x, tr):
    return hk.MultiHeadAttention(2, 2, 1.0)(x, x, x)
  return f, lambda n: arr(n, 1, 3, 4)


@reg(ZOO)
def norms(hk, sh):
  def f(x, tr):
    y = hk.LayerNorm(-1, True, True, scale_init=sh["rn"])(x)
    y = hk.InstanceNorm(True, True)(y)
    return hk.GroupNorm(2)(y)
  return f, lambda n: arr(n, 2, 3, 4)


@reg(ZOO)
def batch_norm(hk, sh):
  def f(x, tr):
    y = hk.BatchNorm(True, True, 0.9, scale_init=sh["rn"])(x, tr)
    return hk.Linear(2, w_init=sh["tn"])(y)
  return f, lambda n: arr(n, 3, 4)


@reg(ZOO)
def ema(hk, sh):
  def f(x, tr):
    w = hk.get_parameter("w", [4], x.dtype, init=sh["ru"])
    a = hk.ExponentialMovingAverage(0.7)(x * w, update_stats=tr)
    b = hk.ExponentialMovingAverage(0.9, zero_debias=False, warmup_length=2)(
        x + w, update_stats=tr)
    return a + b
  return f, lambda n: arr(n, 4)


@reg(ZOO)
def params_trees(hk, sh):
  def f(x, tr):
    inner = hk.transform(lambda x: hk.Linear(2, w_init=sh["tn"])(x))
    p = hk.experimental.lift(inner.init, name="inner")(
        hk.next_rng_key() if hk.running_init() else None, x)
    q = hk.EMAParamsTree(0.8)(p, update_stats=tr)
    s = hk.SNParamsTree(ignore_regex=".*b$")(p, update_stats=tr)
    return inner.apply(q, None, x) + inner.apply(s, None, x)
  return f, lambda n: arr(n, 2, 3)


@reg(ZOO)
def spectral(hk, sh):
  def f(x, tr):
    w = hk.get_parameter("w", [4, 3], x.dtype, init=sh["vs"])
    sn = hk.SpectralNorm(n_steps=2)
    w = sn(w, update_stats=tr)
    return x @ w * sn.sigma
  return f, lambda n: arr(n, 2, 4)


@reg(ZOO)
def vq_ema(hk, sh):
  def f(x, tr):
    y = hk.Linear(3)(x)
    r = hk.nets.VectorQuantizerEMA(3, 4, 0.25, 0.9)(y, tr)
    return r["quantize"] + r["loss"] + r["perplexity"]
  return f, lambda n: arr(n, 5, 3)


@reg(ZOO)
def vq(hk, sh):
  def f(x, tr):
    r = hk.nets.VectorQuantizer(3, 4, 0.25)(x, tr)
    return r["quantize"] + r["loss"]
  return f, lambda n: arr(n, 5, 3)


@reg(ZOO)
def lstm(hk, sh):
  def f(x, tr):
    c = hk.LSTM(3)
    y, s = hk.static_unroll(c, x, c.initial_state(2))
    return y.sum(0) + s.cell
  return f, lambda n: arr(n, 2, 2, 3)


@reg(ZOO)
def cores(hk, sh):
  def f(x, tr):
    c = hk.DeepRNN([hk.VanillaRNN(3), jnp.tanh, hk.GRU(2, w_i_init=sh["vs"])])
    y, _ = hk.static_unroll(c, x, c.initial_state(2))
    return y
  return f, lambda n: arr(n, 2, 2, 3)


@reg(ZOO)
def reset_core(hk, sh):
  def f(x, tr):
    c = hk.ResetCore(hk.VanillaRNN(3))
    reset = np.array([[True, False], [False, True]])
    y, _ = hk.static_unroll(c, (x, reset), c.initial_state(2))
    return y
  return f, lambda n: arr(n, 2, 2, 3)


@reg(ZOO)
def skip_rnn(hk, sh):
  def f(x, tr):
    c = hk.deep_rnn_with_skip_connections([hk.VanillaRNN(2), hk.VanillaRNN(2)])
    y, _ = c(x, c.initial_state(2))
    return y
  return f, lambda n: arr(n, 2, 3)


@reg(ZOO)
def conv_lstm(hk, sh):
  def f(x, tr):
    c = hk.Conv1DLSTM((3,), 2, 2)
    y, _ = c(x, c.initial_state(1))
    return y
  return f, lambda n: arr(n, 1, 3, 2)


@reg(ZOO, heavy=True)
def dynamic(hk, sh):
  def f(x, tr):
    c = hk.LSTM(2)
    y, _ = hk.dynamic_unroll(c, x, c.initial_state(2))
    return y
  return f, lambda n: arr(n, 3, 2, 2)


@reg(ZOO)
def dropout(hk, sh):
  def f(x, tr):
    y = hk.Linear(4, w_init=sh["rn"])(x)
    if tr:
      y = hk.dropout(hk.next_rng_key(), 0.4, y)
      k1, k2 = hk.next_rng_keys(2)
      y = y + jax.random.normal(k1, y.shape) + jax.random.normal(k2, y.shape)
    return y
  return f, lambda n: arr(n, 2, 4)


@reg(ZOO)
def plumbing(hk, sh):
  def f(x, tr):
    s = hk.Sequential([hk.Linear(3), jnp.tanh,
                       hk.to_module(lambda x: x * hk.get_parameter(
                           "g", [3], init=sh["rn"]))(name="fn")])
    y = hk.BatchApply(s)(x)
    y = hk.Reshape([-1])(y)
    return hk.expand_apply(lambda v: v * 2)(y)
  return f, lambda n: arr(n, 2, 2, 3)


@reg(ZOO)
def nested_modules(hk, sh):
  class Block(hk.Module):

    def __init__(self, n, name=None):
      super().__init__(name=name)
      self.n = n
      self.ctor_linear = hk.Linear(4, w_init=sh["vs"], name="pre")
      self.steps = hk.get_state("made", [], jnp.int32, init=jnp.zeros)

    def __call__(self, x, tr):
      c = hk.get_state("calls", [], jnp.int32, init=jnp.zeros)
      hk.set_state("calls", c + 1)
      x = self.ctor_linear(x)
      for i in range(self.n):
        with hk.experimental.name_scope("stage_%d" % i):
          x = jnp.tanh(hk.Linear(4, w_init=sh["tn"])(x))
      if self.n:
        x = x + Block(self.n - 1)(x, tr)
      return x + self.tail(x)

    def tail(self, x):
      return hk.Linear(4, with_bias=False)(x)

  def f(x, tr):
    return Block(2)(x, tr)
  return f, lambda n: arr(n, 2, 4)


@reg(ZOO)
def hooks(hk, sh):
  def f(x, tr):
    def creator(nxt, shape, dtype, init, context):
      return nxt(shape, dtype, init) + 1.0

    def getter(nxt, v, context):
      return nxt(v * 2.0)

    def icept(nxt, args, kwargs, context):
      return nxt(*args, **kwargs) if context.method_name != "__call__" else (
          nxt(*args, **kwargs) + 0.5)
    with hk.experimental.custom_creator(creator):
      with hk.experimental.custom_getter(getter):
        y = hk.Linear(3, w_init=sh["tn"])(x)
      with hk.experimental.intercept_methods(icept):
        y = hk.nets.MLP([3, 3])(y)
    return hk.Linear(2)(y)
  return f, lambda n: arr(n, 2, 3)


@reg(ZOO, heavy=True)
def resblock(hk, sh):
  def f(x, tr):
    return hk.nets.ResNet.BlockV1(
        2, 1, True, {"decay_rate": 0.9, "create_scale": True,
                     "create_offset": True}, False, name="b")(x, tr, False)
  return f, lambda n: arr(n, 1, 3, 3, 2)


@reg(ZOO, heavy=True)
def cond_model(hk, sh):
  def f(x, tr):
    a, b = hk.Linear(3, name="a"), hk.Linear(3, name="b")
    if hk.running_init():
      return a(x) + b(x)
    return hk.cond(x.sum() > 0, a, b, x)
  return f, lambda n: arr(n, 2, 3)


@reg(ZOO, heavy=True)
def scan_model(hk, sh):
  def f(x, tr):
    l = hk.Linear(3, w_init=sh["orth"])

    def body(c, x):
      hk.set_state("n", hk.get_state("n", [], jnp.int32, init=jnp.zeros) + 1)
      n = jax.random.uniform(hk.next_rng_key(), c.shape)
      return jnp.tanh(l(c) + x + n), c.sum()
    c, ys = hk.scan(body, x[0], x)
    return c, ys
  return f, lambda n: arr(n, 3, 3)


@reg(ZOO, heavy=True)
def jit_remat(hk, sh):
  def f(x, tr):
    l = hk.Linear(3, w_init=sh["tn"])
    bn = hk.BatchNorm(True, True, 0.8)
    y = hk.jit(l)(x)
    return hk.remat(lambda v: bn(v, tr))(y)
  return f, lambda n: arr(n, 2, 3)


@reg(ZOO)
def conv_rest(hk, sh):
  def f(x, tr):
    y = hk.Conv3D(2, 2, w_init=sh["rn"])(x)
    y = hk.Conv3DTranspose(1, 2, w_init=sh["ru"])(y)
    y = hk.Conv2DTranspose(2, 2, stride=2, w_init=sh["vs"])(y[0])
    y = hk.MaxPool((2, 2, 1), (1, 1, 1), "SAME")(y)
    return hk.AvgPool((2, 2, 1), (2, 2, 1), "VALID")(y)
  return f, lambda n: arr(n, 1, 2, 2, 2, 1)


@reg(ZOO)
def more_cores(hk, sh):
  def f(x, tr):
    c = hk.GRU(3, w_h_init=sh["orth"], b_init=sh["const"])
    y, s = c(x, c.initial_state(2))
    i = hk.IdentityCore()
    y, _ = i(y, i.initial_state(2))
    d = hk.Conv2DLSTM((2, 2), 1, 2)
    z, _ = d(x[:, :, None, None] * np.ones([1, 1, 2, 1], np.float32),
             d.initial_state(2))
    return y.sum() + z + s.sum()
  return f, lambda n: arr(n, 2, 2)


@reg(ZOO)
def half(hk, sh):
  def f(x, tr):
    x = x.astype(jnp.float16)
    y = hk.Linear(3, w_init=sh["rn"])(x)
    y = hk.BatchNorm(True, True, 0.5)(y, tr)
    return hk.ExponentialMovingAverage(0.5)(y, update_stats=tr)
  return f, lambda n: arr(n, 3, 4)


@reg(ZOO)
def many_names(hk, sh):
  def f(x, tr):
    out = 0.
    for name in ("b", "a", "a_1", "z", "a/b", "B", "a_10", "a_2"):
      with hk.experimental.name_scope(name.replace("/", "_x_")):
        out += hk.Linear(2, w_init=sh["rn"], name=name.replace("/", "_"))(x)
    for n in ("w", "W", "a", "w2", "w10"):
      out += hk.get_parameter(n, [2], init=sh["ru"])
      c = hk.get_state("s" + n, [], init=jnp.zeros)
      out += c
      if tr:
        hk.set_state("s" + n, c + out.mean())
    for n in ("later", "earlier"):
      hk.set_state(n, out.sum())
    return out
  return f, lambda n: arr(n, 2, 3)


@reg(ZOO)
def noise_state(hk, sh):
  def f(x, tr):
    s = hk.get_state("noise", [3], init=sh["rn"])
    k = hk.next_rng_key()
    if tr:
      s = s + jax.random.normal(k, s.shape)
      hk.set_state("noise", s)
      hk.reserve_rng_keys(3)
    with hk.with_rng(hk.next_rng_key()):
      d = hk.dropout(hk.next_rng_key(), 0.5, x)
    return d + s + hk.multinomial(hk.next_rng_key(), x, 3)
  return f, lambda n: arr(n, 2, 3)


@reg(ZOO)
def transparent(hk, sh):
  class Net(hk.Module):

    @hk.transparent
    def clear(self, x):
      return hk.Linear(3, name="in", w_init=sh["tn"])(x)

    @property
    def scale(self):
      return hk.get_parameter("scale", [], init=sh["const"])

    def __call__(self, x, tr):
      y = self.clear(x) * self.scale
      if tr:
        hk.set_state("last", y)
      return y + hk.get_state("last", y.shape, init=jnp.zeros)

  def f(x, tr):
    a, b = Net(), Net(name="net")
    return a(x, tr) + b(x, tr) + a(x, tr)
  return f, lambda n: arr(n, 2, 3)


@reg(ZOO)
def tied(hk, sh):
  def f(x, tr):
    inner = hk.transform(lambda x: hk.Linear(3, w_init=sh["rn"])(x))
    p = hk.experimental.lift(inner.init, name="lifted")(
        hk.next_rng_key() if hk.running_init() else None, x)
    y = inner.apply(p, None, x)
    e = hk.Embed(4, 3, w_init=sh["rn"])
    hk.set_state("calls", hk.get_state("calls", [], init=jnp.zeros) + 1)
    return y @ e.embeddings.T * hk.get_state("calls")
  return f, lambda n: arr(n, 3, 2)


@reg(ZOO, heavy=True)
def loops(hk, sh):
  def f(x, tr):
    l = hk.Linear(3, w_init=sh["orth"])
    ema = hk.ExponentialMovingAverage(0.5)

    def body(i, c):
      return ema(jnp.tanh(l(c)), tr)
    y = hk.fori_loop(0, 2, body, x)
    if hk.running_init():
      return y
    return hk.switch(jnp.int32(2), [l, jnp.tanh, ema], y)
  return f, lambda n: arr(n, 2, 3)




INITS = ("vs", "vs2", "vs3", "vs4", "orth", "orth2", "uns", "tn", "rn", "ru",
         "const", "ident")


def inits(hk, sh, n):
  """Parameters and state of seeded shapes made by the shared initialisers."""
  r = random.Random(n)
  keys = [INITS[n % len(INITS)]] * 2 + [
      r.choice(INITS) for _ in range(r.choice([0, 1, 2]))]
  items = []
  for i in range(r.choice([1, 2, 3])):
    k = r.choice(keys)
    nd = r.choice([2, 2, 3])
    shape = [r.choice([1, 2, 3, 5, 8]) for _ in range(nd)]
    dtype = r.choice([jnp.float32, jnp.float32, jnp.float32, jnp.float16])
    if k.startswith("orth"):
      dtype = jnp.float32
    items.append((k, shape, dtype, r.random() < 0.25))

  def f(x, tr):
    out = x.sum()
    for i, (k, shape, dtype, state) in enumerate(items):
      get = hk.get_state if state else hk.get_parameter
      out += get("p%d" % i, shape, dtype, init=sh[k]).sum()
    return out
  return f, lambda n: arr(n, 2)


NAMES = sorted(ZOO)
LIGHT = [n for n in NAMES if not ZOO[n]["heavy"]]


class Zoo:
  """The models of one simulated process."""

  def __init__(self, hk):
    self.hk = hk
    self.sh = shared(hk)
    self.made = {}
    self.fns = {}

  def get(self, name):
    m = self.made.get(name)
    if m is None:
      if name.startswith("inits:"):
        f, inp = inits(self.hk, self.sh, int(name[6:]))
      else:
        f, inp = ZOO[name]["fn"](self.hk, self.sh)

      def g(env, x, tr):
        sched.point("enter")
        if env is not None and env.active.get("in"):
          raise env.make_exc(env.active["in"], "in")
        y = f(x, tr)
        if env is not None and env.active.get("end"):
          raise env.make_exc(env.active["end"], "end")
        return y
      self.fns[name] = g
      m = self.made[name] = (self.hk.transform_with_state(g), inp)
    return m
