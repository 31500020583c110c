"""Reference recurrences of Haiku's moving statistics, in float64 NumPy.

Each class mirrors one module: `spec` configures it, `make` builds the real
module, `feed` calls the real one, and `expect` computes outputs and the next
state from the state passed in. States are {bundle: {name: array}}.
"""
import re

import jax
import jax.numpy as jnp
import numpy as np

from sim import zoo


def f64(v):
  return np.asarray(v).astype(np.float64)


def ema_ref(st, v, update, decay, zero_debias, warmup):
  """One call of an average. st: {counter, hidden[, average]} or {} at first."""
  out = dict(st)
  out.setdefault("counter", np.int32(-warmup))
  out.setdefault("hidden", np.zeros(v.shape))
  c = int(out["counter"]) + 1
  d = float(np.float32(decay))
  if c <= 0:
    d = 0.0
  h = f64(out["hidden"]) * d + v * (1 - d)
  avg = h / (1 - d ** c) if zero_debias else h
  if update:
    out.update(counter=np.int32(c), hidden=h, average=avg)
  return avg, out


class Ema:
  """ExponentialMovingAverage."""

  def __init__(self, s):
    self.s = s
    self.names = [s["name"]]

  def make(self, hk):
    s = self.s
    m = hk.ExponentialMovingAverage(
        s["decay"], s["zd"], s["warmup"], name=s["name"])
    if s.get("init"):
      m.initialize(s["shape"], jnp.dtype(s["dtype"]))
    return m

  def inputs(self, n):
    return (zoo.arr(n, *self.s["shape"]) * self.s["scale"]).astype(
        self.s["dtype"])

  def feed(self, m, x, update, how):
    out = {"out": m(x, update_stats=update)}
    if how == "read" and update:
      out["average"] = m.average
    return out

  def prepare(self, st):
    """What making the module adds to the state."""
    n = self.s["name"]
    if self.s.get("init"):
      b = dict(st.get(n, {}))
      b.setdefault("hidden", np.zeros(self.s["shape"]))
      b.setdefault("average", np.zeros(self.s["shape"]))
      return {**st, n: b}
    return st

  def expect(self, st, x, update, how, params, real):
    s = self.s
    avg, b = ema_ref(st.get(s["name"], {}), f64(x), update, s["decay"],
                     s["zd"], s["warmup"])
    out = {"out": avg}
    if how == "read" and update:
      out["average"] = avg
    return out, {**st, s["name"]: b}



class EmaTree(Ema):
  """EMAParamsTree."""

  def __init__(self, s):
    self.s = s
    self.key = {}
    for b, p in s["tree"].items():
      for k in p:
        n = b + "/" + k
        if not (s["ignore"] and re.match(s["ignore"], n)):
          self.key[b, k] = "%s/%s" % (
              s["name"], n.replace("/", "__").replace("~", "_tilde_"))
    self.names = sorted(self.key.values())

  def make(self, hk):
    s = self.s
    return hk.EMAParamsTree(s["decay"], s["zd"], s["warmup"], s["ignore"],
                            name=s["name"])

  def inputs(self, n):
    # The same mapping, in whatever order: that of creation at first, and the
    # sorted order that jax.tree_map leaves in a train step.
    tree = {b: {k: (zoo.arr(n + 17 * i + j, *sh) * self.s["scale"]).astype(
        self.s["dtype"]) for j, (k, sh) in enumerate(p.items())}
            for i, (b, p) in enumerate(self.s["tree"].items())}
    if n % 3 == 0:
      return tree
    return {b: {k: tree[b][k] for k in sorted(tree[b], reverse=n % 3 == 2)}
            for b in sorted(tree, reverse=n % 3 == 2)}

  def feed(self, m, x, update, how):
    return {"out": m(x, update_stats=update)}

  def prepare(self, st):
    return st

  def expect(self, st, x, update, how, params, real):
    s = self.s
    st = dict(st)
    out = {}
    for b, p in x.items():
      for k, v in p.items():
        if (b, k) in self.key:
          n = self.key[b, k]
          v, st[n] = ema_ref(st.get(n, {}), f64(v), update, s["decay"],
                             s["zd"], s["warmup"])
        out.setdefault(b, {})[k] = f64(v)
    return {"out": out}, st


class Bn:
  """BatchNorm."""

  def __init__(self, s):
    self.s = s
    self.mean = s["name"] + "/~/mean_ema"
    self.var = s["name"] + "/~/var_ema"
    self.names = [self.mean, self.var]

  def make(self, hk):
    s = self.s
    return hk.BatchNorm(
        s["scale_"], s["offset_"], s["decay"], s["eps"], axis=s["axis"],
        scale_init=hk.initializers.RandomNormal() if s["scale_"] else None,
        cross_replica_axis="i" if s.get("cross") else None,
        cross_replica_axis_index_groups=s.get("groups"),
        data_format=s["format"], name=s["name"])

  def inputs(self, n):
    x = zoo.arr(n, *self.s["shape"]) * self.s["scale"] + self.s["shift"]
    return x.astype(self.s["dtype"])

  def feed(self, m, x, update, how):
    return {"out": m(x, update, how == "local")}

  def prepare(self, st):
    return st

  def expect(self, st, x, update, how, params, real):
    s = self.s
    x = f64(x)  # with a leading axis of replicas when crossed
    lead = 1 if s.get("cross") else 0
    nd = x.ndim - lead
    ch = nd - 1 if s["format"] in ("channels_last", "N...C") else 1
    axis = s["axis"]
    if axis is None:
      axis = [i for i in range(nd) if i != ch]
    st = dict(st)
    ax = tuple(a + lead for a in axis)
    mean = x.mean(ax, keepdims=True)
    sq = (x * x).mean(ax, keepdims=True)
    if lead:
      mean, sq = mean.mean(0), sq.mean(0)
    var = sq - mean ** 2
    if not (update or how == "local"):
      mean = f64(st[self.mean]["average"])
      var = f64(st[self.var]["average"])
    if update:
      _, st[self.mean] = ema_ref(
          st.get(self.mean, {}), mean, True, s["decay"], True, 0)
      _, st[self.var] = ema_ref(
          st.get(self.var, {}), var, True, s["decay"], True, 0)
    p = params.get(s["name"], {})
    out = (x - mean) / np.sqrt(var + s["eps"])
    if s["scale_"]:
      out = out * f64(p["scale"])
    if s["offset_"]:
      out = out + f64(p["offset"])
    # Rounding of E[x^2] - E[x]^2, relative to what it is divided by.
    err = 2e-6 * (float(np.max(sq)) + 1) / (float(np.min(var)) + s["eps"])
    return {"out": out, "tol:out": err}, st


class Sn:
  """SpectralNorm."""

  def __init__(self, s):
    self.s = s
    self.names = [s["name"]]

  def make(self, hk):
    return hk.SpectralNorm(self.s["eps"], self.s["steps"], name=self.s["name"])

  def inputs(self, n):
    return zoo.arr(n, *self.s["shape"]) * np.float32(self.s["scale"])

  def feed(self, m, x, update, how):
    out = {"out": m(x, update_stats=update)}
    if how == "read":
      out["sigma"] = m.sigma
      out["u0"] = m.u0
    return out

  def prepare(self, st):
    return st

  @staticmethod
  def one(b, w, update, steps, eps):
    shape = w.shape
    w = f64(w).reshape(-1, shape[-1])
    u = f64(b["u0"])
    for _ in range(steps):
      v = u @ w.T
      v = v / np.sqrt((v * v).sum() + eps)
      u = v @ w
      u = u / np.sqrt((u * u).sum() + eps)
    sigma = (v @ w @ u.T)[0, 0]
    if update:
      b = dict(b, u0=u, sigma=sigma)
    return (w / sigma).reshape(shape), b

  def expect(self, st, x, update, how, params, real):
    s = self.s
    n = s["name"]
    out, b = self.one(st[n], x, update, s["steps"], s["eps"])
    out = {"out": out}
    if how == "read":
      b.setdefault("sigma", np.ones(()))
      out["sigma"], out["u0"] = b["sigma"], b["u0"]
    return out, {**st, n: b}


class SnTree(Sn):
  """SNParamsTree."""

  def __init__(self, s):
    self.s = s
    self.key = {}
    for b, p in s["tree"].items():
      for k in p:
        n = b + "/" + k
        if not (s["ignore"] and re.match(s["ignore"], n)):
          self.key[b, k] = "%s/%s" % (
              s["name"], n.replace("/", "__").replace("~", "_tilde"))
    self.names = sorted(self.key.values())

  def make(self, hk):
    s = self.s
    return hk.SNParamsTree(s["eps"], s["steps"], s["ignore"], name=s["name"])

  inputs = EmaTree.inputs

  def feed(self, m, x, update, how):
    return {"out": m(x, update_stats=update)}

  def expect(self, st, x, update, how, params, real):
    s = self.s
    st = dict(st)
    out = {}
    for b, p in x.items():
      for k, v in p.items():
        if (b, k) in self.key:
          n = self.key[b, k]
          v, st[n] = self.one(st[n], v, update, s["steps"], s["eps"])
        out.setdefault(b, {})[k] = f64(v)
    return {"out": out}, st


class Vq:
  """VectorQuantizerEMA."""

  def __init__(self, s):
    self.s = s
    n = s["name"]
    self.size, self.dw = n + "/~/ema_cluster_size", n + "/~/ema_dw"
    self.names = [n, self.size, self.dw]

  def make(self, hk):
    s = self.s
    return hk.nets.VectorQuantizerEMA(
        s["dim"], s["num"], s["cost"], s["decay"], s["eps"],
        cross_replica_axis="i" if s.get("cross") else None, name=s["name"])

  def inputs(self, n):
    return zoo.arr(n, *self.s["shape"]) * np.float32(self.s["scale"])

  def feed(self, m, x, update, how):
    r = m(x, update)
    out = {k: r[k] for k in ("quantize", "loss", "perplexity",
                             "encoding_indices")}
    if how == "read":
      out["embeddings"] = m.embeddings
    return out

  def prepare(self, st):
    s = self.s
    st = dict(st)
    for n, sh in ((self.size, (s["num"],)), (self.dw, (s["dim"], s["num"]))):
      b = dict(st.get(n, {}))
      b.setdefault("hidden", np.zeros(sh))
      b.setdefault("average", np.zeros(sh))
      st[n] = b
    return st

  def expect(self, st, x, update, how, params, real):
    s = self.s
    st = dict(st)
    emb = f64(st[s["name"]]["embeddings"])
    x = f64(x)
    idx = np.asarray(real["encoding_indices"])
    flat = x.reshape(-1, s["dim"])
    fi = idx.reshape(-1)
    # Ties: whatever was chosen must be nearest up to rounding.
    dist = ((flat[:, :, None] - emb[None]) ** 2).sum(1)
    best = dist.min(1)
    ok = dist[np.arange(len(fi)), fi] <= best + 1e-4 * (
        1 + (flat ** 2).sum(1) + (emb ** 2).sum(0).max())
    enc = np.eye(s["num"])[fi]
    q = emb.T[fi].reshape(x.shape)
    out = {"quantize": q, "encoding_indices": idx if ok.all() else idx + 1}
    if s.get("cross"):
      r = range(x.shape[0])
      out["loss"] = np.stack([s["cost"] * ((q[i] - x[i]) ** 2).mean()
                              for i in r])
    else:
      out["loss"] = s["cost"] * ((q - x) ** 2).mean()
    p = enc.mean(0)
    perp = np.exp(-(p * np.log(p + 1e-10)).sum())
    out["perplexity"] = np.full((x.shape[0],), perp) if s.get("cross") else perp
    if update:
      size, st[self.size] = ema_ref(
          st[self.size], enc.sum(0), True, s["decay"], True, 0)
      dw, st[self.dw] = ema_ref(
          st[self.dw], flat.T @ enc, True, s["decay"], True, 0)
      n = size.sum()
      size = (size + s["eps"]) / (n + s["num"] * s["eps"]) * n
      st[s["name"]] = {"embeddings": dw / size[None]}
    if how == "read":
      e = f64(st[s["name"]]["embeddings"])
      out["embeddings"] = np.stack([e] * x.shape[0]) if s.get("cross") else e
    return out, st


KINDS = {"ema": Ema, "tree": EmaTree, "bn": Bn, "sn": Sn, "sntree": SnTree,
         "vq": Vq}


def build(spec):
  return KINDS[spec["kind"]](spec)


def stack(xs):
  return jax.tree_util.tree_map(lambda *v: np.stack(v), *xs)


def at(x, i):
  return jax.tree_util.tree_map(lambda v: v[i], x)
