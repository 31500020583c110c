"""C13: moving statistics count every committed training step exactly once."""
import jax
import jax.numpy as jnp
import numpy as np

from sim import core
from sim import hist
from sim import job
from sim import lang
from sim import sched
from sim import stats
from sim.lang import EXC_ANY, EXC_ENV
from sim.props import c06
from sim.props import common

QUICK, THOROUGH = 1800, 120000
RULE = ("a case is a function of 1-3 random configurations of "
        "ExponentialMovingAverage, EMAParamsTree, BatchNorm, SpectralNorm, "
        "SNParamsTree and VectorQuantizerEMA (decay, warm-up, debiasing, axes, "
        "ignored parameters, dtypes, several calls per step, inside hk.jit, "
        "hk.remat, hk.scan or hk.cond, or replicated over a mapped axis), and a "
        "history of training steps, calls without update, failed steps (faults "
        "between modules and in JAX calls), checkpoints and crashes followed by "
        "restarts. Non-trivial: at least two updates were committed. Oracle: "
        "float64 NumPy recurrences give outputs and state of every call, calls "
        "without update must return the state bit for bit.")
REAL = common.REAL
STUB = c06.STUB
ASSUME = ["float32 results agree with float64 within 5e-4 relative (1e-2 for "
          "16 bit types), plus the rounding of E[x^2] - E[x]^2 in BatchNorm"]


def tree_spec(rng):
  out = {}
  for b in rng.sample(["lin", "lin/~/a", "mlp/~/linear_0", "z"],
                      rng.choice([1, 2, 2, 3])):
    # names with a numeric suffix look like numbered modules
    out[b] = {k: [2, 3] if k in ("w", "w_1") else [3] for k in
              rng.sample(["w", "b", "w2", "w_1", "b_2"],
                         rng.choice([1, 2, 2, 3]))}
  return out


def module_spec(rng, i, cross):
  kind = rng.choice(["bn", "bn", "vq"] if cross else
                    ["ema", "ema", "ema", "tree", "bn", "bn", "sn", "sntree",
                     "vq"])
  s = {"kind": kind, "name": "m%d" % i, "wrap": None, "n": 1,
       "scale": rng.choice([1.0, 1.0, 0.25, 3.0]), "dtype": "float32",
       "decay": rng.choice([0.0, 0.3, 0.5, 0.9, 0.99])}
  if kind in ("ema", "tree"):
    s["zd"] = rng.random() < 0.5
    s["warmup"] = 0 if s["zd"] else rng.choice([0, 1, 2, 3, 5])
    if rng.random() < 0.2:
      s["dtype"] = rng.choice(["float16", "bfloat16"])
      s["decay"] = rng.choice([0.0, 0.5, 0.75])
      s["scale"] = 1.0
  if kind == "ema":
    s["shape"] = rng.choice([[], [3], [2, 2], [1, 1, 2]])
    s["init"] = rng.random() < 0.3
  elif kind == "tree":
    s["tree"] = tree_spec(rng)
    s["ignore"] = rng.choice(["", "", ".*b$", "lin/.*", "[^/]*/b", "z"])
  elif kind == "bn":
    s["shape"], s["axis"], s["format"] = rng.choice([
        ([6, 2], None, "channels_last"), ([3, 2, 4], None, "channels_last"),
        ([3, 2, 4], None, "channels_first"), ([2, 3, 3, 1], None, "N...C"),
        ([4, 3, 2], [0, 1, 2], "channels_last"), ([5, 3], [0], "channels_last"),
        ([4, 2, 3], [0, 2], "NC...")])
    s["eps"] = rng.choice([1e-5, 1e-3, 0.1])
    s["scale_"], s["offset_"] = rng.random() < 0.6, rng.random() < 0.6
    s["shift"] = rng.choice([0.0, 0.5, -1.0])
    s["scale"] = rng.choice([1.0, 0.5])
    s["cross"] = cross
  elif kind in ("sn", "sntree"):
    s["eps"] = rng.choice([1e-4, 1e-2])
    s["steps"] = rng.choice([1, 1, 2, 5])
    s["shape"] = rng.choice([[3, 4], [4, 2], [2, 2, 3], [2, 1, 2, 3]])
    if kind == "sntree":
      t = tree_spec(rng)
      s["ignore"] = rng.choice([".*b$", "[^/]*/b", ".*[^w]$"])
      s["tree"] = {b: {k: [2, 3] if not k.endswith("b") else [3] for k in p}
                   for b, p in t.items()}
      if s["ignore"] == "[^/]*/b":
        s["tree"] = {b: {k: ([3, 2] if k == "b" and "/" in b else v)
                         for k, v in p.items()} for b, p in s["tree"].items()}
  elif kind == "vq":
    s["dim"], s["num"] = rng.choice([(2, 3), (3, 4), (1, 2)])
    s["shape"] = rng.choice([[6], [2, 3], [1, 2, 2]]) + [s["dim"]]
    s["cost"] = rng.choice([0.25, 1.0])
    s["eps"] = rng.choice([1e-5, 1e-2])
    s["cross"] = cross
  if not cross:
    k = rng.random()
    if k < 0.12:
      s["n"] = 2
    elif k < 0.3:
      s["wrap"] = rng.choice(["jit", "remat", "scan", "cond"])
      if s["wrap"] == "scan":
        s["n"] = 2
  return s


def gen(seed, tier):
  rng = common.seeded(seed)
  cross = rng.random() < 0.12
  groups = cross and rng.choice([None, None, [[0, 1], [2, 3]],
                                 [[0, 2], [3, 1]]])
  ms = [module_spec(rng, i, cross) for i in range(rng.choice([1, 1, 2, 3]))]
  if groups:
    ms = [dict(s, groups=groups) for s in ms if s["kind"] == "bn"]
    if not ms:
      groups = None
      ms = [module_spec(rng, 0, cross)]
  case = {"key": rng.randrange(1 << 20), "modules": ms, "x0": rng.randrange(1000),
          "cross": cross, "form": rng.choices(["eager", "jit"], [12, 1])[0]}
  if groups:
    case["groups"] = groups
    case["form"] = "eager"
  case["init"] = [flags(rng, s, True) for s in ms]
  evs = case["calls"] = []
  for _ in range(rng.randrange(3, 14)):
    k = rng.random()
    if k < 0.5:
      ev = {"ev": "call", "flags": [flags(rng, s, rng.random() < 0.9)
                                    for s in ms], "commit": True}
    elif k < 0.65:
      ev = {"ev": "call", "flags": [flags(rng, s, False) for s in ms],
            "commit": rng.random() < 0.5}
    elif k < 0.82:
      ev = {"ev": "call", "flags": [flags(rng, s, True) for s in ms],
            "commit": True}
      if rng.random() < 0.6:
        ev["active"] = {"b%d" % rng.randrange(len(ms) + 1): rng.choice(EXC_ANY)}
      else:
        ev["efault"] = [rng.randrange(40), rng.choice(EXC_ENV)]
    elif k < 0.91:
      ev = {"ev": "save", "how": c06.how(rng)}
    else:
      ev = {"ev": "restart"}
    if ev["ev"] == "call":
      ev["x"] = rng.randrange(1000)
      if rng.random() < 0.08:
        ev["thread"] = True
    evs.append(ev)
    if ev.get("active") or ev.get("efault"):
      if rng.random() < 0.7:  # the caller retries
        evs.append({k: v for k, v in ev.items()
                    if k not in ("active", "efault")})
  return case


def flags(rng, s, update):
  how = None
  if s["kind"] == "bn":
    how = "local" if not update and rng.random() < 0.3 else None
  elif s["kind"] in ("ema", "sn", "vq") and rng.random() < 0.3:
    how = "read"
  return [update, how]


class Stats:
  """The modules of one case on one simulated process."""

  def __init__(self, hk, case):
    self.hk, self.case = hk, case
    self.groups = case.get("groups")
    self.ms = [stats.build(s) for s in case["modules"]]
    self.t = hk.transform_with_state(self.fn)

  def fn(self, env, xs, flags):  # pylint: disable=redefined-outer-name
    hk = self.hk
    outs = []
    for i, (m, x, (update, how)) in enumerate(zip(self.ms, xs, flags)):
      if env.active.get("b%d" % i):
        raise env.make_exc(env.active["b%d" % i], "b%d" % i)
      mod = m.make(hk)
      f = lambda v, m=m, mod=mod, update=update, how=how: m.feed(
          mod, v, update, how)
      w = m.s["wrap"]
      if w == "jit":
        f = hk.jit(f)
      elif w == "remat":
        f = hk.remat(f)
      elif w == "cond" and not hk.running_init():
        f = lambda v, f=f: hk.cond(jnp.sum(jnp.ravel(
            jax.tree_util.tree_leaves(v)[0])) < 1e9, f, f, v)
      if w == "scan":
        _, ys = hk.scan(lambda c, v, f=f: (c, f(v)), 0,
                        jax.tree_util.tree_map(lambda *v: jnp.stack(v), *x))
        outs.append([stats.at(ys, j) for j in range(m.s["n"])])
      else:
        outs.append([f(v) for v in x])
    if env.active.get("b%d" % len(self.ms)):
      raise env.make_exc(env.active["b%d" % len(self.ms)], "end")
    return outs

  def inputs(self, x):
    def one(m, x):
      return [m.inputs(x * 31 + j) for j in range(m.s["n"])]
    if self.case["cross"]:
      # One input per replica.
      return [[stats.stack(v) for v in zip(
          *(one(m, x + 5000 * r) for r in range(4 if self.groups else 2)))]
              for m in self.ms]
    return [one(m, x) for m in self.ms]

  def init(self, env):
    key = lang.key_of(self.case["key"])
    f = lambda k, xs: self.t.init(k, env, xs, self.case["init"])
    return self.run(f, env, (key,), self.inputs(self.case["x0"]), False)

  def apply(self, env, params, state, x, flags):  # pylint: disable=redefined-outer-name
    f = lambda p, s, xs: self.t.apply(p, s, None, env, xs, flags)
    return self.run(f, env, (params, state), self.inputs(x),
                    self.case["form"] == "jit")

  def run(self, f, env, args, xs, jit):
    if self.case["cross"]:
      # Groups of replicas are not supported by jax.vmap.
      f = (jax.pmap if self.groups else jax.vmap)(
          f, axis_name="i", in_axes=(None,) * len(args) + (0,))
    if jit:
      f = jax.jit(f)
    return f(*args, xs)

  def unreplicate(self, t, group=None):
    """A mapping that every replica (of a group) must have the same of."""
    t = {b: dict(t[b]) for b in t}
    if not self.case["cross"]:
      return t, None
    group = group or (self.groups or [(0, 1)])[0]
    for b in t:
      for k, v in t[b].items():
        v = np.asarray(v)
        if not np.array_equal(v[group[0]], v[group[1]]):
          return t, "%s:%s differs between replicas" % (b, k)
        t[b][k] = jnp.asarray(v[group[0]])
    return t, None


def close(a, b, dtype, tol=0.0):
  a, b = stats.f64(a), np.asarray(b, np.float64)
  if a.shape != b.shape:
    return False
  r = 5e-4 if dtype == "float32" else 1e-2
  if not a.size:
    return True
  big = float(np.max(np.abs(b)))
  return bool(np.all(np.abs(a - b) <= (r + tol) * np.abs(b)
                     + (4e-5 if dtype == "float32" else 4e-3) * (1 + big)
                     + tol * big * 0.01))


def plain(t):
  return {b: {k: np.asarray(v) for k, v in t[b].items()} for b in t if t[b]}


def compare_state(real, want, specs, where):
  """Compares states; returns a message or None."""
  if {b: sorted(p) for b, p in real.items()} != {
      b: sorted(p) for b, p in want.items() if p}:
    return "%s: state entries are %s, should be %s" % (
        where, {b: sorted(p) for b, p in real.items()},
        {b: sorted(p) for b, p in want.items()})
  for b, p in want.items():
    dt = specs[b.split("/")[0]]["dtype"]
    for k, w in p.items():
      v = real[b][k]
      d = "int32" if k == "counter" else dt
      if str(v.dtype) != d:
        return "%s: %s:%s has dtype %s, should be %s" % (
            where, b, k, v.dtype, d)
      ok = (np.array_equal(v, w) if k == "counter" else close(v, w, dt))
      if not ok:
        return "%s: %s:%s is %s, should be %s" % (
            where, b, k, core.short(v.tolist()), core.short(
                np.asarray(w).tolist()))


def leaves(o):
  return jax.tree_util.tree_leaves(o)


def judge(model, params, state, x, flags, out, new, where, group=None):  # pylint: disable=redefined-outer-name
  """Checks one successful call given the state it started from."""
  specs = {s["name"]: s for s in model.case["modules"]}
  st = plain(state)
  params = plain(params)
  xs = model.inputs(x)
  if group is not None:
    xs, out = jax.tree_util.tree_map(
        lambda v: np.asarray(v)[list(group)], (xs, out))
  for i, m in enumerate(model.ms):
    before = {n: st.get(n) for n in m.names}
    st = m.prepare(st)
    update, how = flags[i]
    for j in range(m.s["n"]):
      o, st = m.expect(st, xs[i][j], update, how, params,
                       jax.tree_util.tree_map(np.asarray, out[i][j]))
      for k, w in o.items():
        if k.startswith("tol:"):
          continue
        r = leaves(out[i][j][k])
        wl = leaves(w)
        if len(r) != len(wl) or not all(
            close(a, b, m.s["dtype"], o.get("tol:" + k, 0.0))
            for a, b in zip(r, wl)):
          return "%s: call %d of %s returned %s %s, should be %s" % (
              where, j, m.s["name"], k,
              core.short([np.asarray(v).tolist() for v in r]),
              core.short([np.asarray(v).tolist() for v in wl]))
    if not update:
      # Read only: bit for bit what was passed in.
      got = plain(new)
      for n, b in before.items():
        for k, v in (b or {}).items():
          g = got.get(n, {}).get(k)
          if g is None or hist.leaf_digest(g) != hist.leaf_digest(v):
            return "%s: %s:%s changed from %s to %s without an update" % (
                where, n, k, v.tolist(), None if g is None else g.tolist())
  return compare_state(plain(new), st, specs, where)


def judge_init(model, params, state):
  """Init must return the first value of every entry."""
  specs = {s["name"]: s for s in model.case["modules"]}
  real = plain(state)
  # What is random is what it is.
  st = {b: {k: v for k, v in p.items() if k in ("u0", "embeddings")}
        for b, p in real.items()}
  st = {b: p for b, p in st.items() if p}
  first = {b: dict(p) for b, p in st.items()}
  xs = model.inputs(model.case["x0"])
  if model.groups:
    xs = jax.tree_util.tree_map(lambda v: v[model.groups[0]], xs)

  def see(m, st):
    for b, p in st.items():
      for k, v in p.items():
        if k == "counter":
          v = np.int32(-m.s.get("warmup", 0))
        elif k == "hidden":
          v = np.zeros(np.shape(v))
        first.setdefault(b, {}).setdefault(k, v)
  for i, m in enumerate(model.ms):
    st = m.prepare(st)
    see(m, {n: st[n] for n in m.names if n in st})
    update, how = model.case["init"][i]
    for j in range(m.s["n"]):
      if m.s["kind"] == "vq":
        d = xs[i][j].reshape(-1, m.s["dim"])
        e = stats.f64(st[m.s["name"]]["embeddings"])
        idx = ((d[:, :, None] - e[None]) ** 2).sum(1).argmin(1)
        real_out = {"encoding_indices": idx.reshape(xs[i][j].shape[:-1])}
      else:
        real_out = {}
      _, st = m.expect(st, xs[i][j], update, how, plain(params), real_out)
      see(m, {n: st[n] for n in m.names if n in st})
  return compare_state(real, first, specs, "init")


def run(case):
  import gc  # pylint: disable=g-import-not-at-top
  gc.disable()
  sched.set_mode(core.modes(case))
  res = core.Res()
  world = core.World([])
  log = []
  try:
    _run(case, res, world, log)
  finally:
    world.stop()
    gc.enable()
  res.nontrivial = res.stats.get("updates committed", 0) > 1
  res.sig = common.sig_of(case["modules"], log)
  res.digest = core.digest(log)
  return res


def _run(case, res, world, log):
  holder = {}

  def start():
    world.stop()
    world.start()
    holder["m"] = Stats(world.hk, case)
    env = lang.Env(world.hk, {}, 0)
    params, state = holder["m"].init(env)
    holder["template"] = params, state
    params, e1 = holder["m"].unreplicate(params)
    state, e2 = holder["m"].unreplicate(state)
    if e1 or e2:
      res.fail("replicas", e1 or e2)
    return params, state

  params, state = start()
  msg = judge_init(holder["m"], params, state)
  if msg:
    res.fail("init", msg)
  saved = None
  fresh = params, state
  for n, ev in enumerate(case["calls"]):
    if res.violation is not None:
      return
    model = holder["m"]
    where = "event %d" % n
    if ev["ev"] == "save":
      how = ev["how"]
      if job.names(state) != job.names(fresh[1]):
        how = dict(how, form="dict")
      saved = job.save(world.hk, params, state, how, n), how
      res.count("checkpoint " + how["form"])
      continue
    if ev["ev"] == "restart":
      res.count("restarts")
      fresh = start()
      if saved is None:
        params, state = fresh
      else:
        params, state = job.restore(world.hk, saved[0], saved[1],
                                    lambda: fresh)
      log.append(sorted(hist.tree_digest(state).items()))
      continue
    env = lang.Env(world.hk, ev.get("active", {}), 0)
    ef = ev.get("efault")

    def go(ev=ev, env=env, ef=ef, model=model):
      plane = sched.plane()
      try:
        if ef:
          plane.arm(ef[0], env.make_exc(ef[1], "env"))
        try:
          return model.apply(env, params, state, ev["x"], ev["flags"])
        finally:
          if ef:
            fired = plane.disarm()
            env.efired.append(fired)
            res.count("failing JAX call", fired)
      except sched._Abort:  # pylint: disable=protected-access
        raise
      except BaseException as e:  # pylint: disable=broad-except
        return hist.classify(e, env) + [repr(e)[:300]]
    r = sched.on_thread(go) if ev.get("thread") else go()
    if not hist.is_outside(world.hk):
      res.fail("inside", where + " left the thread inside a transform")
      return
    for x in env.injected:
      res.count("fault " + type(x).__name__)
    if isinstance(r, list):
      log.append([n, r])
      if r[0] not in ("inj",) and not any(env.efired):
        res.fail("raised", "%s raised %s" % (where, r))
      elif r[0] == "deadlock":
        res.fail("deadlock", where)
      continue
    out, new = r
    every = new
    # Each group of replicas on its own; the first one's state is kept.
    for g in reversed(model.groups or [None]):
      new, err = model.unreplicate(every, *([] if g is None else [g]))
      if err:
        res.fail("replicas", where + ": " + err)
        return
      msg = judge(model, params, state, ev["x"], ev["flags"], out, new, where,
                  g)
      if msg:
        res.fail("mismatch", msg)
        return
      res.count("groups of replicas judged", int(g is not None))
    res.count("calls judged")
    log.append([n, sorted(hist.tree_digest(new).items()),
                job.tree_bits(out)])
    if ev["commit"]:
      state = new
      res.count("updates committed", sum(
          m["n"] for m, f in zip(case["modules"], ev["flags"]) if f[0]))
    else:
      res.count("calls without update")
