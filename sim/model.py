"""Reference model of Haiku: executes the programs of lang.py without Haiku.

Plain dictionaries, lists and Python integers. The only JAX function used is
jax.random.split, as the definition of how keys are derived.
"""
import collections
import copy
import re

import jax
import numpy as np

from sim.lang import CATCH, EXC, crc, wrap32


class HkError(Exception):
  """Haiku is required to raise some exception here."""


class Injected(BaseException):

  def __init__(self, kind, site):
    super().__init__(kind, site)
    self.kind = kind
    self.site = site


class Undefined(BaseException):
  """The model does not define what happens; the run is not judged."""


_split_cache = {}


def split(key, n):
  r = _split_cache.get((key, n))
  if r is None:
    a = np.asarray(jax.random.split(np.array(key, np.uint32), n))
    r = tuple((int(k[0]), int(k[1])) for k in a)
    if len(_split_cache) > 200000:
      _split_cache.clear()
    _split_cache[(key, n)] = r
  return r


class Seq:
  __slots__ = ("key", "sub")

  def __init__(self, key, sub=()):
    self.key = key
    self.sub = list(sub)

  def reserve(self, n):
    if n > 0:
      ks = split(self.key, n + 1)
      self.key = ks[0]
      self.sub.extend(ks[1:])

  def next(self):
    if not self.sub:
      self.reserve(1)
    return self.sub.pop(0)

  def clone(self):
    return Seq(self.key, self.sub)


class MMod:

  def __init__(self):
    self.name = None
    self.sub = set()
    self._v = {}


VALID = re.compile(r"^[a-zA-Z_]([a-zA-Z0-9_])*$")


class Scope:
  __slots__ = ("mod", "method", "counter", "used")

  def __init__(self, mod, method):
    self.mod = mod
    self.method = method
    self.counter = collections.Counter()
    self.used = set()

  def clone(self):
    s = Scope(self.mod, self.method)
    s.counter = collections.Counter(self.counter)
    s.used = set(self.used)
    return s


class Frame:

  def __init__(self, params, state, rng, frozen):
    self.params = params
    self.state = state
    self.rngs = [rng]
    self.frozen = frozen
    self.scopes = [Scope(None, None)]

  def evolve(self):
    f = Frame({b: dict(p) for b, p in self.params.items()},
              {b: dict(p) for b, p in self.state.items()}, None, self.frozen)
    f.rngs = [None if self.rngs[-1] is None else self.rngs[-1].clone()]
    f.scopes = [s.clone() for s in self.scopes]
    return f

  def commit(self, f):
    """Takes over the effects recorded in an evolved frame."""
    self.params.clear()
    self.params.update(f.params)
    self.state.clear()
    self.state.update(f.state)
    if f.rngs[0] is not None:
      self.rngs[-1].key = f.rngs[0].key
      self.rngs[-1].sub = list(f.rngs[0].sub)


class MEnv:

  def __init__(self, active, x, efired=()):
    self.active = active
    self.x = x
    self.xe = None
    self.acc = 0
    self.efired = list(efired)
    self.epos = [0]
    self.keys = []

  def fold(self, v):
    if isinstance(v, tuple):
      if len(v) == 2 and v[0] == "key":
        v = v[1][0] ^ v[1][1]
      else:
        v = 0 if 0 in v[1] else v[2] * 8
    self.acc = wrap32(self.acc * 31 + v)

  def child(self, x):
    e = MEnv(self.active, x)
    e.efired = self.efired
    e.epos = self.epos
    return e


class MCtx:
  __slots__ = ("mod", "vars")

  def __init__(self, mod, vars_):
    self.mod = mod
    self.vars = vars_

  def get(self, var):
    m = self.vars.get(var)
    if m is None and self.mod is not None:
      m = self.mod._v.get(var)
    return m

  def child(self):
    return MCtx(self.mod, dict(self.vars))


def val(shape, v):
  return ("arr", tuple(shape), wrap32(v)) if shape else wrap32(v)


def shape_of(v):
  return v[1] if isinstance(v, tuple) else ()


def add(v, t):
  if isinstance(v, tuple):
    return ("arr", v[1], wrap32(v[2] + t))
  return wrap32(v + t)


class Model:

  def __init__(self, progs):
    self.progs = progs
    self.frames = []
    self.creators = {"params": [], "state": []}
    self.getters = {"params": [], "state": []}
    self.icepts = []
    self.counting = None
    self.strict = 0

  @property
  def frame(self):
    return self.frames[-1]

  def body_fn(self, pi, env, x):
    env.acc = x
    body = self.progs[pi]["body"]
    if self.progs[pi].get("opt"):
      self.counted(pi, env, body, MCtx(None, {}))
    self.run(pi, env, body, MCtx(None, {}))

  def counted(self, pi, env, body, ctx):
    """The abstract run of optimize_rng_use, which counts key requests."""
    f = self.frame
    saved = (env.acc, list(env.keys), self.counting)
    self.counting = [0]
    self.frames.append(f.evolve())
    try:
      self.run(pi, env, body, ctx)
    finally:
      self.frames.pop()
      count = self.counting[0]
      env.acc, env.keys, self.counting = saved
      if self.counting is not None:
        self.counting[0] += count
    if count:
      if f.rngs[-1] is None:
        raise Undefined()
      f.rngs[-1].reserve(count)

  def op_poke(self, pi, env, st, ctx):
    pass

  def op_opt(self, pi, env, st, ctx):
    self.counted(pi, env, st[1], ctx.child())
    self.run(pi, env, st[1], ctx.child())

  def init(self, pi, rng, env, x):
    f = Frame({}, {}, None if rng is None else Seq(rng), False)
    self.frames.append(f)
    try:
      self.body_fn(pi, env, x)
    finally:
      self.frames.pop()
    state = {b: {n: iv[0] for n, iv in p.items()} for b, p in f.state.items()}
    return clean(f.params), clean(state)

  def apply(self, pi, params, state, rng, env, x):
    if self.progs[pi].get("kind", "tws").endswith("norng"):
      rng = None
    f = Frame({b: dict(p) for b, p in params.items()},
              {b: {n: (v, v) for n, v in p.items()} for b, p in state.items()},
              None if rng is None else Seq(rng), True)
    self.frames.append(f)
    try:
      self.body_fn(pi, env, x)
    finally:
      self.frames.pop()
    state = {b: {n: iv[1] for n, iv in p.items()} for b, p in f.state.items()}
    return env.acc, clean(state)

  def run(self, pi, env, body, ctx):
    for st in body:
      getattr(self, "op_" + st[0])(pi, env, st, ctx)

  def bundle(self):
    m = self.frame.scopes[-1].mod
    if m is None:
      return "~"
    if m.name is None:
      raise HkError("no name yet")
    return m.name

  def run_init(self, pi, env, spec, shape):
    self.run(pi, env, spec.get("body", ()), MCtx(None, {}))
    return val(shape, spec["v"])

  def context(self, full, shape, has_dtype=True):
    """What a custom creator or getter is told about the value."""
    owner, name = full.rsplit("/", 1)
    return crc("|".join([
        full, owner, name, owner,
        "int32" if has_dtype else "float32",  # the default
        "?" if shape is None else str(list(shape))]))

  def create(self, pi, env, which, full, shape, init):
    chain = list(self.creators[which])

    def nxt(init):
      if not chain:
        return init()
      cpi, cenv, spec = chain.pop(0)
      cenv.fold(spec["tag"])
      cenv.fold(self.context(full, shape))
      self.run(cpi, cenv, spec["pre"], MCtx(None, {}))
      if spec["mode"] == "skip":
        v = val(shape, spec["tag"])
      elif spec["mode"] == "const":
        v = nxt(lambda: val(shape, spec["tag"]))
      else:
        v = nxt(init)
        if spec["mode"] == "add":
          v = add(v, spec["tag"])
      self.run(cpi, cenv, spec["post"], MCtx(None, {}))
      return v
    return nxt(init)

  def get(self, which, full, v, shape):
    chain = list(self.getters[which])

    def nxt(v):
      if not chain:
        return v
      cpi, cenv, spec = chain.pop(0)
      cenv.fold(spec["tag"])
      cenv.fold(self.context(full, shape, shape is not None))
      self.run(cpi, cenv, spec["pre"], MCtx(None, {}))
      if spec["mode"] == "add":
        v = add(v, spec["tag"])
      if spec["mode"] != "skip":
        v = nxt(v)
      self.run(cpi, cenv, spec["post"], MCtx(None, {}))
      return v
    return nxt(v)

  def op_param(self, pi, env, st, ctx):
    _, name, shape, init = st
    f = self.frame
    b = self.bundle()
    full = b + "/" + name
    v = f.params.get(b, {}).get(name)
    if v is None:
      if f.frozen:
        raise HkError("missing parameter")
      if self.strict:
        raise Undefined()
      v = self.create(pi, env, "params", full, shape,
                      lambda: self.run_init(pi, env, init, shape))
      f.params.setdefault(b, {})[name] = v
    v = self.get("params", full, v, shape)
    if shape_of(v) != tuple(shape):
      raise HkError("shape")
    env.fold(v)

  def op_gets(self, pi, env, st, ctx):
    _, name, init = st
    f = self.frame
    b = self.bundle()
    full = b + "/" + name
    pair = f.state.get(b, {}).get(name)
    if pair is None:
      if init is None:
        raise HkError("no init")
      if self.strict:
        raise Undefined()
      v = self.create(pi, env, "state", full, (),
                      lambda: self.run_init(pi, env, init, ()))
      f.state.setdefault(b, {})[name] = (v, v)
    else:
      v = pair[1]
    self.fold_state(env, name, self.get("state", full, v,
                                        None if init is None else ()))

  def fold_state(self, env, name, v):
    env.fold(v)
    if name == "t":  # a pytree, which is represented by its first leaf
      env.fold(1000)

  def op_sets(self, pi, env, st, ctx):
    _, name, how, c = st
    f = self.frame
    b = self.bundle()
    v = wrap32(c) if how == "const" else wrap32(env.acc ^ c)
    pair = f.state.get(b, {}).get(name)
    if pair is None:
      if self.strict:
        raise Undefined()
      f.state.setdefault(b, {})[name] = (v, v)
    else:
      f.state[b][name] = (pair[0], v)

  def seq(self):
    s = self.frame.rngs[-1]
    if s is None:
      raise HkError("no rng")
    return s

  def op_key(self, pi, env, st, ctx):
    how, n = st[1], st[2]
    self.trip(env)
    if how == "one":
      if self.counting is not None:
        self.counting[0] += 1
      keys = [self.seq().next()]
    elif how == "many":
      s = self.seq()
      s.reserve(max(n - len(s.sub), 0))
      keys = [s.next() for _ in range(n)]
    else:
      s = self.frame.rngs[-1]
      keys = [] if s is None else [s.next()]
    env.fold(len(keys))
    for k in keys:
      env.keys.append(k)
      env.fold(("key", k))

  def op_reserve(self, pi, env, st, ctx):
    self.trip(env)
    self.seq().reserve(st[1])

  # Environment faults: whether the armed fault fired was observed on the real
  # run. If it did, the statement below fails as a whole, without any effect.

  _trip = None

  def trip(self, env):
    if self._trip is not None:
      kind, site = self._trip
      self._trip = None
      if self.counting is not None:
        raise Undefined()  # whether a request that fails is counted
      raise Injected(kind, site)

  def op_efault(self, pi, env, st, ctx):
    _, site, _, body = st
    kind = env.active.get(site)
    if kind is not None:
      pos = env.epos[0]
      env.epos[0] += 1
      if pos >= len(env.efired):
        raise Undefined()
      if env.efired[pos]:
        self._trip = (kind, site)
    self.run(pi, env, body, ctx)
    if self._trip is not None:
      self._trip = None
      raise Undefined()

  def op_rng(self, pi, env, st, ctx):
    f = self.frame
    f.rngs.append(Seq((0, st[1])))
    try:
      self.run(pi, env, st[2], ctx)
    finally:
      f.rngs.pop()

  # ---------------------------------------------------------------- modules

  def unique(self, name):
    """Names a module under construction (its scope is on top)."""
    f = self.frame
    caller = f.scopes[-2]
    if caller.mod is not None:
      if caller.method == "__init__":
        name = "~/" + name
      elif caller.method != "__call__":
        name = "~" + caller.method + "/" + name
      if caller.mod.name is None:
        raise HkError("super ctor")
      name = caller.mod.name + "/" + name
    m = re.match(r"^(.*)_(\d+)$", name)
    if m:
      base, n = m.group(1), int(m.group(2))
      caller.counter[base] = max(caller.counter[base], n + 1)
      q = "%s_%d" % (base, n)
    else:
      n = caller.counter[name]
      caller.counter[name] += 1
      q = "%s_%d" % (name, n) if n else name
    if q in caller.used:
      raise HkError("not unique")
    caller.used.add(q)
    return q

  def call_method(self, pi, env, mod, method, fn, valued):
    """fn runs the body. Wraps it with scope, interceptors, notification."""
    f = self.frame
    f.scopes.append(Scope(mod, method))
    depth = len(f.scopes)
    try:
      chain = list(self.icepts)

      def nxt():
        if not chain:
          return fn()
        ipi, ienv, spec = chain.pop(0)
        ienv.fold(spec["tag"])
        ienv.fold(crc(method))
        ienv.fold(crc("?" if mod.name is None else mod.name))
        self.run(ipi, ienv, spec["pre"], MCtx(None, {}))
        if spec["mode"] == "skip" and valued:
          out = None
        elif spec["mode"] == "short":
          out = fn()
        else:
          out = nxt()
        self.run(ipi, ienv, spec["post"], MCtx(None, {}))
        return out
      out = nxt()
      if mod.name is not None:
        for s in f.scopes[:-1]:
          if s.mod is not None and s.mod is not mod:
            s.mod.sub.add(mod.name)
    finally:
      assert len(f.scopes) == depth
      f.scopes.pop()
    return out

  def construct(self, pi, env, name, pre, ctor, ctx_vars):
    m = MMod()

    def fn():
      self.run(pi, env, pre, MCtx(None, {}))
      if ctor is None:
        return
      if not VALID.match(name):
        raise HkError("not a valid name")
      m.name = self.unique(name)
      self.run(pi, env, ctor, MCtx(m, m._v))
    self.call_method(pi, env, m, "__init__", fn, False)
    if m.name is None:
      raise HkError("super constructor not called")
    return m

  def op_mod(self, pi, env, st, ctx):
    _, var, ci, name = st[:4]
    spec = self.progs[pi]["classes"][ci]
    m = self.construct(pi, env, spec["snake"] if name is None else name, spec["pre"],
                       None if len(st) > 4 else spec["ctor"], None)
    ctx.vars[var] = m
    m.pi, m.ci = pi, ci
    env.fold(crc(m.name))
    env.fold(crc(m.name.split("/")[-1]))

  def op_call(self, pi, env, st, ctx):
    _, var, how = st
    m = ctx.get(var)
    if m is None:
      return
    body = self.body_of(m.pi, m.ci, how)
    fn = lambda: self.run(m.pi, env, body, MCtx(m, {}))
    if how == "trans":
      fn()
    else:
      method = {"call": "__call__"}.get(how, how)
      self.call_method(pi, env, m, method, fn, how in ("call", "other"))

  def body_of(self, pi, ci, how):
    spec = self.progs[pi]["classes"][ci]
    while how in spec.get("inh", ()):
      spec = self.progs[pi]["classes"][spec["base"]]
    return spec[how]

  def op_super(self, pi, env, st, ctx):
    _, how, ci = st
    m = ctx.mod
    body = self.body_of(pi, ci, how)
    self.call_method(pi, env, m, "__call__" if how == "call" else how,
                     lambda: self.run(pi, env, body, MCtx(m, {})), True)

  def op_give(self, pi, env, st, ctx):
    to, what = ctx.get(st[1]), ctx.get(st[2])
    if to is not None and what is not None:
      to._v["g0"] = what

  def new_scope(self, pi, env, name):
    f = self.frame
    pushed = 0
    m = None
    try:
      if not name or name[0] == "/":
        raise HkError("bad scope name")
      for sub in name.split("/"):
        m = self.construct(pi, env, sub, [], [], None)
        f.scopes.append(Scope(m, "__call__"))
        pushed += 1
    finally:
      for _ in range(pushed):
        f.scopes.pop()
    return m

  def in_scope(self, pi, env, m, body, ctx):
    f = self.frame
    f.scopes.append(Scope(m, "__call__"))
    try:
      self.run(pi, env, body, ctx)
    finally:
      f.scopes.pop()

  def op_scope(self, pi, env, st, ctx):
    self.in_scope(pi, env, self.new_scope(pi, env, st[1]), st[2], ctx)

  def op_nscope(self, pi, env, st, ctx):
    ctx.vars[st[1]] = [self.new_scope(pi, env, st[2]), False]

  def op_within(self, pi, env, st, ctx):
    scope = ctx.get(st[1])
    if scope is None:
      return
    if scope[1]:
      raise HkError("not reusable or reentrant")
    scope[1] = True
    self.in_scope(pi, env, scope[0], st[2], ctx)

  def op_creator(self, pi, env, st, ctx):
    _, spec, body = st
    self._with(self.creators, spec, (pi, env, spec), pi, env, body, ctx)

  def op_getter(self, pi, env, st, ctx):
    _, spec, body = st
    self._with(self.getters, spec, (pi, env, spec), pi, env, body, ctx)

  def _with(self, stacks, spec, item, pi, env, body, ctx):
    on = [stacks[w] for w in ("params", "state") if spec[w]]
    for s in on:
      s.append(item)
    try:
      self.run(pi, env, body, ctx)
    finally:
      for s in on:
        s.pop()

  def op_icept(self, pi, env, st, ctx):
    _, spec, body = st
    self.icepts.append((pi, env, spec))
    try:
      self.run(pi, env, body, ctx)
    finally:
      self.icepts.pop()

  def op_try(self, pi, env, st, ctx):
    _, catch, body, handler = st
    try:
      self.run(pi, env, body, ctx)
    except HkError:
      if self.tainted:
        raise Undefined()
      env.fold(crc("caught hk"))
      self.run(pi, env, handler, ctx)
    except Injected as e:
      if not issubclass(EXC[e.kind], CATCH[catch]):
        raise
      if self.tainted:
        raise Undefined()
      env.fold(crc("caught %s" % e.site))
      self.run(pi, env, handler, ctx)

  def op_raise(self, pi, env, st, ctx):
    kind = env.active.get(st[1])
    if kind is not None:
      raise Injected(kind, st[1])

  def op_pdict(self, pi, env, st, ctx):
    m = ctx.get(st[1])
    if m is None:
      return
    which = st[2]
    out = {}

    def fn():
      f = self.frame
      for b, p in (f.params if which == "params" else f.state).items():
        if b == m.name or b.startswith(m.name + "/") or b in m.sub:
          for n, v in p.items():
            out[b + "/" + n] = v if which == "params" else v[1]
    self.call_method(pi, env, m, which + "_dict", fn, False)
    for k in sorted(out):
      env.fold(crc(k))
      self.fold_state(env, k.rsplit("/", 1)[-1], out[k])

  def op_ifinit(self, pi, env, st, ctx):
    self.run(pi, env, st[2] if self.frame.frozen else st[1], ctx)

  def op_arg(self, pi, env, st, ctx):
    env.fold(env.x)

  def op_xarg(self, pi, env, st, ctx):
    if env.xe is not None:
      env.fold(env.xe)

  def op_loop(self, pi, env, st, ctx):
    for _ in range(st[1]):
      self.run(pi, env, st[2], ctx)

  def fold_tree(self, env, t):
    for b in sorted(t):
      for n in sorted(t[b]):
        env.fold(crc(b + ":" + n))
        self.fold_state(env, n, t[b][n])

  def _sub(self):
    if any(self.creators.values()) or any(self.getters.values()) or self.icepts:
      raise Undefined()
    s = self.strict
    self.strict = 0
    return s

  def op_nested(self, pi, env, st, ctx):
    _, qi, seed, x = st
    strict = self._sub()
    try:
      p, s = self.init(qi, (0, seed), env.child(x), x)
      self.fold_tree(env, p)
      self.fold_tree(env, s)
      out, s = self.apply(qi, p, s, (0, seed + 1), env.child(x), x)
      env.fold(out)
      self.fold_tree(env, s)
    finally:
      self.strict = strict

  def op_spawn(self, pi, env, st, ctx):
    """Another thread: nothing of this one is in force there."""
    _, qi, seed, x = st
    m = Model(self.progs)
    p, s = m.init(qi, (0, seed), env.child(x), x)
    out, s2 = m.apply(qi, p, s, (0, seed + 1), env.child(x), x)
    self.fold_tree(env, p)
    self.fold_tree(env, s)
    env.fold(out)
    self.fold_tree(env, s2)

  def op_lift(self, pi, env, st, ctx):
    _, qi, seed, x, name = st
    strict = self._sub()
    if strict:
      raise Undefined()
    m = self.construct(pi, env, name, [], [], None)
    f = self.frame
    got = []

    def fn():
      if f.frozen:
        pre = m.name + "/"
        got.append(clean({b[len(pre):]: dict(p) for b, p in f.params.items()
                          if b.startswith(pre)}))
      else:
        p, s = self.init(qi, (0, seed), env.child(x), x)
        if s:
          raise HkError("stateful lift")
        for b, bun in p.items():
          if m.name + "/" + b in f.params:
            raise Undefined()  # lifted twice under one name
          f.params[m.name + "/" + b] = dict(bun)
        got.append(p)
    self.call_method(pi, env, m, "__call__", fn, True)
    p = got[0]
    self.fold_tree(env, p)
    out, s = self.apply(qi, p, {}, (0, seed + 1), env.child(x), x)
    env.fold(out)

  # --------------------------------------------------- JAX transformations

  def evolved(self, env, fn, commit=True, keep=True):
    """Runs fn in a copy of the frame; commits only if it succeeds."""
    f = self.frame
    g = f.evolve()
    saved = (env.acc, env.xe, list(env.keys))
    self.frames.append(g)
    try:
      fn()
    except BaseException:
      env.acc, env.xe, env.keys = saved
      if commit:
        self.taint()
      raise
    finally:
      self.frames.pop()
    env.xe = saved[1]
    if not keep:
      env.acc, env.keys = saved[0], saved[2]
    if commit:
      f.commit(g)

  def dry(self, pi, env, body, ctx):
    """The body is traced but has no effect."""
    self.evolved(env, lambda: self.run(pi, env, body, ctx.child()),
                 commit=False, keep=False)

  def tripped(self, env):
    # An armed environment fault makes the whole statement fail.
    if self._trip is not None:
      self.taint()
    self.trip(env)

  tainted = False

  def taint(self):
    # What a transformation that fails during init leaves behind is not
    # specified: if such a failure is caught the run is not judged.
    if not self.frame.frozen:
      self.tainted = True

  def op_jit(self, pi, env, st, ctx):
    self.tripped(env)
    body = st[2]
    if len(st) > 3 and st[3] == "two":
      body = [["const", 5]] + [["const", 6]] * (st[1] == "remat") + body
    self.evolved(env, lambda: self.run(pi, env, body, ctx.child()))

  def op_const(self, pi, env, st, ctx):
    env.fold(st[1])

  def op_flip(self, pi, env, st, ctx):
    env.acc = wrap32(env.acc ^ 1)

  def index(self, env, spec, n):
    how, c = spec
    return c % n if how == "const" else ((env.acc >> c) & 7) % n

  def op_cond(self, pi, env, st, ctx):
    _, spec, bt, bf, style = st
    self.tripped(env)
    bodies = [bt, bt] if style == "same" else [bf, bt]
    if style in ("old", "oldkw"):
      bodies[0] = [["flip"]] + bf
    self._branches(pi, env, bodies, self.index(env, spec, 2), ctx)

  def op_switch(self, pi, env, st, ctx):
    _, spec, bodies = st
    self.tripped(env)
    self._branches(pi, env, bodies, self.index(env, spec, len(bodies)), ctx)

  def _branches(self, pi, env, bodies, i, ctx):
    self.strict += 1
    try:
      failed = []
      for b in bodies:
        try:
          self.dry(pi, env, b, ctx)
        except (HkError, Injected) as e:
          failed.append(e)
      if failed:
        self.taint()
        if len({str(e) for e in failed}) > 1:
          raise Undefined()  # which branch JAX traces first is not specified
        raise failed[0]
      self.evolved(env, lambda: self.run(pi, env, bodies[i], ctx.child()))
    finally:
      self.strict -= 1

  def _steps(self, pi, env, ctx, body, items, ys=None):
    """A loop. During init the first step may create parameters and state."""
    f = self.frame

    def loop(seq, traced=False):
      for i, x in seq:
        env.xe = x
        if traced:
          # JAX traces the body once: the names are those of the first step.
          self.evolved(env, lambda: self.run(pi, env, body, ctx.child()))
        else:
          self.run(pi, env, body, ctx.child())
        if ys is not None:
          ys[i] = wrap32(env.acc ^ 5)

    items = list(items)
    saved = (env.acc, env.xe, list(env.keys))
    try:
      if not f.frozen:
        loop(items[:1])
        items = items[1:]
      if items:
        self.strict += 1
        try:
          self.evolved(env, lambda: loop(items, True))
        finally:
          self.strict -= 1
    except BaseException:
      env.acc, env.xe, env.keys = saved
      self.taint()
      raise
    env.xe = saved[1]

  def op_scan(self, pi, env, st, ctx):
    _, xs, body, reverse, unroll = st[:5]
    self.tripped(env)
    items = list(enumerate(xs))
    if len(st) > 5 and st[5] == "none":
      items = [(i, 9) for i in range(len(xs))]
    if reverse:
      items.reverse()
    ys = {}
    self._steps(pi, env, ctx, body, items, ys)
    for i in range(len(xs)):
      env.fold(ys[i])

  def op_fori(self, pi, env, st, ctx):
    _, lo, n, body = st
    self.tripped(env)
    if not n:
      if not self.frame.frozen:
        raise Undefined()
      self.strict += 1
      try:  # traced all the same
        return self.dry(pi, env, body, ctx)
      finally:
        self.strict -= 1
    self._steps(pi, env, ctx, body, [(i, i) for i in range(lo, lo + n)])

  def op_while(self, pi, env, st, ctx):
    n, body = st[1:3]
    what = st[3] if len(st) > 3 else [None]
    self.tripped(env)
    if not self.frame.frozen:
      raise HkError("while at init")
    if what[0] is not None and (self.counting is not None
                                or any(self.getters.values())):
      raise Undefined()
    self.strict += 1
    try:
      if n == 0 or what[0] is not None:
        failed = what[0] in ("key", "set") or (
            what[0] == "read" and
            what[1] not in self.frame.state.get(self.bundle(), {}))
        try:
          self.dry(pi, env, body, ctx)
        except (HkError, Injected):
          if what[0] is not None:
            raise Undefined()  # which of the two functions is traced first
          raise
        if failed:
          raise HkError("effects in cond")

      def loop():
        for i in range(n):
          if what[0] == "read":
            pair = self.frame.state[self.bundle()][what[1]]
            if (pair[1] & 3) == 1:
              break
          env.xe = i
          self.evolved(env, lambda: self.run(pi, env, body, ctx.child()))
      self.evolved(env, loop)
    finally:
      self.strict -= 1

  def op_vmap(self, pi, env, st, ctx):
    _, xs, body = st[:3]
    named = len(st) > 3 and st[3] == "axis"
    self.tripped(env)
    outs = []
    acc0, keys0 = env.acc, list(env.keys)
    for j, x in enumerate(xs):
      def fn(x=x, j=j):
        env.acc = x
        env.xe = x
        if named:
          env.fold(j)
        self.run(pi, env, body, ctx.child())
        outs.append(env.acc)
      try:
        self.evolved(env, fn, commit=j == len(xs) - 1)
      except BaseException:
        env.acc = acc0
        raise
      env.acc = acc0
      if j < len(xs) - 1:
        env.keys = list(keys0)
    for o in outs:
      env.fold(o)

  def op_grad(self, pi, env, st, ctx):
    _, how, c, body = st[:4]
    style = st[4] if len(st) > 4 else ""
    self.tripped(env)
    self.evolved(env, lambda: self.run(pi, env, body, ctx.child()),
                 keep=style != "noaux")
    env.fold(0 if how == "grad" else 9 * c)
    if style == "three":
      env.fold(4)
    env.fold(6 * c)

  def op_eshape(self, pi, env, st, ctx):
    self.tripped(env)
    self.dry(pi, env, st[1], ctx)
    env.fold(3)


def clean(t):
  """Drops empty bundles, which Haiku may leave behind or not."""
  return {b: dict(p) for b, p in t.items() if p}
