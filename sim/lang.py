"""A small language of Haiku programs, executed by the real Haiku.

A program is JSON: classes of modules and a body, each body a list of
statements. Everything a program observes is folded into one int32 accumulator,
which works under JAX tracing as well, so the final value of the accumulator
plus the returned params and state is the observable behaviour of a call.
`model.py` executes the same programs on a reference model.
"""
import dataclasses
import threading
from typing import Any, Optional
import zlib

import jax
import jax.numpy as jnp
import numpy as np

from sim import sched

Tracer = jax.core.Tracer
KB = 96  # capacity of the key recorder


def crc(s):
  return zlib.crc32(s.encode()) & 0x7FFFFFFF


def wrap32(v):
  v &= 0xFFFFFFFF
  return v - (1 << 32) if v >= (1 << 31) else v


def key_of(seed):
  """jax.random.PRNGKey(seed), without a JAX call."""
  return np.array([0, seed], np.uint32)


class InjError(Exception):
  pass


class InjBase(BaseException):
  pass


class InjLookup(KeyError):
  pass


EXC = {
    "ValueError": ValueError, "KeyError": KeyError, "TypeError": TypeError,
    "RuntimeError": RuntimeError, "AssertionError": AssertionError,
    "AttributeError": AttributeError, "IndexError": IndexError,
    "OSError": OSError, "MemoryError": MemoryError,
    "RecursionError": RecursionError, "NotImplementedError": NotImplementedError,
    "KeyboardInterrupt": KeyboardInterrupt, "SystemExit": SystemExit,
    "GeneratorExit": GeneratorExit, "StopIteration": StopIteration,
    "InjError": InjError, "InjBase": InjBase, "InjLookup": InjLookup,
}
EXC_ANY = [k for k in EXC if k not in ("StopIteration", "GeneratorExit")]
# What a failing JAX call raises. Not KeyError, AttributeError and the like:
# Python's own protocols (Mapping.__contains__, getattr) swallow those.
EXC_ENV = ["ValueError", "TypeError", "RuntimeError", "AssertionError",
           "OSError", "MemoryError", "RecursionError", "NotImplementedError",
           "KeyboardInterrupt", "SystemExit", "InjError", "InjBase"]
CATCH = {"Exception": Exception, "BaseException": BaseException}


def is_exception_kind(kind):
  return issubclass(EXC[kind], Exception)


def hook_kwargs(spec):
  """The flags of custom_creator/custom_getter; defaults may be left out."""
  out = {"params": spec["params"], "state": spec["state"]}
  if spec["tag"] % 2:
    out = {k: v for k, v in out.items() if v is (k == "state")}
  return out


def fold_context(env, c):
  """What a custom creator or getter is told about the value."""
  owner = c.module.module_name if c.module is not None else "~"
  dt = c.original_dtype
  shape = c.original_shape
  env.fold(crc("|".join([
      c.full_name, c.module_name, c.name, owner,
      "?" if dt is None else np.dtype(dt).name,
      "?" if shape is None else str(list(shape))])))


class Env:
  """Everything one call of a transformed function observes."""

  def __init__(self, hk, active, x, kbuf=False):
    self.hk = hk
    self.active = active      # fault site -> exception kind
    self.x = x
    self.xe = None
    self.acc = 0
    self.injected = []        # exception objects raised by fault sites
    self.efired = []          # outcome of each environment fault, in order
    self.kb = np.zeros((KB, 2), np.uint32) if kbuf else None
    self.kn = np.int32(0)
    self.kover = False
    self.trace = 0
    self.extra = ()
    self.stmts = 0
    self.poke = None          # lets the caller act while the body runs

  def __repr__(self):
    return "env"

  # The carry is what flows through JAX transformations.
  def pack(self):
    acc = self.acc
    if not isinstance(acc, Tracer):
      acc = np.int32(acc)
    if self.kb is None:
      return acc
    return acc, self.kb, self.kn

  def unpack(self, c):
    if self.kb is None:
      acc = c
    else:
      acc, self.kb, self.kn = c
      if not isinstance(self.kb, Tracer):
        self.kb = np.array(self.kb)
      if not isinstance(self.kn, Tracer):
        self.kn = np.int32(np.asarray(self.kn))
    if not isinstance(acc, Tracer):
      acc = int(np.asarray(acc))
    self.acc = acc

  def save(self):
    return self.acc, self.kb, self.kn, self.xe, self.trace

  def restore(self, s):
    self.acc, self.kb, self.kn, self.xe, self.trace = s

  def fold(self, v):
    acc = self.acc
    if isinstance(v, Tracer):
      if v.dtype == np.uint32:
        v = v[0] ^ v[1]
        v = v.astype(np.int32)
      elif v.ndim:
        v = v.ravel()
        v = v[0] * 7 + v[-1] if v.shape[0] else 0
    elif not isinstance(v, int):
      a = np.asarray(v)
      if a.dtype == np.uint32:
        v = int(a[0]) ^ int(a[1])
      elif a.ndim:
        a = a.ravel()
        v = int(a[0]) * 7 + int(a[-1]) if a.size else 0
      else:
        v = int(a)
    if isinstance(acc, Tracer) or isinstance(v, Tracer):
      if isinstance(acc, int):
        acc = np.int32(acc)
      if isinstance(v, int):
        v = np.int32(wrap32(v))
      self.acc = acc * np.int32(31) + v
    else:
      self.acc = wrap32(acc * 31 + v)

  def record_key(self, key):
    if self.kb is None:
      return
    if (isinstance(key, Tracer) or isinstance(self.kb, Tracer)
        or isinstance(self.kn, Tracer)):
      self.kb = jnp.asarray(self.kb).at[self.kn].set(key)
      self.kn = self.kn + np.int32(1)
    else:
      n = int(self.kn)
      if n < KB:
        kb = self.kb.copy()
        kb[n] = np.asarray(key)
        self.kb = kb
      self.kn = np.int32(n + 1)

  def child(self, x):
    e = Env(self.hk, self.active, x)
    e.injected = self.injected
    e.efired = self.efired
    e.trace = self.trace
    return e

  def make_exc(self, kind, site):
    e = EXC[kind]("injected at site %s" % site)
    e.sim_site = site
    self.injected.append(e)
    return e


class Ctx:
  __slots__ = ("mod", "vars")

  def __init__(self, mod, vars_):
    self.mod = mod
    self.vars = vars_

  def get(self, var):
    m = self.vars.get(var)
    if m is None and self.mod is not None:
      m = self.mod._v.get(var)
    return m

  def child(self):
    return Ctx(self.mod, dict(self.vars))


def value(shape, v, jx):
  if jx:
    return jnp.full(shape, v, jnp.int32)
  return np.full(shape, v, np.int32)


TREE = "t"  # the state entry of this name holds a pytree


def box(hk, v):
  """The pytree that stands for `v`."""
  return (v, hk.LSTMState(v + np.int32(1000), ()))


def unbox(t):
  """The pair of numbers in such a pytree."""
  if len(t) != 2 or len(t[1]) != 2 or t[1].cell != ():
    raise TypeError("not the pytree that was set: %r" % (t,))
  return t[0], t[1].hidden - t[0]


def bump(v, tag):
  return jax.tree_util.tree_map(lambda u: u + np.int32(tag), v)


class Runtime:
  """The classes and functions of one program, built on one loaded Haiku."""

  def __init__(self, hk, progs):
    self.hk = hk
    self.progs = progs
    self.classes = {}
    self.fns = {}
    self.transformed = {}
    for i, p in enumerate(progs):
      self.classes[i] = [None] * len(p["classes"])
      for j in reversed(range(len(p["classes"]))):
        self.classes[i][j] = self.make_class(i, p["classes"][j])
      self.fns[i] = self.make_fn(i)

  def make_class(self, pi, spec):
    hk = self.hk
    rt = self

    def __init__(self, env, name=None, nosuper=False):
      object.__setattr__(self, "_v", {})
      self._env = env
      rt.run(pi, env, spec["pre"], Ctx(None, {}))
      if not nosuper:
        hk.Module.__init__(self, name=name)
        rt.run(pi, env, spec["ctor"], Ctx(self, self._v))

    def __post_init__(self):
      object.__setattr__(self, "_v", {})
      self._env = self.env
      rt.run(pi, self.env, spec["pre"], Ctx(None, {}))
      if not self.nosuper:
        hk.Module.__post_init__(self)
        rt.run(pi, self.env, spec["ctor"], Ctx(self, self._v))

    def __call__(self, acc):
      return rt.method(pi, self, spec["call"], acc)

    def other(self, acc):
      return rt.method(pi, self, spec["other"], acc)

    def prop(self):
      return rt.method(pi, self, spec["prop"], self._env.acc)

    @hk.transparent
    def trans(self, acc):
      return rt.method(pi, self, spec["trans"], acc)

    d = {"__init__": __init__, "__call__": __call__, "other": other,
         "prop": property(prop), "trans": trans}
    for how in spec.get("inh", ()):
      del d["__call__" if how == "call" else how]
    base = spec.get("base")
    base = hk.Module if base is None else self.classes[pi][base]
    if spec.get("dc"):
      del d["__init__"]
      d.update(__post_init__=__post_init__, name=None, nosuper=False,
               __annotations__={"env": Any, "name": Optional[str],
                                "nosuper": bool})
      return dataclasses.dataclass(eq=False, repr=False)(
          type(hk.Module)(spec["name"], (base,), d))
    return type(hk.Module)(spec["name"], (base,), d)

  def method(self, pi, mod, body, acc):
    env = mod._env
    if not isinstance(acc, (int, Tracer)):
      acc = int(np.asarray(acc))
    env.acc = acc
    self.run(pi, env, body, Ctx(mod, {}))
    acc = env.acc
    return acc if isinstance(acc, Tracer) else np.int32(acc)

  def make_fn(self, pi):
    def fn(env, acc):
      env.acc = acc if isinstance(acc, Tracer) else int(np.asarray(acc))
      self.run(pi, env, self.progs[pi]["body"], Ctx(None, {}))
      return env.pack()

    if self.progs[pi].get("opt"):
      inner = fn
      calls = threading.local()

      def counted(acc):
        # optimize_rng_use may only see JAX arguments; the dry run must not
        # leave anything in env.
        env, first = calls.stack[-1]
        if first:
          first.clear()
          s = env.save()
          try:
            return inner(env, acc)
          finally:
            env.restore(s)
        return inner(env, acc)
      # One wrapper for all calls, as in user code.
      counted = self.hk.experimental.optimize_rng_use(counted)

      def fn(env, acc):  # pylint: disable=function-redefined
        stack = calls.__dict__.setdefault("stack", [])
        stack.append((env, [True]))
        try:
          return counted(acc)
        finally:
          stack.pop()
    return fn

  def transform(self, pi):
    t = self.transformed.get(pi)
    if t is None:
      kind = self.progs[pi].get("kind", "tws")
      t = self.make_transformed(self.fns[pi], kind)
      self.transformed[pi] = t
    return t

  def make_transformed(self, fn, kind):
    hk = self.hk
    if kind == "tws":
      return hk.transform_with_state(fn)
    if kind == "t":
      return hk.transform(fn)
    if kind == "tws_norng":
      return hk.without_apply_rng(hk.transform_with_state(fn))
    if kind == "t_norng":
      return hk.without_apply_rng(hk.transform(fn))
    if kind == "t_ws":
      return hk.without_state(hk.transform_with_state(fn))
    raise ValueError(kind)

  def do_init(self, pi, rng, env, x):
    kind = self.progs[pi].get("kind", "tws")
    t = self.transform(pi)
    r = t.init(rng, env, x)
    return r if kind.startswith("tws") else (r, {})

  def do_apply(self, pi, params, state, rng, env, x):
    kind = self.progs[pi].get("kind", "tws")
    t = self.transform(pi)
    if kind == "tws":
      return t.apply(params, state, rng, env, x)
    if kind == "tws_norng":
      return t.apply(params, state, env, x)
    if kind == "t_norng":
      return t.apply(params, env, x), {}
    return t.apply(params, rng, env, x), {}

  # ------------------------------------------------------------- statements

  def run(self, pi, env, body, ctx):
    for st in body:
      sched.point(st[0])
      env.stmts += 1
      getattr(self, "op_" + st[0])(pi, env, st, ctx)

  def init_fn(self, pi, env, spec, ctx):
    def init(shape, dtype):
      self.run(pi, env, spec.get("body", ()), Ctx(None, {}))
      v = value(tuple(shape), spec["v"], spec.get("j"))
      return box(self.hk, v) if spec.get("tree") else v
    return init

  def op_param(self, pi, env, st, ctx):
    _, name, shape, init = st
    v = self.hk.get_parameter(
        name, shape, jnp.int32, init=self.init_fn(pi, env, init, ctx))
    env.fold(v)

  def op_gets(self, pi, env, st, ctx):
    _, name, init = st
    if init is None:
      v = self.hk.get_state(name)
    else:
      v = self.hk.get_state(
          name, [], jnp.int32, init=self.init_fn(
              pi, env, dict(init, tree=name == TREE), ctx))
    self.fold_state(env, name, v)

  def fold_state(self, env, name, v):
    if name == TREE:
      v, d = unbox(v)
      env.fold(v)
      v = d
    env.fold(v)

  def op_sets(self, pi, env, st, ctx):
    _, name, how, c = st
    if how == "const":
      v = np.int32(c)
    else:
      v = env.acc
      v = (v ^ np.int32(c)) if isinstance(v, Tracer) else np.int32(v ^ c)
    self.hk.set_state(name, box(self.hk, v) if name == TREE else v)

  def op_key(self, pi, env, st, ctx):
    how, n = st[1], st[2]
    hk = self.hk
    if how == "one":
      keys = [hk.next_rng_key()]
    elif how == "many":
      keys = hk.next_rng_keys(n)
    else:
      k = hk.maybe_next_rng_key()
      keys = [] if k is None else [k]
    env.fold(len(keys))
    for k in keys:
      env.record_key(k)
      env.fold(k)

  def op_reserve(self, pi, env, st, ctx):
    self.hk.reserve_rng_keys(st[1])

  def op_rng(self, pi, env, st, ctx):
    with self.hk.with_rng(key_of(st[1])):
      self.run(pi, env, st[2], ctx)

  def op_mod(self, pi, env, st, ctx):
    _, var, ci, name = st[:4]
    if len(st) > 4:
      m = self.classes[pi][ci](env, name, nosuper=True)
    else:
      m = self.classes[pi][ci](env, name)
    ctx.vars[var] = m
    env.fold(crc(m.module_name))
    env.fold(crc(m.name))

  def op_call(self, pi, env, st, ctx):
    _, var, how = st
    m = ctx.get(var)
    if m is None:
      return
    if how == "prop":
      out = m.prop
    else:
      arg = env.acc if isinstance(env.acc, Tracer) else np.int32(env.acc)
      if how == "call":
        out = m(arg)
      elif how == "other":
        out = m.other(arg)
      else:
        out = m.trans(arg)
    env.acc = out if isinstance(out, Tracer) else int(np.asarray(out))

  def op_poke(self, pi, env, st, ctx):
    if env.poke is not None:
      env.poke()

  def op_opt(self, pi, env, st, ctx):
    """optimize_rng_use: the body is first run abstractly to count keys."""
    first = [True]

    def body(c):
      fn = self._body(pi, env, st[1], ctx, env.trace)
      if first:
        first.clear()
        s = env.save()
        try:
          return fn(c)
        finally:
          env.restore(s)
      return fn(c)
    c = self.hk.experimental.optimize_rng_use(body)(env.pack())
    env.unpack(c)

  def op_super(self, pi, env, st, ctx):
    """super().method(acc), of base class number st[2]."""
    _, how, ci = st
    cls = self.classes[pi][ci]
    f = cls.__call__ if how == "call" else cls.other
    arg = env.acc if isinstance(env.acc, Tracer) else np.int32(env.acc)
    out = f(ctx.mod, arg)
    env.acc = out if isinstance(out, Tracer) else int(np.asarray(out))

  def op_give(self, pi, env, st, ctx):
    """Hands a module to another one, which calls it from its methods."""
    to, what = ctx.get(st[1]), ctx.get(st[2])
    if to is not None and what is not None:
      to._v["g0"] = what

  def op_scope(self, pi, env, st, ctx):
    with self.hk.experimental.name_scope(st[1]):
      self.run(pi, env, st[2], ctx)

  def op_nscope(self, pi, env, st, ctx):
    """Creates a name scope that is entered later, perhaps elsewhere."""
    ctx.vars[st[1]] = self.hk.experimental.name_scope(st[2])

  def op_within(self, pi, env, st, ctx):
    scope = ctx.get(st[1])
    if scope is not None:
      with scope:
        self.run(pi, env, st[2], ctx)

  def op_creator(self, pi, env, st, ctx):
    _, spec, body = st

    def creator(next_creator, shape, dtype, init, context):
      env.fold(spec["tag"])
      fold_context(env, context)
      self.run(pi, env, spec["pre"], Ctx(None, {}))

      def const(s):
        v = value(tuple(s), spec["tag"], False)
        return box(self.hk, v) if context.name == TREE else v

      if spec["mode"] == "skip":
        v = const(shape)
      elif spec["mode"] == "const":
        v = next_creator(shape, dtype, lambda s, d: const(s))
      else:
        v = next_creator(shape, dtype, init)
        if spec["mode"] == "add":
          v = bump(v, spec["tag"])
      self.run(pi, env, spec["post"], Ctx(None, {}))
      return v

    with self.hk.experimental.custom_creator(
        creator, **hook_kwargs(spec)):
      self.run(pi, env, body, ctx)

  def op_getter(self, pi, env, st, ctx):
    _, spec, body = st

    def getter(next_getter, v, context):
      env.fold(spec["tag"])
      fold_context(env, context)
      self.run(pi, env, spec["pre"], Ctx(None, {}))
      if spec["mode"] == "add":
        v = bump(v, spec["tag"])
      if spec["mode"] != "skip":
        v = next_getter(v)
      self.run(pi, env, spec["post"], Ctx(None, {}))
      return v

    with self.hk.experimental.custom_getter(
        getter, **hook_kwargs(spec)):
      self.run(pi, env, body, ctx)

  def op_icept(self, pi, env, st, ctx):
    _, spec, body = st

    def interceptor(next_f, args, kwargs, context):
      name = context.method_name
      env.fold(spec["tag"])
      env.fold(crc(name))
      env.fold(crc(getattr(context.module, "module_name", "?")))
      self.run(pi, env, spec["pre"], Ctx(None, {}))
      valued = name in ("__call__", "other")
      if valued:
        args = (env.acc if isinstance(env.acc, Tracer) else np.int32(env.acc),)
      if spec["mode"] == "skip" and valued:
        out = args[0]
      elif spec["mode"] == "short":
        out = context.orig_method(*args, **kwargs)
      else:
        out = next_f(*args, **kwargs)
      if valued:
        env.acc = out if isinstance(out, Tracer) else int(np.asarray(out))
      self.run(pi, env, spec["post"], Ctx(None, {}))
      if valued or name == "prop":
        return env.acc if isinstance(env.acc, Tracer) else np.int32(env.acc)
      return out

    with self.hk.experimental.intercept_methods(interceptor):
      self.run(pi, env, body, ctx)

  def op_try(self, pi, env, st, ctx):
    _, catch, body, handler = st
    trace = env.trace
    try:
      self.run(pi, env, body, ctx)
    except sched._Abort:
      raise
    except CATCH[catch] as e:  # pylint: disable=broad-except
      assert env.trace == trace
      env.fold(crc("caught %s" % getattr(e, "sim_site", "hk")))
      self.run(pi, env, handler, ctx)

  def op_raise(self, pi, env, st, ctx):
    kind = env.active.get(st[1])
    if kind is not None:
      raise env.make_exc(kind, st[1])

  def op_efault(self, pi, env, st, ctx):
    """The k-th call from Haiku into JAX below this statement fails."""
    _, site, k, body = st
    kind = env.active.get(site)
    if kind is None:
      self.run(pi, env, body, ctx)
      return
    plane = sched.plane()
    exc = env.make_exc(kind, site)
    slot = len(env.efired)
    env.efired.append(False)
    plane.arm(k, exc)
    try:
      self.run(pi, env, body, ctx)
    finally:
      env.efired[slot] = plane.disarm()

  def op_pdict(self, pi, env, st, ctx):
    m = ctx.get(st[1])
    if m is None:
      return
    d = m.params_dict() if st[2] == "params" else m.state_dict()
    for k in sorted(d):
      env.fold(crc(k))
      self.fold_state(env, k.rsplit("/", 1)[-1], d[k])

  def op_ifinit(self, pi, env, st, ctx):
    if self.hk.running_init():
      self.run(pi, env, st[1], ctx)
    else:
      self.run(pi, env, st[2], ctx)

  def op_arg(self, pi, env, st, ctx):
    env.fold(env.x)

  def op_xarg(self, pi, env, st, ctx):
    if env.xe is not None:
      env.fold(env.xe)

  def op_loop(self, pi, env, st, ctx):
    for _ in range(st[1]):
      self.run(pi, env, st[2], ctx)

  def fold_tree(self, env, t):
    for b in sorted(t):
      for n in sorted(t[b]):
        env.fold(crc(b + ":" + n))
        self.fold_state(env, n, t[b][n])

  def op_nested(self, pi, env, st, ctx):
    _, qi, seed, x = st
    kind = self.progs[qi].get("kind", "tws")
    t = self.make_transformed(self.fns[qi], kind)
    ws = kind.startswith("tws")
    e = env.child(x)
    p = t.init(key_of(seed), e, np.int32(x))
    p, s = p if ws else (p, {})
    self.fold_tree(env, p)
    self.fold_tree(env, s)
    e = env.child(x)
    args = (p,) + ((s,) if ws else ()) + (
        () if kind.endswith("norng") else (key_of(seed + 1),))
    out = t.apply(*args, e, np.int32(x))
    out, s = out if ws else (out, {})
    env.fold(out)
    self.fold_tree(env, s)

  def op_spawn(self, pi, env, st, ctx):
    """A thread started by the program makes calls of its own."""
    _, qi, seed, x = st
    kind = self.progs[qi].get("kind", "tws")
    t = self.make_transformed(self.fns[qi], kind)
    ws = kind.startswith("tws")

    def work():
      p = t.init(key_of(seed), env.child(x), np.int32(x))
      p, s = p if ws else (p, {})
      args = (p,) + ((s,) if ws else ()) + (
          () if kind.endswith("norng") else (key_of(seed + 1),))
      out = t.apply(*args, env.child(x), np.int32(x))
      out, s2 = out if ws else (out, {})
      return p, s, out, s2
    p, s, out, s2 = sched.on_thread(work)
    self.fold_tree(env, p)
    self.fold_tree(env, s)
    env.fold(out)
    self.fold_tree(env, s2)

  def op_lift(self, pi, env, st, ctx):
    _, qi, seed, x, name = st
    t = self.hk.transform(self.fns[qi])
    lifted = self.hk.experimental.lift(t.init, name=name)
    p = lifted(key_of(seed), env.child(x), np.int32(x))
    self.fold_tree(env, p)
    env.fold(t.apply(p, key_of(seed + 1), env.child(x), np.int32(x)))

  # --------------------------------------------------- JAX transformations

  def _body(self, pi, env, body, ctx, depth):
    def fn(c):
      env.unpack(c)
      env.trace = depth
      for v in env.extra:
        env.fold(v)
      env.extra = ()
      self.run(pi, env, body, ctx.child())
      return env.pack()
    return fn

  def _wrapped(self, pi, env, ctx, call):
    """Runs a JAX transformation; a failure leaves env as it was."""
    s = env.save()
    try:
      c = call(env.trace + 1)
    except BaseException:
      env.restore(s)
      raise
    env.restore(s)
    env.unpack(c)

  def op_jit(self, pi, env, st, ctx):
    hk = self.hk
    dec = {"jit": hk.jit, "remat": hk.remat,
           "named": lambda f: hk.experimental.named_call(f, name="nm")}[st[1]]
    style = st[3] if len(st) > 3 else ""

    def call(d):
      fn = self._body(pi, env, st[2], ctx, d)
      if style == "kw":
        return dec(fn)(c=env.pack())
      if style == "two":  # one more argument, by keyword or not
        def fn2(c, extra, *rest):
          env.extra = (extra,) + rest
          return fn(c)
        if st[1] == "jit":
          return dec(fn2, static_argnums=(1,))(env.pack(), 5)
        if st[1] == "remat":
          return dec(fn2, static_argnums=(2,))(env.pack(), np.int32(5), 6)
        return dec(fn2)(env.pack(), extra=np.int32(5))
      return dec(fn)(env.pack())
    self._wrapped(pi, env, ctx, call)

  def index(self, env, spec, n):
    how, c = spec
    if how == "const":
      return np.int32(c % n)
    v = env.acc
    if isinstance(v, Tracer):
      return ((v >> np.int32(c)) & np.int32(7)) % np.int32(n)
    return np.int32(((v >> c) & 7) % n)

  def op_cond(self, pi, env, st, ctx):
    _, spec, bt, bf, style = st
    hk = self.hk
    pred = self.index(env, spec, 2) == 1

    def call(d):
      t = self._body(pi, env, bt, ctx, d)
      f = self._body(pi, env, bf, ctx, d)
      c = env.pack()
      if style in ("old", "oldkw"):
        # Each branch has an operand of its own.
        flip = lambda a: a ^ np.int32(1)
        c2 = flip(c) if env.kb is None else (flip(c[0]),) + c[1:]
        if style == "old":
          return hk.cond(pred, c, t, c2, f)
        return hk.cond(pred, true_operand=c, true_fun=t, false_operand=c2,
                       false_fun=f)
      if style == "newkw":
        return hk.cond(pred, operand=c, false_fun=f, true_fun=t)
      if style == "same":
        return hk.cond(pred, t, t, c)
      return hk.cond(pred, t, f, c)
    self._wrapped(pi, env, ctx, call)

  def op_switch(self, pi, env, st, ctx):
    _, spec, bodies = st
    i = self.index(env, spec, len(bodies))
    self._wrapped(pi, env, ctx, lambda d: self.hk.switch(
        i, [self._body(pi, env, b, ctx, d) for b in bodies], env.pack()))

  def op_scan(self, pi, env, st, ctx):
    _, xs, body, reverse, unroll = st[:5]
    style = st[5] if len(st) > 5 else ""
    ys = []

    def call(d):
      fn0 = self._body(pi, env, body, ctx, d)

      def fn(c, x):
        if style == "none":
          x = np.int32(9)
        elif style == "pair":
          x = x["a"] - x["b"][0]
        env.xe = x
        c = fn0(c)
        y = c if env.kb is None else c[0]
        y = y ^ np.int32(5)
        return c, {"y": y, "t": (y,)} if style == "pair" else y
      a = np.array(xs, np.int32)
      if style == "none":
        c, y = self.hk.scan(fn, env.pack(), None, len(xs), reverse, unroll)
      elif style == "pair":
        a = {"a": a + np.int32(3), "b": [np.full(len(xs), 3, np.int32)]}
        c, y = self.hk.scan(f=fn, init=env.pack(), xs=a, length=len(xs),
                            reverse=reverse, unroll=unroll)
        y = y["t"][0]
      else:
        c, y = self.hk.scan(fn, env.pack(), a, reverse=reverse, unroll=unroll)
      ys.append(y)
      return c
    self._wrapped(pi, env, ctx, call)
    for i in range(len(xs)):
      env.fold(ys[0][i])

  def op_fori(self, pi, env, st, ctx):
    _, lo, n, body = st

    def call(d):
      fn0 = self._body(pi, env, body, ctx, d)

      def fn(i, c):
        env.xe = np.int32(i) if isinstance(i, int) else i
        return fn0(c)
      return self.hk.fori_loop(lo, lo + n, fn, env.pack())
    self._wrapped(pi, env, ctx, call)

  def op_while(self, pi, env, st, ctx):
    n, body = st[1:3]
    what = st[3] if len(st) > 3 else [None]

    def call(d):
      fn0 = self._body(pi, env, body, ctx, d)

      def fn(v):
        i, c = v
        env.xe = i
        return i + np.int32(1), fn0(c)

      def cond(v):
        ok = v[0] < np.int32(n)
        if what[0] == "key":
          self.hk.next_rng_key()
        elif what[0] == "set":
          self.hk.set_state(what[1], v[0])
        elif what[0] == "read":
          # Reads what the steps so far have left in the state.
          ok = ok & ((jnp.asarray(self.hk.get_state(what[1])) & 3) != 1)
        return ok
      _, c = self.hk.while_loop(cond, fn, (np.int32(0), env.pack()))
      return c
    self._wrapped(pi, env, ctx, call)

  def op_vmap(self, pi, env, st, ctx):
    _, xs, body = st[:3]
    named = len(st) > 3 and st[3] == "axis"
    s = env.save()
    kbuf = env.kb is not None
    axis = "b%d" % env.trace if named else None

    def fn(x, *k):
      if k:
        env.kb, env.kn = k
      env.trace = s[-1] + 1
      env.acc = x
      env.xe = x
      if named:
        env.fold(jax.lax.axis_index(axis))
      self.run(pi, env, body, ctx.child())
      acc = env.acc
      return (acc,) + ((env.kb, env.kn) if k else ())
    args = (np.array(xs, np.int32),) + ((env.kb, env.kn) if kbuf else ())
    axes = (0,) + ((None, None) if kbuf else ())
    try:
      if named:
        out = self.hk.vmap(fn, axes, axes, axis_name=axis)(*args)
      elif not kbuf:
        out = self.hk.vmap(fn)(*args)
      else:
        out = self.hk.vmap(fn, in_axes=axes, out_axes=axes)(*args)
    except BaseException:
      env.restore(s)
      raise
    env.restore(s)
    if kbuf:
      env.unpack((env.acc, out[1], out[2]))
    for i in range(len(xs)):
      env.fold(out[0][i])

  def op_grad(self, pi, env, st, ctx):
    _, how, c, body = st[:4]
    style = st[4] if len(st) > 4 else ""
    hk = self.hk
    extra = []
    dec = hk.grad if how == "grad" else hk.value_and_grad

    def call(d):
      fn0 = self._body(pi, env, body, ctx, d)

      def fn(xf, carry):
        carry = fn0(carry)
        return xf * xf * np.float32(c), carry
      x = np.float32(3.0)
      if style == "noaux":
        keep = env.save()
        out = dec(lambda *a: fn(*a)[0])(x, env.pack())
        env.restore(keep)
        carry = env.pack()
        extra.extend([0, out] if how == "grad" else list(out))
      elif style:
        if style == "kw":
          out = dec(fn, has_aux=True)(x, carry=env.pack())
        elif style == "second":
          out = dec(lambda carry, xf: fn(xf, carry), 1, has_aux=True)(
              env.pack(), x)
        else:
          def fn3(xf, carry, zf):
            v, carry = fn(xf, carry)
            return v + zf * np.float32(4), carry
          out = dec(fn3, argnums=(2, 0), has_aux=True)(
              x, env.pack(), np.float32(0.0))
        if how == "grad":
          g, carry = out
          extra.append(0)
        else:
          (v, carry), g = out
          extra.append(v)
        extra.extend(g if isinstance(g, tuple) else [g])
      elif how == "grad":
        g, carry = hk.grad(fn, has_aux=True)(np.float32(3.0), env.pack())
        extra.extend([0, g])
      else:
        (v, carry), g = hk.value_and_grad(fn, has_aux=True)(
            np.float32(3.0), env.pack())
        extra.extend([v, g])
      return carry
    self._wrapped(pi, env, ctx, call)
    for v in extra:
      env.fold(v.astype(np.int32) if isinstance(v, Tracer) else int(v))

  def op_eshape(self, pi, env, st, ctx):
    s = env.save()
    style = st[2] if len(st) > 2 else ""
    try:
      fn = self._body(pi, env, st[1], ctx, env.trace + 1)
      if style == "kw":
        out = self.hk.eval_shape(fn, c=env.pack())
      elif style == "two":
        def fn2(c, extra):
          env.extra = (extra,)
          return fn(c)
        out = self.hk.eval_shape(fn2, env.pack(), extra=np.int32(5))
      else:
        out = self.hk.eval_shape(fn, env.pack())
    finally:
      env.restore(s)
    out = out if env.kb is None else out[0]
    assert isinstance(out, jax.ShapeDtypeStruct), out
    env.fold(3 + len(out.shape))
